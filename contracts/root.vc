// The public parsing functions.
package root

// C12: what is returned is the image of what was parsed, under the given name.
gvar $readerr any
// C03: the scanner keeps what it has handed out
gvar $read []string
gvar $readfrom any
ghost bufio.Scanner.got []string
ghost bufio.Scanner.from any
ghost bufio.Scanner.max int
ghost bufio.Scanner.split any
ghost bufio.Scanner.ended bool
extern bufio.NewScanner(r) -> s
  modifies nothing
  ensures s != nil && fresh(s) && len(s.got) == 0 && s.from == r && s.max == 65536 && !s.ended && tag(s.split) == 0
extern (*bufio.Scanner).Buffer(s, b, n)
  modifies s.max
  ensures s.max == n
extern (*bufio.Scanner).Split(s, f)
  modifies s.split
  ensures tag(s.split) != 0
extern (*bufio.Scanner).Scan(s) -> ok
  requires [C03] s.max >= 2147483647 && tag(s.split) == 0
  modifies s.got, s.ended
  ensures ite(ok, len(s.got) == len(old(s.got)) + 1 && s.got == append1(old(s.got), s.got[len(s.got) - 1]), s.got == old(s.got)) && s.ended == !ok
extern (*bufio.Scanner).Text(s) -> r
  modifies nothing
  ensures r == s.got[len(s.got) - 1]
extern (*bufio.Scanner).Bytes(s) -> r
  modifies nothing
  ensures bstr(r) == s.got[len(s.got) - 1]
extern (*bufio.Scanner).Err(s) -> e
  requires [C03] s.ended
  modifies $readerr, $read, $readfrom
  ensures $readerr == e && $read == s.got && $readfrom == s.from

func readlines(r) -> lines, err
  modifies $readerr, $read, $readfrom
  ensures [C01 C03] err == $readerr
  ensures [C02 C03] seqeq(lines, $read) && $readfrom == r
  panics [C01 C02 C03] e: false
  loopcand s *bufio.Scanner, l []string : seqeq(l, s.got)

func ParseFile(r, filename, opt) -> node, err
  modifies $src, $tree, $fails, $lasterr, $parsed, $parsedname, $cmd, $cmdat, any(go.VimNode.done), $readerr, $read, $readfrom, $lines, $rlines
  ensures [C01] (node == nil) == (tag(err) != 0)
  ensures [C01] tag(err) == 0 || tagis(err, *ErrVimlParser) && payload(err) != 0 || err == $readerr
  ensures [C12] tag(err) == 0 ==> node != nil && $parsedname == filename && im($parsed, filename, iface(node))
  ensures [only C02] tag($readerr) == 0 && tagis(err, *ErrVimlParser) ==> seqeq($lines, $read) && as(err, *ErrVimlParser).Filename == filename && validp($lines, as(err, *ErrVimlParser).Line, as(err, *ErrVimlParser).Column, as(err, *ErrVimlParser).Offset)
  ensures [C03] $readfrom == old(r) && (tag($readerr) == 0 || err == $readerr) && (tag(err) == 0 ==> seqeq($rlines, $read))
  // for the command-line tool: what this call means for its history
  summary $src == ite(r == old($src), nil, junk)
  summary $tree == ite(tag(err) == 0, iface(node), old($tree))
  summary $fails == old($fails) + ite(tag(err) == 0, 0, 1)
  summary $lasterr == ite(tag(err) == 0, old($lasterr), err)

func ParseExpr(r) -> node, err
  modifies $parsed, $parsedname, $readerr, $read, $readfrom, $lines, $rlines
  ensures [C01] (tag(node) == 0) == (tag(err) != 0)
  ensures [C01] tag(node) != 0 ==> payload(node) != 0
  ensures [C01] tag(err) == 0 || tagis(err, *ErrVimlParser) && payload(err) != 0 || err == $readerr
  ensures [C12] tag(err) == 0 ==> im($parsed, "", node)
  ensures [only C02] tag($readerr) == 0 && tagis(err, *ErrVimlParser) ==> seqeq($lines, $read) && validp($lines, as(err, *ErrVimlParser).Line, as(err, *ErrVimlParser).Column, as(err, *ErrVimlParser).Offset)
  ensures [C03] $readfrom == old(r) && (tag($readerr) == 0 || err == $readerr) && (tag(err) == 0 ==> seqeq($rlines, $read))
