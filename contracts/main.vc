// C19: exit status of the command-line tool.
//
// Ghost state, updated by the calls that read, parse and write:
//   $args    how many of the named files have been opened, in order
//   $src     the input opened and not parsed yet
//   $tree    the tree parsed and not written yet
//   $fails   how many inputs failed;  $lasterr the last failure
//   $reports how many failures were reported on standard error
package cmd/vimlparser

gvar $args int
gvar $src any
gvar $tree any
gvar $fails int
gvar $lasterr any
gvar $reports int
gvar $flagsparsed bool
ufun cmdargs() []string
ufun encw(e int) any
ufun junk() any

extern flag.Parse()
  modifies $flagsparsed
  ensures $flagsparsed
extern flag.Args() -> a
  requires [C19] $flagsparsed
  modifies nothing
  ensures a == cmdargs
extern flag.NArg() -> n
  requires [C19] $flagsparsed
  modifies nothing
  ensures n == len(cmdargs)
extern flag.Arg(i) -> s
  requires [C19] $flagsparsed
  modifies nothing
  ensures s == ite(0 <= i && i < len(cmdargs), cmdargs[i], "")
extern flag.Usage()
  modifies nothing
extern os.Open(name) -> f, err
  // each named file once, in order, after the one before is finished
  requires [C19] $args < len(cmdargs) && name == cmdargs[$args]
  requires [C19] tag($src) == 0 && tag($tree) == 0 && $reports == $fails
  modifies $args, $src, $fails, $lasterr
  ensures $args == old($args) + 1
  ensures tag(err) == 0 ==> f != nil && $src == iface(f) && $fails == old($fails) && $lasterr == old($lasterr)
  ensures tag(err) != 0 ==> $src == nil && $fails == old($fails) + 1 && $lasterr == err
extern encoding/json.NewEncoder(w) -> e
  modifies nothing
  ensures e != nil && encw(ref(e)) == w
extern (*encoding/json.Encoder).SetIndent(e, p, i)
  modifies nothing
extern (*encoding/json.Encoder).Encode(e, v) -> err
  modifies $tree, $fails, $lasterr
  ensures $tree == ite(encw(ref(e)) == iface(os.Stdout) && v == old($tree), nil, junk)
  ensures $fails == old($fails) + ite(tag(err) == 0, 0, 1)
  ensures $lasterr == ite(tag(err) == 0, old($lasterr), err)
extern fmt.Fprintln(w, a) -> n, err
  modifies $reports
  ensures $reports == ite(w == iface(os.Stderr) && len(a) > 0 && a[len(a) - 1] == $lasterr && old($reports) < $fails, old($reports) + 1, old($reports))
extern os.Exit(code)
  requires [C19] tag($src) == 0 && tag($tree) == 0
  requires [C19] $args == len(cmdargs)
  requires [C19] code == ite($fails == 0, 0, 1)
  requires [C19] $reports == $fails
  noreturn

func main()
  requires $args == 0 && $fails == 0 && $reports == 0 && tag($tree) == 0 && !$flagsparsed
  requires $src == ite(len(cmdargs) == 0, iface(os.Stdin), nil)
  requires tag(junk) != 0 && 0 <= len(cmdargs)
  modifies $args, $src, $tree, $fails, $lasterr, $reports, $flagsparsed, $parsed, $parsedname, $nw, $lastw, $lasttext, $werr, $cmd, $cmdat, $readerr, $read, $readfrom, $lines, $rlines, any(go.VimNode.done)
  ensures [C19] $fails == 0 && $args == len(cmdargs) && tag($src) == 0 && tag($tree) == 0

candidate [C19] : $fails >= 0 && $reports == $fails && tag($src) == 0 && tag($tree) == 0
candidate [C19] x int: x == ite($fails == 0, 0, 1)
candidate [C19] b bool: b <==> $fails == 0
candidate [C19] b bool: b <==> $fails != 0
candidate [C19] i int: $args == i + 1 && i < len(cmdargs)
candidate [C19] i int: $args == i && i <= len(cmdargs)

package compiler

func Compiler.Compile(c, w, n) -> err
  modifies $tree, $fails, $lasterr
  summary $tree == ite(w == iface(os.Stdout) && n == old($tree), nil, junk)
  summary $fails == old($fails) + ite(tag(err) == 0, 0, 1)
  summary $lasterr == ite(tag(err) == 0, old($lasterr), err)

func Compile(w, n) -> err
  modifies $tree, $fails, $lasterr
  ensures [C19] $tree == ite(w == iface(os.Stdout) && n == old($tree), nil, junk)
  ensures [C19] $fails == old($fails) + ite(tag(err) == 0, 0, 1)
  ensures [C19] $lasterr == ite(tag(err) == 0, old($lasterr), err)
