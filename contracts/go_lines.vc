// C03: the characters of a script and where each stands.  C02: every place the
// parser names is one of these.
package go

// what the reader was made of, and which reader a place comes from
ghost StringReader.lines []string
ghost pos.rd *StringReader
frozen StringReader.lines
frozen pos.rd
frozen pos.lnum
frozen pos.col
frozen pos.offset

// the place of the next character is the one recorded for it
func StringReader.getpos(self) -> r
  inline
  defines pos.rd: self
  ensures [C03] r != nil && fresh(r) && r.i == self.i && let(p, self.pos[self.i], r.lnum == p.lnum && r.col == p.col && r.offset == p.offset)

// the offset of line k, one newline after each line
ufun lineoff(l []string, k int) int
axiom lineoff_0: forall l []string :: {lineoff(l, 0)} lineoff(l, 0) == 0
axiom lineoff_s: forall l []string, k int :: {lineoff(l, k), l[k]} 0 <= k && k < len(l) ==> lineoff(l, k + 1) == lineoff(l, k) + len(l[k]) + 1

// line, column and offset are those of one place in the lines, or of their end
spec validp(l []string, n int, c int, o int) bool = 1 <= n && n <= len(l) && 1 <= c && c <= len(l[n - 1]) + 1 && o == lineoff(l, n - 1) + c - 1 || n == len(l) + 1 && c == 0 && o == lineoff(l, len(l))

// rl(s): the length of the first character of s
ufun rl(s string) int
extern unicode/utf8.DecodeRuneInString(s) -> r, n
  modifies nothing
  ensures n == ite(len(s) == 0, 0, rl(s))

// bsk(s, k): the place after the first backslash of s from k on
ufun bsk(s string, k int) int
axiom cs_e: forall s string, k int :: {bsk(s, k)} k >= len(s) ==> bsk(s, k) == len(s)
axiom cs_s: forall s string, k int :: {bsk(s, k), s[k..]} 0 <= k && k < len(s) ==> bsk(s, k) == ite(s[k..][0..rl(s[k..])] == "\\", k + rl(s[k..]), bsk(s, k + rl(s[k..])))
// cont(l, k): line k continues the one before; its text starts at cst(l, k)
ufun cont(l []string, k int) bool
ufun cst(l []string, k int) int
axiom cont_b: forall l []string, k int :: {cont(l, k)} k >= len(l) ==> !cont(l, k)
axiom cont_l: forall l []string, k int :: {cont(l, k), l[k]} 0 <= k && k < len(l) ==> (cont(l, k) == rx(l[k], "^\\s*\\\\"))
axiom cst_l: forall l []string, k int :: {cst(l, k), l[k]} 0 <= k && k < len(l) ==> cst(l, k) == bsk(l[k], 0)

// the offset at which the text goes on at place c of line k: there, or at the
// end of the line in the text of the next one when that continues it
ufun nxo(l []string, k int, c int) int
axiom nxo_s: forall l []string, k int, c int :: {nxo(l, k, c), l[k]} 0 <= k && k < len(l) ==> nxo(l, k, c) == ite(c < len(l[k]) || !cont(l, k + 1), lineoff(l, k) + c, nxo(l, k + 1, cst(l, k + 1)))

// one character and its place
spec ent(l []string, b string, p pos) bool = 1 <= p.lnum && p.lnum <= len(l) && 1 <= p.col && p.offset == lineoff(l, p.lnum - 1) + p.col - 1 &&
  ite(b == "<EOL>", p.col == len(l[p.lnum - 1]) + 1 && !cont(l, p.lnum), b != "" && p.col - 1 + len(b) <= len(l[p.lnum - 1]) && b == l[p.lnum - 1][p.col - 1..p.col - 1 + len(b)])
// where the character after it stands
spec after(l []string, b string, p pos) int = ite(b == "<EOL>", ite(p.lnum < len(l), nxo(l, p.lnum, 0), lineoff(l, len(l))), nxo(l, p.lnum - 1, p.col - 1 + len(b)))
spec start(l []string) int = ite(len(l) == 0, 0, nxo(l, 0, 0))

inv [only C03] StringReader r: forall i int :: {r.buf[i]} {r.pos[i]} 0 <= i && i < len(r.buf) ==> ent(r.lines, r.buf[i], r.pos[i])
inv [only C03] StringReader r: forall i int, j int :: {r.buf[i], r.pos[j]} 0 <= i && j == i + 1 && i < len(r.buf) ==> r.pos[j].offset == after(r.lines, r.buf[i], r.pos[i])
inv [only C03] StringReader r: len(r.pos) == len(r.buf) + 1 && r.pos[0].offset == start(r.lines)
inv [only C03] StringReader r: let(p, r.pos[len(r.buf)], p.lnum == len(r.lines) + 1 && p.col == 0 && p.offset == lineoff(r.lines, len(r.lines)))
inv [only C02] StringReader r: forall i int :: {r.pos[i]} 0 <= i && i < len(r.pos) ==> validp(r.lines, r.pos[i].lnum, r.pos[i].col, r.pos[i].offset)
inv [only C02] pos q: q.rd != nil ==> validp(q.rd.lines, q.lnum, q.col, q.offset)

spec pend(l []string, o *StringReader) int = ite(len(o.buf) == 0, start(l), after(l, o.buf[len(o.buf) - 1], o.pos[len(o.buf) - 1]))

func NewStringReader(lines) -> r
  parts
  defines StringReader.lines: lines
  ensures [C02 C03] r.lines == lines
  loopcand o *StringReader : len(o.pos) == len(o.buf)
  loopcand [only C02 C03] o *StringReader : forall i int :: {o.buf[i]} {o.pos[i]} 0 <= i && i < len(o.buf) ==> ent(lines, o.buf[i], o.pos[i])
  loopcand [only C02 C03] o *StringReader : forall i int, j int :: {o.buf[i], o.pos[j]} 0 <= i && j == i + 1 && j < len(o.buf) ==> o.pos[j].offset == after(lines, o.buf[i], o.pos[i])
  loopcand [only C02 C03] o *StringReader : len(o.buf) > 0 ==> o.pos[0].offset == start(lines)
  loopcand [only C02 C03] k int, c int, s string : 0 <= k && k < len(lines) && 0 <= c && c <= len(lines[k]) && s == lines[k][c..]
  loopcand [only C02 C03] k int, c int, s string : 0 <= k && k + 1 < len(lines) && 0 <= c && c <= len(lines[k + 1]) && s == lines[k + 1][c..]
  loopcand [only C02 C03] k int, c int, o int : 0 <= k && k < len(lines) && c == len(lines[k]) && o == lineoff(lines, k) + c
  loopcand [only C02 C03] k int, c int, o int : o == lineoff(lines, k) + c
  loopcand [only C02 C03] k int, c int, o int : o == lineoff(lines, k + 1) + c
  loopcand [only C02 C03] k int, o int : 0 <= k && k <= len(lines) && o == lineoff(lines, k)
  loopcand [only C02 C03] k int, o *StringReader : pend(lines, o) == ite(k < len(lines), nxo(lines, k, 0), lineoff(lines, len(lines)))
  loopcand [only C02 C03] k int, c int, o *StringReader : pend(lines, o) == nxo(lines, k, c)
  loopcand [only C02 C03] k int, c int, b bool, o *StringReader : ite(b, bsk(lines[k + 1], c) == cst(lines, k + 1) && pend(lines, o) == nxo(lines, k + 1, cst(lines, k + 1)), pend(lines, o) == nxo(lines, k + 1, c))
  loopcand [only C02 C03] k int : cont(lines, k + 1)

// what was parsed last, as lines
gvar $rlines []string
func VimLParser.parse(p, reader) -> n
  summary $rlines == reader.lines

func VimLParser.Parse(p, reader, fn) -> r
  ensures [C03] $rlines == reader.lines
  ensures [C03] tagis(r, *ast.File)

func ExprParser.parse(self) -> n
  summary $rlines == self.reader.lines

func ExprParser.Parse(p) -> r
  ensures [C03] $rlines == old(p.reader.lines)

// a place is copied as it is
func newPos(p, fn) -> r
  modifies nothing
  panics [C01 C02] e: false
  ensures [C03] p == nil || r != nil && r.Offset == p.offset && r.Line == p.lnum && r.Column == p.col && r.Filename == fn
  ensures [C03] p != nil || r == nil
