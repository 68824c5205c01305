// The character reader: b is the sequence of characters (one rune each, or
// "<EOL>"), i the place.
package go
frozen StringReader.buf
frozen StringReader.pos

inv [C10] StringReader n: forall i int :: {n.buf[i]} 0 <= i && i < len(n.buf) ==> n.buf[i] != ""
// text of the characters i..j-1
ufun sub(b []string, i int, j int) string
axiom sub_0: forall b []string, i int :: {sub(b, i, i)} sub(b, i, i) == ""
axiom sub_s: forall b []string, i int, j int :: {sub(b, i, j), b[j]} i <= j ==> sub(b, i, j + 1) == sub(b, i, j) + b[j]

axiom sub_1: forall b []string, i int, j int :: {sub(b, i, j), b[i]} j == i + 1 ==> sub(b, i, j) == b[i]
// the character at i
spec one(b []string, i int) string = ite(i < len(b) && b[i] != "<EOL>", b[i], "")

// the first place from i on that ends a line
ufun lend(b []string, i int) int
axiom lend_b: forall b []string, i int :: {lend(b, i)} i <= lend(b, i) && (lend(b, i) <= len(b) || lend(b, i) == i) && (lend(b, i) < len(b) ==> b[lend(b, i)] == "<EOL>")
axiom lend_i: forall b []string, i int, k int :: {lend(b, i), b[k]} i <= k && k < lend(b, i) ==> b[k] != "<EOL>"

// the first place from i on that is not a letter / letter or digit
ufun aend(b []string, i int) int
axiom aend_b: forall b []string, i int :: {aend(b, i)} i <= aend(b, i) && (aend(b, i) <= len(b) || aend(b, i) == i) && !(aend(b, i) < len(b) && rx(b[aend(b, i)], "^[A-Za-z]$"))
axiom aend_i: forall b []string, i int, k int :: {aend(b, i), b[k]} i <= k && k < aend(b, i) ==> rx(b[k], "^[A-Za-z]$")
ufun nend(b []string, i int) int
axiom nend_b: forall b []string, i int :: {nend(b, i)} i <= nend(b, i) && (nend(b, i) <= len(b) || nend(b, i) == i) && !(nend(b, i) < len(b) && rx(b[nend(b, i)], "^[0-9A-Za-z]$"))
axiom nend_i: forall b []string, i int, k int :: {nend(b, i), b[k]} i <= k && k < nend(b, i) ==> rx(b[k], "^[0-9A-Za-z]$")

// where reading n characters (all of the line when n < 0) from i ends
spec nth(b []string, i int, n int) int = ite(n < 0 || i + n >= lend(b, i), lend(b, i), i + n)
// the next n characters of the line
spec look(b []string, i int, n int) string = sub(b, i, nth(b, i, n))

func StringReader.getn(self, n) -> r
  modifies self.i
  ensures [C10] self.i == nth(self.buf, old(self.i), n)
  ensures [C10] r == look(self.buf, old(self.i), n)
  ensures [C10] n == 1 ==> r == one(self.buf, old(self.i)) && nth(self.buf, old(self.i), 1) == ite(r == "", old(self.i), old(self.i) + 1)
  ensures [C10] r == "" ==> self.i == old(self.i)
  loopcand s string : s != "" || self.i == old(self.i)
  loopcand j int, s string : self.i <= lend(self.buf, old(self.i)) && self.i == old(self.i) + j && (n < 0 || j <= n) && j >= 0
  loopcand s string : s == sub(self.buf, old(self.i), self.i)

func StringReader.peekn(self, n) -> r
  modifies self.i
  ensures [C10] self.i == old(self.i)
  ensures [C10] r == look(self.buf, old(self.i), n)
  ensures [C10] n == 1 ==> r == one(self.buf, old(self.i)) && nth(self.buf, old(self.i), 1) == ite(r == "", old(self.i), old(self.i) + 1)

func StringReader.read_alpha(self) -> r
  modifies self.i
  ensures [C10] self.i == aend(self.buf, old(self.i))
  ensures [C10] r == sub(self.buf, old(self.i), self.i) && len(r) == self.i - old(self.i)
  loopcand s string : s == sub(self.buf, old(self.i), self.i) && len(s) == self.i - old(self.i)
  loopcand : old(self.i) <= self.i && self.i <= aend(self.buf, old(self.i))

func StringReader.read_alnum(self) -> r
  modifies self.i
  ensures [C10] self.i == nend(self.buf, old(self.i))
  ensures [C10] r == sub(self.buf, old(self.i), self.i) && len(r) == self.i - old(self.i)
  loopcand s string : s == sub(self.buf, old(self.i), self.i) && len(s) == self.i - old(self.i)
  loopcand : old(self.i) <= self.i && self.i <= nend(self.buf, old(self.i))

extern unicode/utf8.DecodeRuneInString(s) -> r, n
  modifies nothing
  ensures 0 <= n && n <= len(s) && n <= 4 && (len(s) > 0 ==> n >= 1)

func NewStringReader(lines) -> r
  modifies nothing
  ensures [C10] r != nil && fresh(r) && r.i == 0
  loopcand o *StringReader : forall i int :: {o.buf[i]} 0 <= i && i < len(o.buf) ==> o.buf[i] != ""
