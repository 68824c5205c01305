#!/usr/bin/env python3
# writes contracts/go_token.vc: the tokens of expressions (C04, C05)
ops = {}
def op(s, t): ops[s] = t
op('||', 'OROR'); op('&&', 'ANDAND')
for s, t in [('==', 'EQEQ'), ('!=', 'NEQ'), ('>=', 'GTEQ'), ('<=', 'LTEQ'), ('=~', 'MATCH'), ('!~', 'NOMATCH'), ('>', 'GT'), ('<', 'LT')]:
    op(s, t); op(s + '?', t + 'CI'); op(s + '#', t + 'CS')
for x in '+ PLUS,- MINUS,-> ARROW,. DOT,.. DOTDOT,... DOTDOTDOT,* STAR,/ SLASH,% PERCENT,! NOT,? QUESTION,: COLON,# SHARP,#{ LITCOPEN,( POPEN,) PCLOSE,[ SQOPEN,] SQCLOSE,{ COPEN,} CCLOSE,\' SQUOTE,= EQ,| OR,; SEMICOLON,` BACKTICK'.split(','):
    op(*x.split(' '))
op(',', 'COMMA'); op('"', 'DQUOTE')

def q(s): return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'

def trie(pre, default):
    """the longest operator that starts with pre at i: (type, length) expressions"""
    d = default
    if pre in ops: d = ('TOKEN_' + ops[pre], str(len(pre)))
    ty, ln = d
    for c in sorted({o[len(pre)] for o in ops if o.startswith(pre) and len(o) > len(pre)}):
        t2, l2 = trie(pre + c, d)
        cond = 'ch(b, i + %d) == %s' % (len(pre), q(c))
        ty = 'ite(%s, %s, %s)' % (cond, t2, ty)
        ln = 'ite(%s, %s, %s)' % (cond, l2, ln)
    return ty, ln

runs = [  # function, end function, class of characters
    ('read_digit', 'dge', '^[0-9]$'), ('read_odigit', 'oge', '^[0-7]$'), ('read_xdigit', 'xge', '^[0-9A-Fa-f]$'),
    ('read_bdigit', 'bge', '^[01]$'), ('read_word', 'wde', '^[0-9A-Za-z_]$'), ('read_white', 'whe', '^[ \\\\t]$'),
    ('read_name', 'nme', '^[0-9A-Za-z_:#]$')]
s = '''// C04: what the next token is.  Generated by tools/gen_token.py.
//   tty(b, i)   the type of the token at i (no blanks skipped), -1: none
//   tend(b, i)  the place after it
// C05: reading and peeking give that token.
package go
spelled sub
frozen ExprToken.type_
frozen ExprToken.value
frozen ExprToken.pos
frozen ExprTokenizer.reader
frozen pos.i

spec ch(b []string, i int) string = ite(i < len(b), b[i], "<EOF>")
axiom sub_cat: forall b []string, i int, j int, k int :: {sub(b, i, j), sub(b, j, k)} i <= j && j <= k ==> sub(b, i, j) + sub(b, j, k) == sub(b, i, k)
'''
for n in range(2, 7):
    s += 'axiom sub_n%d: forall b []string, i int, j int :: {sub(b, i, j), b[i]} j == i + %d ==> sub(b, i, j) == b[i]%s\n' % (n, n, ''.join(' + b[i + %d]' % k for k in range(1, n)))
for f, e, rx in runs:
    cls = 'rx(@, "%s")' % rx
    if e == 'bge': cls = '(@ == "0" || @ == "1")'
    s += '''
ufun %(e)s(b []string, i int) int
axiom %(e)s_b: forall b []string, i int :: {%(e)s(b, i)} i <= %(e)s(b, i) && (%(e)s(b, i) <= len(b) || %(e)s(b, i) == i) && !(%(e)s(b, i) < len(b) && %(out)s)
axiom %(e)s_i: forall b []string, i int, k int :: {%(e)s(b, i), b[k]} i <= k && k < %(e)s(b, i) ==> %(in)s
''' % dict(e=e, out=cls.replace('@', 'b[%s(b, i)]' % e), **{'in': cls.replace('@', 'b[k]')})
    s += '''
func StringReader.%(f)s(self) -> r
  modifies self.i
  ensures [C04] self.i == %(e)s(self.buf, old(self.i)) && r == sub(self.buf, old(self.i), self.i)
  loopcand s string : s == sub(self.buf, old(self.i), self.i)
  loopcand : old(self.i) <= self.i && self.i <= %(e)s(self.buf, old(self.i))
''' % dict(f=f, e=e)
s += '''
func StringReader.skip_white(self)
  modifies self.i
  ensures [C04] self.i == whe(self.buf, old(self.i))
  loopcand : old(self.i) <= self.i && self.i <= whe(self.buf, old(self.i))

// the end of the pairs of hexadecimal digits at i, single points between them;
// -1: an odd digit
ufun ble(b []string, i int) int
axiom ble_def: forall b []string, i int, e int :: {ble(b, i), sub(b, i, e)} e == nth(b, i, 2) ==> ble(b, i) == ite(rx(look(b, i, 2), "^[0-9A-Fa-f][0-9A-Fa-f]$"), ble(b, nth(b, i, 2)), ite(rx(look(b, i, 2), "^\\\\.[0-9A-Fa-f]$"), ble(b, nth(b, i, 1)), ite(rx(look(b, i, 2), "^[0-9A-Fa-f][^0-9A-Fa-f]$"), 0 - 1, i)))
func StringReader.read_blob(self) -> r
  modifies self.i
  panics e: ble(self.buf, old(self.i)) == 0 - 1
  ensures [C04] self.i == ble(self.buf, old(self.i)) && self.i >= old(self.i) && r == sub(self.buf, old(self.i), self.i)
  loopcand s string : s == sub(self.buf, old(self.i), self.i)
  loopcand : old(self.i) <= self.i && ble(self.buf, old(self.i)) == ble(self.buf, self.i)

ufun tty(b []string, i int) int
ufun tend(b []string, i int) int
spec isch(b []string, i int, s string) bool = ch(b, i) == s
spec idc(b []string, i int) bool = rx(ch(b, i), "^[0-9A-Za-z_]$")
// is and isnot, alone: an operator, whatever follows
spec isis(b []string, i int) bool = isch(b, i, "i") && isch(b, i + 1, "s") && !idc(b, i + 2)
spec isnt(b []string, i int) bool = isch(b, i, "i") && isch(b, i + 1, "s") && isch(b, i + 2, "n") && isch(b, i + 3, "o") && isch(b, i + 4, "t") && !idc(b, i + 5)
// how a number is written
spec ishex(b []string, i int) bool = (isch(b, i + 1, "x") || isch(b, i + 1, "X")) && rx(ch(b, i + 2), "^[0-9A-Fa-f]$")
spec isbin(b []string, i int) bool = (isch(b, i + 1, "b") || isch(b, i + 1, "B")) && (isch(b, i + 2, "0") || isch(b, i + 2, "1"))
spec isblob(b []string, i int) bool = (isch(b, i + 1, "z") || isch(b, i + 1, "Z")) && !isch(b, i + 2, ".")
spec isdg(b []string, i int) bool = rx(ch(b, i), "^[0-9]$")
// the end of the exponent at i, of the fraction at i, of the number at i
spec expe(b []string, i int) int = ite((isch(b, i, "e") || isch(b, i, "E")) && (isdg(b, i + 1) || (isch(b, i + 1, "-") || isch(b, i + 1, "+")) && isdg(b, i + 2)), dge(b, i + 2), i)
spec fre(b []string, i int) int = ite(isch(b, i, ".") && isdg(b, i + 1), expe(b, dge(b, i + 1)), i)
spec nume(b []string, i int) int = fre(b, dge(b, i))

axiom tok_eof: forall b []string, i int :: {tty(b, i)} ch(b, i) == "<EOF>" ==> tty(b, i) == TOKEN_EOF && tend(b, i) == i
axiom tok_eol: forall b []string, i int :: {tty(b, i)} ch(b, i) == "<EOL>" ==> tty(b, i) == TOKEN_EOL && tend(b, i) == i + 1
axiom tok_white: forall b []string, i int :: {tty(b, i)} rx(ch(b, i), "^[ \\\\t]$") ==> tty(b, i) == TOKEN_SPACE && tend(b, i) == whe(b, i)
axiom tok_0: forall b []string, i int :: {tty(b, i)} ch(b, i) == "0" ==> ite(ishex(b, i), tty(b, i) == TOKEN_NUMBER && tend(b, i) == xge(b, i + 3), ite(isbin(b, i), tty(b, i) == TOKEN_NUMBER && tend(b, i) == bge(b, i + 3), ite(isblob(b, i), tty(b, i) == ite(ble(b, i + 2) == 0 - 1, 0 - 1, TOKEN_BLOB) && tend(b, i) == ble(b, i + 2), tty(b, i) == TOKEN_NUMBER && tend(b, i) == nume(b, i))))
axiom tok_num: forall b []string, i int :: {tty(b, i)} rx(ch(b, i), "^[0-9]$") && ch(b, i) != "0" ==> tty(b, i) == TOKEN_NUMBER && tend(b, i) == nume(b, i)
axiom tok_name: forall b []string, i int :: {tty(b, i)} rx(ch(b, i), "^[A-Za-z_]$") ==> ite(isis(b, i), tty(b, i) == ite(isch(b, i + 2, "?"), TOKEN_ISCI, ite(isch(b, i + 2, "#"), TOKEN_ISCS, TOKEN_IS)) && tend(b, i) == i + ite(isch(b, i + 2, "?") || isch(b, i + 2, "#"), 3, 2), ite(isnt(b, i), tty(b, i) == ite(isch(b, i + 5, "?"), TOKEN_ISNOTCI, ite(isch(b, i + 5, "#"), TOKEN_ISNOTCS, TOKEN_ISNOT)) && tend(b, i) == i + ite(isch(b, i + 5, "?") || isch(b, i + 5, "#"), 6, 5), tty(b, i) == TOKEN_IDENTIFIER && tend(b, i) == nme(b, i)))
axiom tok_env: forall b []string, i int :: {tty(b, i)} ch(b, i) == "$" ==> tty(b, i) == TOKEN_ENV && tend(b, i) == wde(b, i + 1)
axiom tok_reg: forall b []string, i int :: {tty(b, i)} ch(b, i) == "@" ==> tty(b, i) == TOKEN_REG && tend(b, i) == nth(b, i, 2)
axiom tok_amp: forall b []string, i int :: {tty(b, i)} ch(b, i) == "&" ==> ite(isch(b, i + 1, "&"), tty(b, i) == TOKEN_ANDAND && tend(b, i) == i + 2, tty(b, i) == TOKEN_OPTION && tend(b, i) == ite((isch(b, i + 1, "g") || isch(b, i + 1, "l")) && isch(b, i + 2, ":"), wde(b, i + 3), wde(b, i + 1)))
'''
firsts = sorted({o[0] for o in ops} - {'&'})
for n, c in enumerate(firsts):
    ty, ln = trie(c, None)
    s += 'axiom tok_op%d: forall b []string, i int :: {tty(b, i)} ch(b, i) == %s ==> tty(b, i) == %s && tend(b, i) == i + %s\n' % (n, q(c), ty, ln)
none = ' && '.join(['ch(b, i) != "<EOF>"', 'ch(b, i) != "<EOL>"', '!rx(ch(b, i), "^[ \\\\t]$")', '!rx(ch(b, i), "^[0-9A-Za-z_]$")'] + ['ch(b, i) != ' + q(c) for c in firsts + ['&', '$', '@']])
s += 'axiom tok_none: forall b []string, i int :: {tty(b, i)} %s ==> tty(b, i) == 0 - 1\n' % none
s += '''
spec istok(b []string, i int, t *ExprToken) bool = t != nil && t.type_ == tty(b, i) && t.value == ite(tty(b, i) == TOKEN_EOF, "<EOF>", sub(b, i, tend(b, i))) && t.pos != nil && t.pos.i == i

func ExprTokenizer.get2(self) -> r
  reads [C05] ExprTokenizer.reader StringReader.i StringReader.buf StringReader.pos pos.i pos.lnum pos.col pos.offset
  panics e: tty(self.reader.buf, old(self.reader.i)) == 0 - 1
  ensures [C04] tty(self.reader.buf, old(self.reader.i)) != 0 - 1
  ensures [C04] self.reader.i == tend(self.reader.buf, old(self.reader.i))
  ensures [C04] istok(self.reader.buf, old(self.reader.i), r)

// the token read from i on
spec tat(b []string, i int, t *ExprToken) bool = istok(b, whe(b, i), t)
inv [C05] ExprTokenizer t: t.cache != nil
inv [C05] ExprTokenizer t: forall k int :: {has(t.cache, k)} has(t.cache, k) ==> len(t.cache[k]) == 2 && tagis(t.cache[k][0], int) && as(t.cache[k][0], int) == tend(t.reader.buf, whe(t.reader.buf, k)) && tagis(t.cache[k][1], *ExprToken) && tat(t.reader.buf, k, as(t.cache[k][1], *ExprToken)) && tty(t.reader.buf, whe(t.reader.buf, k)) != 0 - 1

func ExprTokenizer.get(self) -> r
  panics e: tty(self.reader.buf, whe(self.reader.buf, old(self.reader.i))) == 0 - 1
  ensures [C05] tty(self.reader.buf, whe(self.reader.buf, old(self.reader.i))) != 0 - 1
  ensures [C05] self.reader.i == tend(self.reader.buf, whe(self.reader.buf, old(self.reader.i)))
  ensures [C05] tat(self.reader.buf, old(self.reader.i), r)
func ExprTokenizer.peek(self) -> r
  panics e: tty(self.reader.buf, whe(self.reader.buf, old(self.reader.i))) == 0 - 1
  ensures [C05] tty(self.reader.buf, whe(self.reader.buf, old(self.reader.i))) != 0 - 1
  ensures [C05] self.reader.i == old(self.reader.i)
  ensures [C05] tat(self.reader.buf, old(self.reader.i), r)
'''
s += '''
// the place of the quote that ends a 'literal' whose text starts at k; -1: none on the line
spec eolc(b []string, k int) bool = ch(b, k) == "<EOF>" || ch(b, k) == "<EOL>"
ufun sqe(b []string, k int) int
axiom sqe_end: forall b []string, k int :: {sqe(b, k), b[k]} eolc(b, k) ==> sqe(b, k) == 0 - 1
axiom sqe_eof: forall b []string, k int :: {sqe(b, k)} k >= len(b) ==> sqe(b, k) == 0 - 1
axiom sqe_q: forall b []string, k int :: {sqe(b, k), b[k], b[k + 1]} k + 1 < len(b) && b[k] == "'" ==> sqe(b, k) == ite(b[k + 1] == "'", sqe(b, k + 2), k)
axiom sqe_l: forall b []string, k int :: {sqe(b, k), b[k]} k + 1 == len(b) && b[k] == "'" ==> sqe(b, k) == k
axiom sqe_c: forall b []string, k int :: {sqe(b, k), b[k]} !eolc(b, k) && b[k] != "'" ==> sqe(b, k) == sqe(b, k + 1)
ufun dqe(b []string, k int) int
axiom dqe_end: forall b []string, k int :: {dqe(b, k), b[k]} eolc(b, k) ==> dqe(b, k) == 0 - 1
axiom dqe_eof: forall b []string, k int :: {dqe(b, k)} k >= len(b) ==> dqe(b, k) == 0 - 1
axiom dqe_q: forall b []string, k int :: {dqe(b, k), b[k]} k < len(b) && b[k] == "\\"" ==> dqe(b, k) == k
axiom dqe_b: forall b []string, k int :: {dqe(b, k), b[k], b[k + 1]} k + 1 < len(b) && b[k] == "\\\\" ==> dqe(b, k) == ite(eolc(b, k + 1), 0 - 1, dqe(b, k + 2))
axiom dqe_l: forall b []string, k int :: {dqe(b, k), b[k]} k + 1 == len(b) && b[k] == "\\\\" ==> dqe(b, k) == 0 - 1
axiom dqe_c: forall b []string, k int :: {dqe(b, k), b[k]} !eolc(b, k) && b[k] != "\\"" && b[k] != "\\\\" ==> dqe(b, k) == dqe(b, k + 1)
func ExprTokenizer.get_sstring(self) -> r
  panics e: let(b, self.reader.buf, let(q, whe(b, old(self.reader.i)), ch(b, q) != "'" || sqe(b, q + 1) == 0 - 1))
  ensures [C04] let(b, self.reader.buf, let(q, whe(b, old(self.reader.i)), ch(b, q) == "'" && self.reader.i == sqe(b, q + 1) + 1 && r == sub(b, q + 1, sqe(b, q + 1))))
  loopcand s string : let(b, self.reader.buf, let(q, whe(b, old(self.reader.i)), s == sub(b, q + 1, self.reader.i)))
  loopcand : let(b, self.reader.buf, let(q, whe(b, old(self.reader.i)), q + 1 <= self.reader.i && sqe(b, q + 1) == sqe(b, self.reader.i)))
func ExprTokenizer.get_dstring(self) -> r
  panics e: let(b, self.reader.buf, let(q, whe(b, old(self.reader.i)), ch(b, q) != "\\"" || dqe(b, q + 1) == 0 - 1))
  ensures [C04] let(b, self.reader.buf, let(q, whe(b, old(self.reader.i)), ch(b, q) == "\\"" && self.reader.i == dqe(b, q + 1) + 1 && r == sub(b, q + 1, dqe(b, q + 1))))
  loopcand s string : let(b, self.reader.buf, let(q, whe(b, old(self.reader.i)), s == sub(b, q + 1, self.reader.i)))
  loopcand : let(b, self.reader.buf, let(q, whe(b, old(self.reader.i)), q + 1 <= self.reader.i && dqe(b, q + 1) == dqe(b, self.reader.i)))

// the word of a #{word: ...} key
ufun kend(b []string, i int) int
axiom kend_b: forall b []string, i int :: {kend(b, i)} i <= kend(b, i) && (kend(b, i) <= len(b) || kend(b, i) == i) && !(kend(b, i) < len(b) && (rx(b[kend(b, i)], "^[0-9A-Za-z]$") || b[kend(b, i)] == "_" || b[kend(b, i)] == "-"))
axiom kend_i: forall b []string, i int, k int :: {kend(b, i), b[k]} i <= k && k < kend(b, i) ==> (rx(b[k], "^[0-9A-Za-z]$") || b[k] == "_" || b[k] == "-")
func ExprTokenizer.parse_dict_literal_key(self) -> r
  panics e: let(b, self.reader.buf, let(q, whe(b, old(self.reader.i)), kend(b, q) == q || eolc(b, kend(b, q))))
  ensures [C04] let(b, self.reader.buf, let(q, whe(b, old(self.reader.i)), kend(b, q) > q))
  ensures [C04] let(b, self.reader.buf, let(q, whe(b, old(self.reader.i)), self.reader.i == kend(b, q)))
  ensures [C04] let(b, self.reader.buf, let(q, whe(b, old(self.reader.i)), r != nil && r.type_ == NODE_STRING))
  ensures [C04] let(b, self.reader.buf, let(q, whe(b, old(self.reader.i)), tagis(r.value, string) && as(r.value, string) == "'" + sub(b, q, kend(b, q)) + "'"))
  loopcand s string : let(b, self.reader.buf, let(q, whe(b, old(self.reader.i)), s == sub(b, q, self.reader.i)))
  loopcand : let(b, self.reader.buf, let(q, whe(b, old(self.reader.i)), q < self.reader.i && self.reader.i <= kend(b, q)))
'''
out = []
for l in s.split('\n'):
    out.append(l)
    if l.startswith('axiom tok_') and '{tty(b, i)}' in l:
        out.append(l.replace(': forall', '_e: forall', 1).replace('{tty(b, i)}', '{tend(b, i)}', 1))
s = '\n'.join(out)
open('/verif/contracts/go_token.vc', 'w').write(s)
