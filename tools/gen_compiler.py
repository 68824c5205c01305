#!/usr/bin/env python3
# writes contracts/compiler.vc: the S-expression form of every node (C14)
out = []
p = out.append
p('''// C14: the S-expression of a tree.  Generated by tools/gen_compiler.py.
//   sx(e)              the text of an expression
//   out(t, n, i, pad)  the text t followed by what compiling n at indent i prints
//   good(n)            nothing in n is out of place
package compiler

closed ast.ExCommand

ufun sx(e ast.Expr) string
ufun out(t string, n any, i int, pad string) string
ufun good(n any) bool
ufun rep(s string, n int) string
axiom rep_0: forall s string :: {rep(s, 0)} rep(s, 0) == ""
ufun join(l []string, s string) string
ufun bstr(b []byte) string
axiom bstr_0: forall b []byte :: {bstr(b)} len(b) == 0 ==> bstr(b) == ""
ufun trimr(s string, c string) string
ufun idxb(s string, c int) int

ghost bytes.Buffer.text string
gvar $nw int
gvar $lastw any
gvar $lasttext string
gvar $werr any

extern strings.Join(l, s) -> r
  modifies nothing
  ensures r == join(l, s)
extern strings.Repeat(s, n) -> r
  requires [C14] n >= 0
  modifies nothing
  ensures r == rep(s, n)
extern strings.IndexByte(s, c) -> r
  modifies nothing
  ensures r == idxb(s, c)
extern bytes.NewBuffer(b) -> r
  modifies nothing
  ensures r != nil && fresh(r) && r.text == bstr(b)
extern bytes.TrimRight(b, c) -> r
  modifies nothing
  ensures bstr(r) == trimr(bstr(b), c)
extern strings.TrimRight(b, c) -> r
  modifies nothing
  ensures r == trimr(b, c)
extern (*bytes.Buffer).Bytes(b) -> r
  modifies nothing
  ensures bstr(r) == b.text
extern (*bytes.Buffer).String(b) -> r
  modifies nothing
  ensures r == b.text
extern (*bytes.Buffer).Reset(b)
  modifies b.text
  ensures b.text == ""
extern (*bytes.Buffer).Write(b, x) -> n, err
  modifies b.text
  ensures b.text == old(b.text) + bstr(x) && tag(err) == 0
extern (*bytes.Buffer).WriteString(b, x) -> n, err
  modifies b.text
  ensures b.text == old(b.text) + x && tag(err) == 0
extern (*bytes.Buffer).WriteTo(b, w) -> n, err
  modifies b.text, $nw, $lastw, $lasttext, $werr
  ensures $nw == old($nw) + 1 && $lastw == w && $lasttext == old(b.text) && $werr == err
extern io.Copy(w, r) -> n, err
  modifies as(r, *bytes.Buffer).text, $nw, $lastw, $lasttext, $werr
  ensures $nw == old($nw) + 1 && $lastw == w && $werr == err && (tagis(r, *bytes.Buffer) ==> $lasttext == old(as(r, *bytes.Buffer).text))
invoke io.Writer.Write(w, b) -> n, err
  modifies $nw, $lastw, $lasttext, $werr
  ensures $nw == old($nw) + 1 && $lastw == w && $lasttext == bstr(b) && $werr == err
extern $write(w, s) -> n, err
  modifies as(w, *bytes.Buffer).text, $nw, $lastw, $lasttext, $werr
  ensures tagis(w, *bytes.Buffer) ==> as(w, *bytes.Buffer).text == old(as(w, *bytes.Buffer).text) + s && tag(err) == 0 && $nw == old($nw) && $lastw == old($lastw) && $lasttext == old($lasttext) && $werr == old($werr)
  ensures !tagis(w, *bytes.Buffer) ==> $nw == old($nw) + 1 && $lastw == w && $lasttext == s && $werr == err
''')

# joined lists
def joined(name, ty, elem, extra='', extraargs='', n='len(es)'):
    p(f'ufun {name}(es {ty}{extra}) string')
    p(f'axiom {name}_def: forall l []string, s string, es {ty}{extra} :: {{join(l, s), {name}(es{extraargs})}} s == " " && len(l) == {n} && (forall j int :: {{l[j]}} 0 <= j && j < {n} ==> l[j] == {elem("j")}) ==> join(l, s) == {name}(es{extraargs})')
    for k in ['i', 'i - 1']:
        pass
    p(f'candidate [C14] i int, l []string, es {ty}{extra} : len(l) == i + 1 && i + 1 <= len(es) && (forall j int :: {{l[j]}} 0 <= j && j <= i ==> l[j] == {elem("j")})')
    p(f'candidate [C14] i int, l []string, es {ty}{extra} : len(l) == {n} && i + 1 <= {n} && (forall j int :: {{l[j]}} 0 <= j && j <= i ==> l[j] == {elem("j")})')
    p(f'candidate [C14] i int, l []string, es {ty}{extra} : len(l) == {n} && i <= {n} && (forall j int :: {{l[j]}} 0 <= j && j < i ==> l[j] == {elem("j")})')
    p(f'candidate [C14] i int, l []string, es {ty}{extra} : len(l) == i && i <= len(es) && (forall j int :: {{l[j]}} 0 <= j && j < i ==> l[j] == {elem("j")})')
joined('jx', '[]ast.Expr', lambda j: f'sx(es[{j}])')
p('''ufun jm(m ast.Expr, es []ast.Expr) string
axiom jm_def: forall l []string, s string, m ast.Expr, es []ast.Expr :: {join(l, s), jm(m, es)} s == " " && len(l) == len(es) + 1 && l[0] == sx(m) && (forall j int :: {l[j]} 1 <= j && j < len(l) ==> l[j] == sx(es[j - 1])) ==> join(l, s) == jm(m, es)
candidate [C14] i int, l []string, es []ast.Expr : len(l) == i + 2 && i + 1 <= len(es) && l[0] == l0[0] && (forall j int :: {l[j]} 1 <= j && j <= i + 1 ==> l[j] == sx(es[j - 1]))''')
joined('jd', '[]ast.KeyValue', lambda j: f'"(" + sx(es[{j}].Key) + " " + sx(es[{j}].Value) + ")"')
joined('ji', '[]*ast.Ident', lambda j: f'es[{j}].Name')
p('spec quoted(s string) string = "\\"" + s + "\\""')
joined('jq', '[]ast.Expr', lambda j: f'quoted(sx(es[{j}]))')
joined('jqe', '[]ast.Expr', lambda j: f'quoted(esc(sx(es[{j}]), "\\n\\t\\r", len(sx(es[{j}]))))')
p('''ufun jp(ps []ast.CurlyNamePart) string
axiom jp_def: forall l []string, s string, es []ast.CurlyNamePart :: {join(l, s), jp(es)} s == "" && len(l) == len(es) && (forall j int :: {l[j]} 0 <= j && j < len(es) ==> l[j] == sx(es[j])) ==> join(l, s) == jp(es)
candidate [C14] i int, l []string, es []ast.CurlyNamePart : len(l) == i + 1 && i + 1 <= len(es) && (forall j int :: {l[j]} 0 <= j && j <= i ==> l[j] == sx(es[j]))

// parameters: the last ones have defaults; "..." is written ". ..."
spec dots(ps []*ast.Ident) bool = len(ps) > 0 && ps[len(ps) - 1].Name == "..."
spec np(ps []*ast.Ident) int = ite(dots(ps), len(ps) - 1, len(ps))
spec par(ps []*ast.Ident, ds []ast.Expr, j int) string = ite(j < np(ps) - len(ds), ps[j].Name, "(" + ps[j].Name + " " + sx(ds[j + len(ds) - np(ps)]) + ")")
ufun jps(ps []*ast.Ident, ds []ast.Expr) string
axiom jps_def: forall l []string, s string, ps []*ast.Ident, ds []ast.Expr :: {join(l, s), jps(ps, ds)} s == " " && len(l) == len(ps) && (forall j int :: {l[j]} 0 <= j && j < np(ps) ==> l[j] == par(ps, ds, j)) && (dots(ps) ==> l[len(ps) - 1] == ". ...") ==> join(l, s) == jps(ps, ds)
candidate [C14] i int, l []string, n *ast.Function : len(l) == i + 1 && i + 1 <= np(n.Params) && (forall j int :: {l[j]} 0 <= j && j <= i ==> l[j] == par(n.Params, n.DefaultArgs, j))

// characters escaped with a backslash
spec ec(c int, s string) string = ite(c == 10, "\\\\n", ite(c == 9, "\\\\t", ite(c == 13, "\\\\r", "\\\\" + s)))
ufun esc(s string, cs string, k int) string
axiom esc_0: forall s string, cs string :: {esc(s, cs, 0)} esc(s, cs, 0) == ""
axiom esc_s: forall s string, cs string, k int :: {esc(s, cs, k), s[k]} 0 <= k ==> esc(s, cs, k + 1) == esc(s, cs, k) + ite(idxb(cs, s[k]) == 0 - 1, s[k..k + 1], ec(s[k], s[k..k + 1]))
func escape(s, chars) -> r
  ensures [C14] r == esc(s, chars, len(s))
  nopanic
candidate [C14] i int, r string, s string, cs string : r == esc(s, cs, i)

func Compiler.compileExpr(c, node) -> r
  modifies nothing
  summary r == sx(node)''')

E = []
def ex(ty, text, cond=None):
    g = f'tagis(node, *ast.{ty})' + (f' && {cond}' if cond else '')
    p(f'  unfolds [C14] {g} ==> r == ' + text.replace('@', f'as(node, *ast.{ty})'))
ex('TernaryExpr', '"(?: " + sx(@.Condition) + " " + sx(@.Left) + " " + sx(@.Right) + ")"')
ex('BinaryExpr', '"(" + ite(tokstr(@.Op) == ".", "concat", tokstr(@.Op)) + " " + sx(@.Left) + " " + sx(@.Right) + ")"')
ex('UnaryExpr', '"(" + tokstr(@.Op) + " " + sx(@.X) + ")"')
ex('SubscriptExpr', '"(subscript " + sx(@.Left) + " " + sx(@.Right) + ")"')
ex('SliceExpr', '"(slice " + sx(@.X) + " " + ite(tag(@.Low) == 0, "nil", sx(@.Low)) + " " + ite(tag(@.High) == 0, "nil", sx(@.High)) + ")"')
ex('MethodExpr', '"(method " + sx(@.Left) + " (" + jm(@.Method, @.Args) + "))"')
ex('CallExpr', 'ite(len(@.Args) == 0, "(" + sx(@.Fun) + ")", "(" + sx(@.Fun) + " " + jx(@.Args) + ")")')
ex('DotExpr', '"(dot " + sx(@.Left) + " " + sx(iface(@.Right)) + ")"')
ex('BasicLit', '@.Value')
ex('List', 'ite(len(@.Values) == 0, "(list)", "(list " + jx(@.Values) + ")")')
ex('Dict', 'ite(len(@.Entries) == 0, "(dict)", "(dict " + jd(@.Entries) + ")")')
ex('CurlyName', 'jp(@.Parts)')
ex('CurlyNameLit', '@.Value')
ex('CurlyNameExpr', '"{" + sx(@.Value) + "}"')
ex('Ident', '@.Name')
ex('LambdaExpr', '"(lambda (" + ji(@.Params) + ") " + sx(@.Expr) + ")"')
ex('HeredocExpr', '"(heredoc " + ite(len(@.Flags) == 0, "(list)", "(list " + jq(@.Flags) + ")") + " \\"" + @.EndMarker + "\\" " + ite(len(@.Body) == 0, "(list)", "(list " + jqe(@.Body) + ")") + ")"')
ex('ParenExpr', 'sx(@.X)')
p('  unfolds [C14] tag(node) == 0 ==> r == ""')

p('''
// what follows lists
ufun outs(t string, l []ast.Statement, i int, pad string, k int) string
axiom outs_0: forall t string, l []ast.Statement, i int, pad string :: {outs(t, l, i, pad, 0)} outs(t, l, i, pad, 0) == t
axiom outs_s: forall t string, l []ast.Statement, i int, pad string, k int :: {outs(t, l, i, pad, k), l[k]} 0 <= k ==> outs(t, l, i, pad, k + 1) == out(outs(t, l, i, pad, k), l[k], i, pad)
axiom outs_n: forall t string, l []ast.Statement, i int, pad string :: {out(t, iface(l), i, pad)} out(t, iface(l), i, pad) == outs(t, l, i, pad, len(l))
spec goods(l []ast.Statement, k int) bool = forall j int :: {l[j]} 0 <= j && j < k ==> good(l[j])
axiom goods_n: forall l []ast.Statement :: {good(iface(l))} good(iface(l)) <==> goods(l, len(l))
ufun outei(t string, l []*ast.ElseIf, i int, pad string, k int) string
axiom outei_0: forall t string, l []*ast.ElseIf, i int, pad string :: {outei(t, l, i, pad, 0)} outei(t, l, i, pad, 0) == t
axiom outei_s: forall t string, l []*ast.ElseIf, i int, pad string, k int :: {outei(t, l, i, pad, k), l[k]} 0 <= k ==> outei(t, l, i, pad, k + 1) == out(outei(t, l, i, pad, k) + rep(pad, i) + " " + l[k].ExArg.Cmd.Name + " " + sx(l[k].Condition) + "\\n", iface(l[k].Body), i + 1, pad)
ufun outc(t string, l []*ast.Catch, i int, pad string, k int) string
axiom outc_0: forall t string, l []*ast.Catch, i int, pad string :: {outc(t, l, i, pad, 0)} outc(t, l, i, pad, 0) == t
axiom outc_s: forall t string, l []*ast.Catch, i int, pad string, k int :: {outc(t, l, i, pad, k), l[k]} 0 <= k ==> outc(t, l, i, pad, k + 1) == out(outc(t, l, i, pad, k) + rep(pad, i) + " " + l[k].ExArg.Cmd.Name + ite(l[k].Pattern == "", "\\n", " /" + l[k].Pattern + "/\\n"), iface(l[k].Body), i + 1, pad)
candidate [C14] i int, l []ast.Statement, c *Compiler : i >= 0 - 1 && i + 1 <= len(l) && c.indent == loopold(c.indent) && goods(l, i + 1) && c.buffer.text == outs(loopold(c.buffer.text), l, c.indent, c.Config.Indent, i + 1)
candidate [C14] i int, l []*ast.ElseIf, c *Compiler : i >= 0 - 1 && i + 1 <= len(l) && c.indent == loopold(c.indent) && (forall j int :: {l[j]} 0 <= j && j <= i ==> good(iface(l[j].Body))) && c.buffer.text == outei(loopold(c.buffer.text), l, c.indent, c.Config.Indent, i + 1)
candidate [C14] i int, l []*ast.Catch, c *Compiler : i >= 0 - 1 && i + 1 <= len(l) && c.indent == loopold(c.indent) && (forall j int :: {l[j]} 0 <= j && j <= i ==> good(iface(l[j].Body))) && c.buffer.text == outc(loopold(c.buffer.text), l, c.indent - 1, c.Config.Indent, i + 1)

func Compiler.compile(c, node) -> r
  requires [C14] c.indent >= 0
  modifies c.indent, c.buffer.text
  ensures [C14] tag(r) == 0 ==> c.indent == old(c.indent)
  summary good(node) <==> tag(r) == 0
  summary tag(r) == 0 ==> c.buffer.text == out(old(c.buffer.text), node, old(c.indent), c.Config.Indent)''')
def st(ty, text, good='true'):
    n = f'as(node, *ast.{ty})'
    if isinstance(text, str):
        text = text.replace('@', n)
        p(f'  unfolds [C14] tagis(node, *ast.{ty}) && tag(r) == 0 ==> c.buffer.text == {text}')
    p(f'  unfolds [C14] tagis(node, *ast.{ty}) ==> (tag(r) == 0 <==> ' + good.replace('@', n) + ')')
P = 'old(c.buffer.text) + rep(c.Config.Indent, old(c.indent))'
I = 'old(c.indent)'
PD = 'c.Config.Indent'
NM = '@.ExArg.Cmd.Name'
def body(t, b):
    return f'out({t}, iface({b}), {I} + 1, {PD})'
def trim(t):
    return f'trimr({t}, "\\n") + ")\\n"'
st('File', f'outs(old(c.buffer.text), @.Body, {I}, {PD}, len(@.Body))', 'goods(@.Body, len(@.Body))')
st('Comment', P + ' + ";" + @.Text + "\\n"')
st('Excmd', P + ' + "(excmd \\"" + esc(@.Command, "\\\\\\"", len(@.Command)) + "\\")\\n"')
st('Function', trim(body(f'{P} + "(function (" + sx(@.Name) + ite(len(@.Params) == 0, "", " " + jps(@.Params, @.DefaultArgs)) + ")\\n"', '@.Body')), 'good(iface(@.Body))')
one = lambda x: f'{P} + "(" + {NM} + " " + {x} + ")\\n"'
st('DelFunction', one('sx(@.Name)'))
st('Return', f'{P} + "(" + {NM} + ite(tag(@.Result) == 0, "", " " + sx(@.Result)) + ")\\n"')
st('ExCall', one('sx(iface(@.FuncCall))'))
lhs = 'ite(tag(@.Left) != 0, sx(@.Left), "(" + jx(@.List) + ite(tag(@.Rest) == 0, "", " . " + sx(@.Rest)) + ")")'
st('Let', f'{P} + "(" + {NM} + " " + @.Op + " " + {lhs} + " " + sx(@.Right) + ")\\n"')
st('UnLet', one('jx(@.List)'))
for t in ('LockVar', 'UnLockVar'):
    st(t, f'{P} + "(" + {NM} + ite(@.Depth > 0, " " + itoa(@.Depth), "") + " " + jx(@.List) + ")\\n"')
t1 = body(f'{P} + "(" + {NM} + " " + sx(@.Condition) + "\\n"', '@.Body')
t2 = f'outei({t1}, @.ElseIf, {I}, {PD}, len(@.ElseIf))'
t3 = f'let(u, {t2}, ite(@.Else == nil, u, ' + body(f'u + rep({PD}, {I}) + " " + @.Else.ExArg.Cmd.Name + "\\n"', '@.Else.Body') + '))'
st('If', trim(t3), 'good(iface(@.Body)) && (forall j int :: {@.ElseIf[j]} 0 <= j && j < len(@.ElseIf) ==> good(iface(@.ElseIf[j].Body))) && (@.Else == nil || good(iface(@.Else.Body)))')
st('While', trim(t1), 'good(iface(@.Body))')
st('For', trim(body(f'{P} + "(" + {NM} + " " + {lhs} + " " + sx(@.Right) + "\\n"', '@.Body')), 'good(iface(@.Body))')
st('Continue', f'{P} + "(" + {NM} + ")\\n"')
st('Break', f'{P} + "(" + {NM} + ")\\n"')
t1 = body(f'{P} + "(" + {NM} + "\\n"', '@.Body')
t2 = f'outc({t1}, @.Catch, {I}, {PD}, len(@.Catch))'
t3 = f'let(u, {t2}, ite(@.Finally == nil, u, ' + body(f'u + rep({PD}, {I}) + " " + @.Finally.ExArg.Cmd.Name + "\\n"', '@.Finally.Body') + '))'
st('Try', trim(t3), 'good(iface(@.Body)) && (forall j int :: {@.Catch[j]} 0 <= j && j < len(@.Catch) ==> good(iface(@.Catch[j].Body))) && (@.Finally == nil || good(iface(@.Finally.Body)))')
st('Throw', one('sx(@.Expr)'))
st('Eval', one('sx(@.Expr)'))
st('EchoCmd', one('jx(@.Exprs)'))
st('Echohl', f'{P} + "(" + {NM} + " \\"" + esc(@.Name, "\\\\\\"", len(@.Name)) + "\\")\\n"')
st('Execute', one('jx(@.Exprs)'))
for t in 'EndFor EndIf Finally EndFunction EndTry EndWhile Catch Else ElseIf'.split():
    st(t, None, 'false')
p('  unfolds [C14] tagis(node, []ast.Statement) && tag(r) == 0 ==> c.buffer.text == outs(old(c.buffer.text), as(node, []ast.Statement), old(c.indent), c.Config.Indent, len(as(node, []ast.Statement)))')
p('  unfolds [C14] tagis(node, []ast.Statement) ==> (tag(r) == 0 <==> goods(as(node, []ast.Statement), len(as(node, []ast.Statement))))')
p('  unfolds [C14] implements(node, ast.Expr) && !implements(node, ast.ExCommand) && !tagis(node, *ast.File) && !tagis(node, *ast.Comment) && !tagis(node, []ast.Statement) ==> tag(r) == 0 && c.buffer.text == old(c.buffer.text) + rep(c.Config.Indent, old(c.indent)) + sx(node)')
p('''
func Compiler.Compile(c, w, n) -> err
  modifies c.buffer, c.indent, $nw, $lastw, $lasttext, $werr
  ensures [C14] tag(err) == 0 ==> good(n) && tag($werr) == 0 && $nw == old($nw) + 1 && $lastw == w && $lasttext == out("", n, 0, c.Config.Indent)
  ensures [C14] !good(n) ==> $nw == old($nw)

func Compile(w, n) -> err
  modifies $nw, $lastw, $lasttext, $werr
  ensures [C14] tag(err) == 0 ==> good(n) && tag($werr) == 0 && $nw == old($nw) + 1 && $lastw == w && $lasttext == out("", n, 0, "  ")
  ensures [C14] !good(n) ==> $nw == old($nw)
''')
open('/verif/contracts/compiler.vc', 'w').write('\n'.join(out) + '\n')
