// C14: the S-expression of a tree.  Generated by tools/gen_compiler.py.
//   sx(e)              the text of an expression
//   out(t, n, i, pad)  the text t followed by what compiling n at indent i prints
//   good(n)            nothing in n is out of place
package compiler

closed ast.ExCommand

ufun sx(e ast.Expr) string
ufun out(t string, n any, i int, pad string) string
ufun good(n any) bool
ufun rep(s string, n int) string
axiom rep_0: forall s string :: {rep(s, 0)} rep(s, 0) == ""
ufun join(l []string, s string) string
ufun bstr(b []byte) string
axiom bstr_0: forall b []byte :: {bstr(b)} len(b) == 0 ==> bstr(b) == ""
ufun trimr(s string, c string) string
ufun idxb(s string, c int) int

ghost bytes.Buffer.text string
gvar $nw int
gvar $lastw any
gvar $lasttext string
gvar $werr any

extern strings.Join(l, s) -> r
  modifies nothing
  ensures r == join(l, s)
extern strings.Repeat(s, n) -> r
  requires [C14] n >= 0
  modifies nothing
  ensures r == rep(s, n)
extern strings.IndexByte(s, c) -> r
  modifies nothing
  ensures r == idxb(s, c)
extern bytes.NewBuffer(b) -> r
  modifies nothing
  ensures r != nil && fresh(r) && r.text == bstr(b)
extern bytes.TrimRight(b, c) -> r
  modifies nothing
  ensures bstr(r) == trimr(bstr(b), c)
extern strings.TrimRight(b, c) -> r
  modifies nothing
  ensures r == trimr(b, c)
extern (*bytes.Buffer).Bytes(b) -> r
  modifies nothing
  ensures bstr(r) == b.text
extern (*bytes.Buffer).String(b) -> r
  modifies nothing
  ensures r == b.text
extern (*bytes.Buffer).Reset(b)
  modifies b.text
  ensures b.text == ""
extern (*bytes.Buffer).Write(b, x) -> n, err
  modifies b.text
  ensures b.text == old(b.text) + bstr(x) && tag(err) == 0
extern (*bytes.Buffer).WriteString(b, x) -> n, err
  modifies b.text
  ensures b.text == old(b.text) + x && tag(err) == 0
extern (*bytes.Buffer).WriteTo(b, w) -> n, err
  modifies b.text, $nw, $lastw, $lasttext, $werr
  ensures $nw == old($nw) + 1 && $lastw == w && $lasttext == old(b.text) && $werr == err
extern io.Copy(w, r) -> n, err
  modifies as(r, *bytes.Buffer).text, $nw, $lastw, $lasttext, $werr
  ensures $nw == old($nw) + 1 && $lastw == w && $werr == err && (tagis(r, *bytes.Buffer) ==> $lasttext == old(as(r, *bytes.Buffer).text))
invoke io.Writer.Write(w, b) -> n, err
  modifies $nw, $lastw, $lasttext, $werr
  ensures $nw == old($nw) + 1 && $lastw == w && $lasttext == bstr(b) && $werr == err
extern $write(w, s) -> n, err
  modifies as(w, *bytes.Buffer).text, $nw, $lastw, $lasttext, $werr
  ensures tagis(w, *bytes.Buffer) ==> as(w, *bytes.Buffer).text == old(as(w, *bytes.Buffer).text) + s && tag(err) == 0 && $nw == old($nw) && $lastw == old($lastw) && $lasttext == old($lasttext) && $werr == old($werr)
  ensures !tagis(w, *bytes.Buffer) ==> $nw == old($nw) + 1 && $lastw == w && $lasttext == s && $werr == err

ufun jx(es []ast.Expr) string
axiom jx_def: forall l []string, s string, es []ast.Expr :: {join(l, s), jx(es)} s == " " && len(l) == len(es) && (forall j int :: {l[j]} 0 <= j && j < len(es) ==> l[j] == sx(es[j])) ==> join(l, s) == jx(es)
candidate [C14] i int, l []string, es []ast.Expr : len(l) == i + 1 && i + 1 <= len(es) && (forall j int :: {l[j]} 0 <= j && j <= i ==> l[j] == sx(es[j]))
candidate [C14] i int, l []string, es []ast.Expr : len(l) == len(es) && i + 1 <= len(es) && (forall j int :: {l[j]} 0 <= j && j <= i ==> l[j] == sx(es[j]))
candidate [C14] i int, l []string, es []ast.Expr : len(l) == len(es) && i <= len(es) && (forall j int :: {l[j]} 0 <= j && j < i ==> l[j] == sx(es[j]))
candidate [C14] i int, l []string, es []ast.Expr : len(l) == i && i <= len(es) && (forall j int :: {l[j]} 0 <= j && j < i ==> l[j] == sx(es[j]))
ufun jm(m ast.Expr, es []ast.Expr) string
axiom jm_def: forall l []string, s string, m ast.Expr, es []ast.Expr :: {join(l, s), jm(m, es)} s == " " && len(l) == len(es) + 1 && l[0] == sx(m) && (forall j int :: {l[j]} 1 <= j && j < len(l) ==> l[j] == sx(es[j - 1])) ==> join(l, s) == jm(m, es)
candidate [C14] i int, l []string, es []ast.Expr : len(l) == i + 2 && i + 1 <= len(es) && l[0] == l0[0] && (forall j int :: {l[j]} 1 <= j && j <= i + 1 ==> l[j] == sx(es[j - 1]))
ufun jd(es []ast.KeyValue) string
axiom jd_def: forall l []string, s string, es []ast.KeyValue :: {join(l, s), jd(es)} s == " " && len(l) == len(es) && (forall j int :: {l[j]} 0 <= j && j < len(es) ==> l[j] == "(" + sx(es[j].Key) + " " + sx(es[j].Value) + ")") ==> join(l, s) == jd(es)
candidate [C14] i int, l []string, es []ast.KeyValue : len(l) == i + 1 && i + 1 <= len(es) && (forall j int :: {l[j]} 0 <= j && j <= i ==> l[j] == "(" + sx(es[j].Key) + " " + sx(es[j].Value) + ")")
candidate [C14] i int, l []string, es []ast.KeyValue : len(l) == len(es) && i + 1 <= len(es) && (forall j int :: {l[j]} 0 <= j && j <= i ==> l[j] == "(" + sx(es[j].Key) + " " + sx(es[j].Value) + ")")
candidate [C14] i int, l []string, es []ast.KeyValue : len(l) == len(es) && i <= len(es) && (forall j int :: {l[j]} 0 <= j && j < i ==> l[j] == "(" + sx(es[j].Key) + " " + sx(es[j].Value) + ")")
candidate [C14] i int, l []string, es []ast.KeyValue : len(l) == i && i <= len(es) && (forall j int :: {l[j]} 0 <= j && j < i ==> l[j] == "(" + sx(es[j].Key) + " " + sx(es[j].Value) + ")")
ufun ji(es []*ast.Ident) string
axiom ji_def: forall l []string, s string, es []*ast.Ident :: {join(l, s), ji(es)} s == " " && len(l) == len(es) && (forall j int :: {l[j]} 0 <= j && j < len(es) ==> l[j] == es[j].Name) ==> join(l, s) == ji(es)
candidate [C14] i int, l []string, es []*ast.Ident : len(l) == i + 1 && i + 1 <= len(es) && (forall j int :: {l[j]} 0 <= j && j <= i ==> l[j] == es[j].Name)
candidate [C14] i int, l []string, es []*ast.Ident : len(l) == len(es) && i + 1 <= len(es) && (forall j int :: {l[j]} 0 <= j && j <= i ==> l[j] == es[j].Name)
candidate [C14] i int, l []string, es []*ast.Ident : len(l) == len(es) && i <= len(es) && (forall j int :: {l[j]} 0 <= j && j < i ==> l[j] == es[j].Name)
candidate [C14] i int, l []string, es []*ast.Ident : len(l) == i && i <= len(es) && (forall j int :: {l[j]} 0 <= j && j < i ==> l[j] == es[j].Name)
spec quoted(s string) string = "\"" + s + "\""
ufun jq(es []ast.Expr) string
axiom jq_def: forall l []string, s string, es []ast.Expr :: {join(l, s), jq(es)} s == " " && len(l) == len(es) && (forall j int :: {l[j]} 0 <= j && j < len(es) ==> l[j] == quoted(sx(es[j]))) ==> join(l, s) == jq(es)
candidate [C14] i int, l []string, es []ast.Expr : len(l) == i + 1 && i + 1 <= len(es) && (forall j int :: {l[j]} 0 <= j && j <= i ==> l[j] == quoted(sx(es[j])))
candidate [C14] i int, l []string, es []ast.Expr : len(l) == len(es) && i + 1 <= len(es) && (forall j int :: {l[j]} 0 <= j && j <= i ==> l[j] == quoted(sx(es[j])))
candidate [C14] i int, l []string, es []ast.Expr : len(l) == len(es) && i <= len(es) && (forall j int :: {l[j]} 0 <= j && j < i ==> l[j] == quoted(sx(es[j])))
candidate [C14] i int, l []string, es []ast.Expr : len(l) == i && i <= len(es) && (forall j int :: {l[j]} 0 <= j && j < i ==> l[j] == quoted(sx(es[j])))
ufun jqe(es []ast.Expr) string
axiom jqe_def: forall l []string, s string, es []ast.Expr :: {join(l, s), jqe(es)} s == " " && len(l) == len(es) && (forall j int :: {l[j]} 0 <= j && j < len(es) ==> l[j] == quoted(esc(sx(es[j]), "\n\t\r", len(sx(es[j]))))) ==> join(l, s) == jqe(es)
candidate [C14] i int, l []string, es []ast.Expr : len(l) == i + 1 && i + 1 <= len(es) && (forall j int :: {l[j]} 0 <= j && j <= i ==> l[j] == quoted(esc(sx(es[j]), "\n\t\r", len(sx(es[j])))))
candidate [C14] i int, l []string, es []ast.Expr : len(l) == len(es) && i + 1 <= len(es) && (forall j int :: {l[j]} 0 <= j && j <= i ==> l[j] == quoted(esc(sx(es[j]), "\n\t\r", len(sx(es[j])))))
candidate [C14] i int, l []string, es []ast.Expr : len(l) == len(es) && i <= len(es) && (forall j int :: {l[j]} 0 <= j && j < i ==> l[j] == quoted(esc(sx(es[j]), "\n\t\r", len(sx(es[j])))))
candidate [C14] i int, l []string, es []ast.Expr : len(l) == i && i <= len(es) && (forall j int :: {l[j]} 0 <= j && j < i ==> l[j] == quoted(esc(sx(es[j]), "\n\t\r", len(sx(es[j])))))
ufun jp(ps []ast.CurlyNamePart) string
axiom jp_def: forall l []string, s string, es []ast.CurlyNamePart :: {join(l, s), jp(es)} s == "" && len(l) == len(es) && (forall j int :: {l[j]} 0 <= j && j < len(es) ==> l[j] == sx(es[j])) ==> join(l, s) == jp(es)
candidate [C14] i int, l []string, es []ast.CurlyNamePart : len(l) == i + 1 && i + 1 <= len(es) && (forall j int :: {l[j]} 0 <= j && j <= i ==> l[j] == sx(es[j]))

// parameters: the last ones have defaults; "..." is written ". ..."
spec dots(ps []*ast.Ident) bool = len(ps) > 0 && ps[len(ps) - 1].Name == "..."
spec np(ps []*ast.Ident) int = ite(dots(ps), len(ps) - 1, len(ps))
spec par(ps []*ast.Ident, ds []ast.Expr, j int) string = ite(j < np(ps) - len(ds), ps[j].Name, "(" + ps[j].Name + " " + sx(ds[j + len(ds) - np(ps)]) + ")")
ufun jps(ps []*ast.Ident, ds []ast.Expr) string
axiom jps_def: forall l []string, s string, ps []*ast.Ident, ds []ast.Expr :: {join(l, s), jps(ps, ds)} s == " " && len(l) == len(ps) && (forall j int :: {l[j]} 0 <= j && j < np(ps) ==> l[j] == par(ps, ds, j)) && (dots(ps) ==> l[len(ps) - 1] == ". ...") ==> join(l, s) == jps(ps, ds)
candidate [C14] i int, l []string, n *ast.Function : len(l) == i + 1 && i + 1 <= np(n.Params) && (forall j int :: {l[j]} 0 <= j && j <= i ==> l[j] == par(n.Params, n.DefaultArgs, j))

// characters escaped with a backslash
spec ec(c int, s string) string = ite(c == 10, "\\n", ite(c == 9, "\\t", ite(c == 13, "\\r", "\\" + s)))
ufun esc(s string, cs string, k int) string
axiom esc_0: forall s string, cs string :: {esc(s, cs, 0)} esc(s, cs, 0) == ""
axiom esc_s: forall s string, cs string, k int :: {esc(s, cs, k), s[k]} 0 <= k ==> esc(s, cs, k + 1) == esc(s, cs, k) + ite(idxb(cs, s[k]) == 0 - 1, s[k..k + 1], ec(s[k], s[k..k + 1]))
func escape(s, chars) -> r
  ensures [C14] r == esc(s, chars, len(s))
  nopanic
candidate [C14] i int, r string, s string, cs string : r == esc(s, cs, i)

func Compiler.compileExpr(c, node) -> r
  modifies nothing
  summary r == sx(node)
  unfolds [C14] tagis(node, *ast.TernaryExpr) ==> r == "(?: " + sx(as(node, *ast.TernaryExpr).Condition) + " " + sx(as(node, *ast.TernaryExpr).Left) + " " + sx(as(node, *ast.TernaryExpr).Right) + ")"
  unfolds [C14] tagis(node, *ast.BinaryExpr) ==> r == "(" + ite(tokstr(as(node, *ast.BinaryExpr).Op) == ".", "concat", tokstr(as(node, *ast.BinaryExpr).Op)) + " " + sx(as(node, *ast.BinaryExpr).Left) + " " + sx(as(node, *ast.BinaryExpr).Right) + ")"
  unfolds [C14] tagis(node, *ast.UnaryExpr) ==> r == "(" + tokstr(as(node, *ast.UnaryExpr).Op) + " " + sx(as(node, *ast.UnaryExpr).X) + ")"
  unfolds [C14] tagis(node, *ast.SubscriptExpr) ==> r == "(subscript " + sx(as(node, *ast.SubscriptExpr).Left) + " " + sx(as(node, *ast.SubscriptExpr).Right) + ")"
  unfolds [C14] tagis(node, *ast.SliceExpr) ==> r == "(slice " + sx(as(node, *ast.SliceExpr).X) + " " + ite(tag(as(node, *ast.SliceExpr).Low) == 0, "nil", sx(as(node, *ast.SliceExpr).Low)) + " " + ite(tag(as(node, *ast.SliceExpr).High) == 0, "nil", sx(as(node, *ast.SliceExpr).High)) + ")"
  unfolds [C14] tagis(node, *ast.MethodExpr) ==> r == "(method " + sx(as(node, *ast.MethodExpr).Left) + " (" + jm(as(node, *ast.MethodExpr).Method, as(node, *ast.MethodExpr).Args) + "))"
  unfolds [C14] tagis(node, *ast.CallExpr) ==> r == ite(len(as(node, *ast.CallExpr).Args) == 0, "(" + sx(as(node, *ast.CallExpr).Fun) + ")", "(" + sx(as(node, *ast.CallExpr).Fun) + " " + jx(as(node, *ast.CallExpr).Args) + ")")
  unfolds [C14] tagis(node, *ast.DotExpr) ==> r == "(dot " + sx(as(node, *ast.DotExpr).Left) + " " + sx(iface(as(node, *ast.DotExpr).Right)) + ")"
  unfolds [C14] tagis(node, *ast.BasicLit) ==> r == as(node, *ast.BasicLit).Value
  unfolds [C14] tagis(node, *ast.List) ==> r == ite(len(as(node, *ast.List).Values) == 0, "(list)", "(list " + jx(as(node, *ast.List).Values) + ")")
  unfolds [C14] tagis(node, *ast.Dict) ==> r == ite(len(as(node, *ast.Dict).Entries) == 0, "(dict)", "(dict " + jd(as(node, *ast.Dict).Entries) + ")")
  unfolds [C14] tagis(node, *ast.CurlyName) ==> r == jp(as(node, *ast.CurlyName).Parts)
  unfolds [C14] tagis(node, *ast.CurlyNameLit) ==> r == as(node, *ast.CurlyNameLit).Value
  unfolds [C14] tagis(node, *ast.CurlyNameExpr) ==> r == "{" + sx(as(node, *ast.CurlyNameExpr).Value) + "}"
  unfolds [C14] tagis(node, *ast.Ident) ==> r == as(node, *ast.Ident).Name
  unfolds [C14] tagis(node, *ast.LambdaExpr) ==> r == "(lambda (" + ji(as(node, *ast.LambdaExpr).Params) + ") " + sx(as(node, *ast.LambdaExpr).Expr) + ")"
  unfolds [C14] tagis(node, *ast.HeredocExpr) ==> r == "(heredoc " + ite(len(as(node, *ast.HeredocExpr).Flags) == 0, "(list)", "(list " + jq(as(node, *ast.HeredocExpr).Flags) + ")") + " \"" + as(node, *ast.HeredocExpr).EndMarker + "\" " + ite(len(as(node, *ast.HeredocExpr).Body) == 0, "(list)", "(list " + jqe(as(node, *ast.HeredocExpr).Body) + ")") + ")"
  unfolds [C14] tagis(node, *ast.ParenExpr) ==> r == sx(as(node, *ast.ParenExpr).X)
  unfolds [C14] tag(node) == 0 ==> r == ""

// what follows lists
ufun outs(t string, l []ast.Statement, i int, pad string, k int) string
axiom outs_0: forall t string, l []ast.Statement, i int, pad string :: {outs(t, l, i, pad, 0)} outs(t, l, i, pad, 0) == t
axiom outs_s: forall t string, l []ast.Statement, i int, pad string, k int :: {outs(t, l, i, pad, k), l[k]} 0 <= k ==> outs(t, l, i, pad, k + 1) == out(outs(t, l, i, pad, k), l[k], i, pad)
axiom outs_n: forall t string, l []ast.Statement, i int, pad string :: {out(t, iface(l), i, pad)} out(t, iface(l), i, pad) == outs(t, l, i, pad, len(l))
spec goods(l []ast.Statement, k int) bool = forall j int :: {l[j]} 0 <= j && j < k ==> good(l[j])
axiom goods_n: forall l []ast.Statement :: {good(iface(l))} good(iface(l)) <==> goods(l, len(l))
ufun outei(t string, l []*ast.ElseIf, i int, pad string, k int) string
axiom outei_0: forall t string, l []*ast.ElseIf, i int, pad string :: {outei(t, l, i, pad, 0)} outei(t, l, i, pad, 0) == t
axiom outei_s: forall t string, l []*ast.ElseIf, i int, pad string, k int :: {outei(t, l, i, pad, k), l[k]} 0 <= k ==> outei(t, l, i, pad, k + 1) == out(outei(t, l, i, pad, k) + rep(pad, i) + " " + l[k].ExArg.Cmd.Name + " " + sx(l[k].Condition) + "\n", iface(l[k].Body), i + 1, pad)
ufun outc(t string, l []*ast.Catch, i int, pad string, k int) string
axiom outc_0: forall t string, l []*ast.Catch, i int, pad string :: {outc(t, l, i, pad, 0)} outc(t, l, i, pad, 0) == t
axiom outc_s: forall t string, l []*ast.Catch, i int, pad string, k int :: {outc(t, l, i, pad, k), l[k]} 0 <= k ==> outc(t, l, i, pad, k + 1) == out(outc(t, l, i, pad, k) + rep(pad, i) + " " + l[k].ExArg.Cmd.Name + ite(l[k].Pattern == "", "\n", " /" + l[k].Pattern + "/\n"), iface(l[k].Body), i + 1, pad)
candidate [C14] i int, l []ast.Statement, c *Compiler : i >= 0 - 1 && i + 1 <= len(l) && c.indent == loopold(c.indent) && goods(l, i + 1) && c.buffer.text == outs(loopold(c.buffer.text), l, c.indent, c.Config.Indent, i + 1)
candidate [C14] i int, l []*ast.ElseIf, c *Compiler : i >= 0 - 1 && i + 1 <= len(l) && c.indent == loopold(c.indent) && (forall j int :: {l[j]} 0 <= j && j <= i ==> good(iface(l[j].Body))) && c.buffer.text == outei(loopold(c.buffer.text), l, c.indent, c.Config.Indent, i + 1)
candidate [C14] i int, l []*ast.Catch, c *Compiler : i >= 0 - 1 && i + 1 <= len(l) && c.indent == loopold(c.indent) && (forall j int :: {l[j]} 0 <= j && j <= i ==> good(iface(l[j].Body))) && c.buffer.text == outc(loopold(c.buffer.text), l, c.indent - 1, c.Config.Indent, i + 1)

func Compiler.compile(c, node) -> r
  requires [C14] c.indent >= 0
  modifies c.indent, c.buffer.text
  ensures [C14] tag(r) == 0 ==> c.indent == old(c.indent)
  summary good(node) <==> tag(r) == 0
  summary tag(r) == 0 ==> c.buffer.text == out(old(c.buffer.text), node, old(c.indent), c.Config.Indent)
  unfolds [C14] tagis(node, *ast.File) && tag(r) == 0 ==> c.buffer.text == outs(old(c.buffer.text), as(node, *ast.File).Body, old(c.indent), c.Config.Indent, len(as(node, *ast.File).Body))
  unfolds [C14] tagis(node, *ast.File) ==> (tag(r) == 0 <==> goods(as(node, *ast.File).Body, len(as(node, *ast.File).Body)))
  unfolds [C14] tagis(node, *ast.Comment) && tag(r) == 0 ==> c.buffer.text == old(c.buffer.text) + rep(c.Config.Indent, old(c.indent)) + ";" + as(node, *ast.Comment).Text + "\n"
  unfolds [C14] tagis(node, *ast.Comment) ==> (tag(r) == 0 <==> true)
  unfolds [C14] tagis(node, *ast.Excmd) && tag(r) == 0 ==> c.buffer.text == old(c.buffer.text) + rep(c.Config.Indent, old(c.indent)) + "(excmd \"" + esc(as(node, *ast.Excmd).Command, "\\\"", len(as(node, *ast.Excmd).Command)) + "\")\n"
  unfolds [C14] tagis(node, *ast.Excmd) ==> (tag(r) == 0 <==> true)
  unfolds [C14] tagis(node, *ast.Function) && tag(r) == 0 ==> c.buffer.text == trimr(out(old(c.buffer.text) + rep(c.Config.Indent, old(c.indent)) + "(function (" + sx(as(node, *ast.Function).Name) + ite(len(as(node, *ast.Function).Params) == 0, "", " " + jps(as(node, *ast.Function).Params, as(node, *ast.Function).DefaultArgs)) + ")\n", iface(as(node, *ast.Function).Body), old(c.indent) + 1, c.Config.Indent), "\n") + ")\n"
  unfolds [C14] tagis(node, *ast.Function) ==> (tag(r) == 0 <==> good(iface(as(node, *ast.Function).Body)))
  unfolds [C14] tagis(node, *ast.DelFunction) && tag(r) == 0 ==> c.buffer.text == old(c.buffer.text) + rep(c.Config.Indent, old(c.indent)) + "(" + as(node, *ast.DelFunction).ExArg.Cmd.Name + " " + sx(as(node, *ast.DelFunction).Name) + ")\n"
  unfolds [C14] tagis(node, *ast.DelFunction) ==> (tag(r) == 0 <==> true)
  unfolds [C14] tagis(node, *ast.Return) && tag(r) == 0 ==> c.buffer.text == old(c.buffer.text) + rep(c.Config.Indent, old(c.indent)) + "(" + as(node, *ast.Return).ExArg.Cmd.Name + ite(tag(as(node, *ast.Return).Result) == 0, "", " " + sx(as(node, *ast.Return).Result)) + ")\n"
  unfolds [C14] tagis(node, *ast.Return) ==> (tag(r) == 0 <==> true)
  unfolds [C14] tagis(node, *ast.ExCall) && tag(r) == 0 ==> c.buffer.text == old(c.buffer.text) + rep(c.Config.Indent, old(c.indent)) + "(" + as(node, *ast.ExCall).ExArg.Cmd.Name + " " + sx(iface(as(node, *ast.ExCall).FuncCall)) + ")\n"
  unfolds [C14] tagis(node, *ast.ExCall) ==> (tag(r) == 0 <==> true)
  unfolds [C14] tagis(node, *ast.Let) && tag(r) == 0 ==> c.buffer.text == old(c.buffer.text) + rep(c.Config.Indent, old(c.indent)) + "(" + as(node, *ast.Let).ExArg.Cmd.Name + " " + as(node, *ast.Let).Op + " " + ite(tag(as(node, *ast.Let).Left) != 0, sx(as(node, *ast.Let).Left), "(" + jx(as(node, *ast.Let).List) + ite(tag(as(node, *ast.Let).Rest) == 0, "", " . " + sx(as(node, *ast.Let).Rest)) + ")") + " " + sx(as(node, *ast.Let).Right) + ")\n"
  unfolds [C14] tagis(node, *ast.Let) ==> (tag(r) == 0 <==> true)
  unfolds [C14] tagis(node, *ast.UnLet) && tag(r) == 0 ==> c.buffer.text == old(c.buffer.text) + rep(c.Config.Indent, old(c.indent)) + "(" + as(node, *ast.UnLet).ExArg.Cmd.Name + " " + jx(as(node, *ast.UnLet).List) + ")\n"
  unfolds [C14] tagis(node, *ast.UnLet) ==> (tag(r) == 0 <==> true)
  unfolds [C14] tagis(node, *ast.LockVar) && tag(r) == 0 ==> c.buffer.text == old(c.buffer.text) + rep(c.Config.Indent, old(c.indent)) + "(" + as(node, *ast.LockVar).ExArg.Cmd.Name + ite(as(node, *ast.LockVar).Depth > 0, " " + itoa(as(node, *ast.LockVar).Depth), "") + " " + jx(as(node, *ast.LockVar).List) + ")\n"
  unfolds [C14] tagis(node, *ast.LockVar) ==> (tag(r) == 0 <==> true)
  unfolds [C14] tagis(node, *ast.UnLockVar) && tag(r) == 0 ==> c.buffer.text == old(c.buffer.text) + rep(c.Config.Indent, old(c.indent)) + "(" + as(node, *ast.UnLockVar).ExArg.Cmd.Name + ite(as(node, *ast.UnLockVar).Depth > 0, " " + itoa(as(node, *ast.UnLockVar).Depth), "") + " " + jx(as(node, *ast.UnLockVar).List) + ")\n"
  unfolds [C14] tagis(node, *ast.UnLockVar) ==> (tag(r) == 0 <==> true)
  unfolds [C14] tagis(node, *ast.If) && tag(r) == 0 ==> c.buffer.text == trimr(let(u, outei(out(old(c.buffer.text) + rep(c.Config.Indent, old(c.indent)) + "(" + as(node, *ast.If).ExArg.Cmd.Name + " " + sx(as(node, *ast.If).Condition) + "\n", iface(as(node, *ast.If).Body), old(c.indent) + 1, c.Config.Indent), as(node, *ast.If).ElseIf, old(c.indent), c.Config.Indent, len(as(node, *ast.If).ElseIf)), ite(as(node, *ast.If).Else == nil, u, out(u + rep(c.Config.Indent, old(c.indent)) + " " + as(node, *ast.If).Else.ExArg.Cmd.Name + "\n", iface(as(node, *ast.If).Else.Body), old(c.indent) + 1, c.Config.Indent))), "\n") + ")\n"
  unfolds [C14] tagis(node, *ast.If) ==> (tag(r) == 0 <==> good(iface(as(node, *ast.If).Body)) && (forall j int :: {as(node, *ast.If).ElseIf[j]} 0 <= j && j < len(as(node, *ast.If).ElseIf) ==> good(iface(as(node, *ast.If).ElseIf[j].Body))) && (as(node, *ast.If).Else == nil || good(iface(as(node, *ast.If).Else.Body))))
  unfolds [C14] tagis(node, *ast.While) && tag(r) == 0 ==> c.buffer.text == trimr(out(old(c.buffer.text) + rep(c.Config.Indent, old(c.indent)) + "(" + as(node, *ast.While).ExArg.Cmd.Name + " " + sx(as(node, *ast.While).Condition) + "\n", iface(as(node, *ast.While).Body), old(c.indent) + 1, c.Config.Indent), "\n") + ")\n"
  unfolds [C14] tagis(node, *ast.While) ==> (tag(r) == 0 <==> good(iface(as(node, *ast.While).Body)))
  unfolds [C14] tagis(node, *ast.For) && tag(r) == 0 ==> c.buffer.text == trimr(out(old(c.buffer.text) + rep(c.Config.Indent, old(c.indent)) + "(" + as(node, *ast.For).ExArg.Cmd.Name + " " + ite(tag(as(node, *ast.For).Left) != 0, sx(as(node, *ast.For).Left), "(" + jx(as(node, *ast.For).List) + ite(tag(as(node, *ast.For).Rest) == 0, "", " . " + sx(as(node, *ast.For).Rest)) + ")") + " " + sx(as(node, *ast.For).Right) + "\n", iface(as(node, *ast.For).Body), old(c.indent) + 1, c.Config.Indent), "\n") + ")\n"
  unfolds [C14] tagis(node, *ast.For) ==> (tag(r) == 0 <==> good(iface(as(node, *ast.For).Body)))
  unfolds [C14] tagis(node, *ast.Continue) && tag(r) == 0 ==> c.buffer.text == old(c.buffer.text) + rep(c.Config.Indent, old(c.indent)) + "(" + as(node, *ast.Continue).ExArg.Cmd.Name + ")\n"
  unfolds [C14] tagis(node, *ast.Continue) ==> (tag(r) == 0 <==> true)
  unfolds [C14] tagis(node, *ast.Break) && tag(r) == 0 ==> c.buffer.text == old(c.buffer.text) + rep(c.Config.Indent, old(c.indent)) + "(" + as(node, *ast.Break).ExArg.Cmd.Name + ")\n"
  unfolds [C14] tagis(node, *ast.Break) ==> (tag(r) == 0 <==> true)
  unfolds [C14] tagis(node, *ast.Try) && tag(r) == 0 ==> c.buffer.text == trimr(let(u, outc(out(old(c.buffer.text) + rep(c.Config.Indent, old(c.indent)) + "(" + as(node, *ast.Try).ExArg.Cmd.Name + "\n", iface(as(node, *ast.Try).Body), old(c.indent) + 1, c.Config.Indent), as(node, *ast.Try).Catch, old(c.indent), c.Config.Indent, len(as(node, *ast.Try).Catch)), ite(as(node, *ast.Try).Finally == nil, u, out(u + rep(c.Config.Indent, old(c.indent)) + " " + as(node, *ast.Try).Finally.ExArg.Cmd.Name + "\n", iface(as(node, *ast.Try).Finally.Body), old(c.indent) + 1, c.Config.Indent))), "\n") + ")\n"
  unfolds [C14] tagis(node, *ast.Try) ==> (tag(r) == 0 <==> good(iface(as(node, *ast.Try).Body)) && (forall j int :: {as(node, *ast.Try).Catch[j]} 0 <= j && j < len(as(node, *ast.Try).Catch) ==> good(iface(as(node, *ast.Try).Catch[j].Body))) && (as(node, *ast.Try).Finally == nil || good(iface(as(node, *ast.Try).Finally.Body))))
  unfolds [C14] tagis(node, *ast.Throw) && tag(r) == 0 ==> c.buffer.text == old(c.buffer.text) + rep(c.Config.Indent, old(c.indent)) + "(" + as(node, *ast.Throw).ExArg.Cmd.Name + " " + sx(as(node, *ast.Throw).Expr) + ")\n"
  unfolds [C14] tagis(node, *ast.Throw) ==> (tag(r) == 0 <==> true)
  unfolds [C14] tagis(node, *ast.Eval) && tag(r) == 0 ==> c.buffer.text == old(c.buffer.text) + rep(c.Config.Indent, old(c.indent)) + "(" + as(node, *ast.Eval).ExArg.Cmd.Name + " " + sx(as(node, *ast.Eval).Expr) + ")\n"
  unfolds [C14] tagis(node, *ast.Eval) ==> (tag(r) == 0 <==> true)
  unfolds [C14] tagis(node, *ast.EchoCmd) && tag(r) == 0 ==> c.buffer.text == old(c.buffer.text) + rep(c.Config.Indent, old(c.indent)) + "(" + as(node, *ast.EchoCmd).ExArg.Cmd.Name + " " + jx(as(node, *ast.EchoCmd).Exprs) + ")\n"
  unfolds [C14] tagis(node, *ast.EchoCmd) ==> (tag(r) == 0 <==> true)
  unfolds [C14] tagis(node, *ast.Echohl) && tag(r) == 0 ==> c.buffer.text == old(c.buffer.text) + rep(c.Config.Indent, old(c.indent)) + "(" + as(node, *ast.Echohl).ExArg.Cmd.Name + " \"" + esc(as(node, *ast.Echohl).Name, "\\\"", len(as(node, *ast.Echohl).Name)) + "\")\n"
  unfolds [C14] tagis(node, *ast.Echohl) ==> (tag(r) == 0 <==> true)
  unfolds [C14] tagis(node, *ast.Execute) && tag(r) == 0 ==> c.buffer.text == old(c.buffer.text) + rep(c.Config.Indent, old(c.indent)) + "(" + as(node, *ast.Execute).ExArg.Cmd.Name + " " + jx(as(node, *ast.Execute).Exprs) + ")\n"
  unfolds [C14] tagis(node, *ast.Execute) ==> (tag(r) == 0 <==> true)
  unfolds [C14] tagis(node, *ast.EndFor) ==> (tag(r) == 0 <==> false)
  unfolds [C14] tagis(node, *ast.EndIf) ==> (tag(r) == 0 <==> false)
  unfolds [C14] tagis(node, *ast.Finally) ==> (tag(r) == 0 <==> false)
  unfolds [C14] tagis(node, *ast.EndFunction) ==> (tag(r) == 0 <==> false)
  unfolds [C14] tagis(node, *ast.EndTry) ==> (tag(r) == 0 <==> false)
  unfolds [C14] tagis(node, *ast.EndWhile) ==> (tag(r) == 0 <==> false)
  unfolds [C14] tagis(node, *ast.Catch) ==> (tag(r) == 0 <==> false)
  unfolds [C14] tagis(node, *ast.Else) ==> (tag(r) == 0 <==> false)
  unfolds [C14] tagis(node, *ast.ElseIf) ==> (tag(r) == 0 <==> false)
  unfolds [C14] tagis(node, []ast.Statement) && tag(r) == 0 ==> c.buffer.text == outs(old(c.buffer.text), as(node, []ast.Statement), old(c.indent), c.Config.Indent, len(as(node, []ast.Statement)))
  unfolds [C14] tagis(node, []ast.Statement) ==> (tag(r) == 0 <==> goods(as(node, []ast.Statement), len(as(node, []ast.Statement))))
  unfolds [C14] implements(node, ast.Expr) && !implements(node, ast.ExCommand) && !tagis(node, *ast.File) && !tagis(node, *ast.Comment) && !tagis(node, []ast.Statement) ==> tag(r) == 0 && c.buffer.text == old(c.buffer.text) + rep(c.Config.Indent, old(c.indent)) + sx(node)

func Compiler.Compile(c, w, n) -> err
  modifies c.buffer, c.indent, $nw, $lastw, $lasttext, $werr
  ensures [C14] tag(err) == 0 ==> good(n) && tag($werr) == 0 && $nw == old($nw) + 1 && $lastw == w && $lasttext == out("", n, 0, c.Config.Indent)
  ensures [C14] !good(n) ==> $nw == old($nw)

func Compile(w, n) -> err
  modifies $nw, $lastw, $lasttext, $werr
  ensures [C14] tag(err) == 0 ==> good(n) && tag($werr) == 0 && $nw == old($nw) + 1 && $lastw == w && $lasttext == out("", n, 0, "  ")
  ensures [C14] !good(n) ==> $nw == old($nw)

