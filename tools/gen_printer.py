#!/usr/bin/env python3
# writes contracts/printer.vc: the source text of an expression (C15)
cmp = [o + c for o in 'EQEQ NEQ GT GTEQ LT LTEQ MATCH NOMATCH IS ISNOT'.split() for c in ('', 'CI', 'CS')]
s = '''// C15: the source text of an expression.  Generated by tools/gen_printer.py.
//   okx(e)     every kind of node and operator in e can be printed
//   prx(e, p)  the text of e where an operand of at least strength p is expected
package printer
safety C15

// binding strength of binary operators, loosest first; 0: not one
spec bprec(op token.Token) int = ite(op == token.OROR, 2, ite(op == token.ANDAND, 3, ite(op in set(@CMP), 4, ite(op in set(token.PLUS, token.MINUS, token.DOT), 5, ite(op in set(token.STAR, token.SLASH, token.PERCENT), 6, 0)))))
// comparisons do not chain; the others associate to the left
spec lprec(op token.Token) int = ite(bprec(op) == 4, 5, bprec(op))
spec uop(op token.Token) bool = op in set(token.NOT, token.MINUS, token.PLUS)
// how tightly the form of e binds; 0: not an operator form that can be printed
spec strength(e ast.Expr) int = ite(tagis(e, *ast.BinaryExpr), bprec(as(e, *ast.BinaryExpr).Op), ite(tagis(e, *ast.UnaryExpr), 7, ite(tagis(e, *ast.SubscriptExpr), 8, 9)))

ufun okx(e ast.Expr) bool
axiom okx_bin: forall e ast.Expr :: {okx(e)} tagis(e, *ast.BinaryExpr) ==> (okx(e) <==> bprec(as(e, *ast.BinaryExpr).Op) > 0 && okx(as(e, *ast.BinaryExpr).Left) && okx(as(e, *ast.BinaryExpr).Right))
axiom okx_un: forall e ast.Expr :: {okx(e)} tagis(e, *ast.UnaryExpr) ==> (okx(e) <==> uop(as(e, *ast.UnaryExpr).Op) && okx(as(e, *ast.UnaryExpr).X))
axiom okx_sub: forall e ast.Expr :: {okx(e)} tagis(e, *ast.SubscriptExpr) ==> (okx(e) <==> okx(as(e, *ast.SubscriptExpr).Left) && okx(as(e, *ast.SubscriptExpr).Right))
axiom okx_paren: forall e ast.Expr :: {okx(e)} tagis(e, *ast.ParenExpr) ==> (okx(e) <==> okx(as(e, *ast.ParenExpr).X))
axiom okx_atom: forall e ast.Expr :: {okx(e)} tagis(e, *ast.BasicLit) || tagis(e, *ast.Ident) ==> okx(e)
axiom okx_none: forall e ast.Expr :: {okx(e)} !tagis(e, *ast.BinaryExpr) && !tagis(e, *ast.UnaryExpr) && !tagis(e, *ast.SubscriptExpr) && !tagis(e, *ast.ParenExpr) && !tagis(e, *ast.BasicLit) && !tagis(e, *ast.Ident) ==> !okx(e)

ufun prx(e ast.Expr, p int) string
// a form that binds less tightly than what is expected stands in parentheses
axiom prx_weak: forall e ast.Expr, p int :: {prx(e, p)} strength(e) < p && (tagis(e, *ast.BinaryExpr) || tagis(e, *ast.UnaryExpr)) ==> prx(e, p) == "(" + prx(e, 0) + ")"
axiom prx_bin: forall e ast.Expr, p int :: {prx(e, p)} tagis(e, *ast.BinaryExpr) && p <= strength(e) ==> prx(e, p) == prx(as(e, *ast.BinaryExpr).Left, lprec(as(e, *ast.BinaryExpr).Op)) + " " + tokstr(as(e, *ast.BinaryExpr).Op) + " " + prx(as(e, *ast.BinaryExpr).Right, bprec(as(e, *ast.BinaryExpr).Op) + 1)
axiom prx_un: forall e ast.Expr, p int :: {prx(e, p)} tagis(e, *ast.UnaryExpr) && p <= 7 ==> prx(e, p) == tokstr(as(e, *ast.UnaryExpr).Op) + prx(as(e, *ast.UnaryExpr).X, 7)
axiom prx_sub: forall e ast.Expr, p int :: {prx(e, p)} tagis(e, *ast.SubscriptExpr) && p <= 8 ==> prx(e, p) == prx(as(e, *ast.SubscriptExpr).Left, 8) + "[" + prx(as(e, *ast.SubscriptExpr).Right, 0) + "]"
// parentheses of the source are kept, double ones once
axiom prx_paren: forall e ast.Expr, p int :: {prx(e, p)} tagis(e, *ast.ParenExpr) ==> prx(e, p) == ite(tagis(as(e, *ast.ParenExpr).X, *ast.ParenExpr), prx(as(e, *ast.ParenExpr).X, 0), "(" + prx(as(e, *ast.ParenExpr).X, 0) + ")")
axiom prx_lit: forall e ast.Expr, p int :: {prx(e, p)} tagis(e, *ast.BasicLit) ==> prx(e, p) == as(e, *ast.BasicLit).Value
axiom prx_id: forall e ast.Expr, p int :: {prx(e, p)} tagis(e, *ast.Ident) ==> prx(e, p) == as(e, *ast.Ident).Name

invoke io.Writer.Write(w, b) -> n, err
  modifies $nw, $lastw, $lasttext, $werr
  ensures $nw == old($nw) + 1 && $lastw == w && $lasttext == bstr(b) && $werr == err
extern $write(w, s) -> n, err
  modifies $nw, $lastw, $lasttext, $werr
  ensures $nw == old($nw) + 1 && $lastw == w && $lasttext == s && $werr == err

func printer.expr1(p, expr, prec1)
  requires [C15] 0 <= prec1 && prec1 <= 8
  modifies p.output
  panics e: tagis(e, printError) && !okx(expr)
  ensures [C15] okx(expr) && bstr(p.output) == old(bstr(p.output)) + prx(expr, prec1)

func Fprint(output, node, cfg) -> err
  requires [C15] tag(output) != 0
  modifies $nw, $lastw, $lasttext, $werr
  nopanic
  ensures [C15] tag(err) == 0 ==> okx(node) && tag($werr) == 0 && $nw == old($nw) + 1 && $lastw == output && $lasttext == prx(node, 0)
  ensures [C15] !okx(node) ==> tag(err) != 0 && $nw == old($nw)
  ensures [C15] $nw == old($nw) ==> tag(err) != 0
'''.replace('@CMP', ', '.join('token.' + x for x in cmp))
open('/verif/contracts/printer.vc', 'w').write(s)
