// Generated by tools/gen_export.py.
// C12: what the public tree is made of.  Img(n, fn, x): x is the image of the
// internal node n under the file name fn; by definition it is what the
// conversion returns, and the contract of the conversion says what that is.
package go
safety C01

ufun Img(n *VimNode, fn string, x any) bool
spec im(n *VimNode, fn string, x any) bool = ite(n == nil, tag(x) == 0, tag(x) != 0 && Img(n, fn, x))

spec isbinary(t int) bool = t in set(NODE_OR, NODE_AND, NODE_EQUAL, NODE_EQUALCI, NODE_EQUALCS, NODE_NEQUAL, NODE_NEQUALCI, NODE_NEQUALCS, NODE_GREATER, NODE_GREATERCI, NODE_GREATERCS, NODE_GEQUAL, NODE_GEQUALCI, NODE_GEQUALCS, NODE_SMALLER, NODE_SMALLERCI, NODE_SMALLERCS, NODE_SEQUAL, NODE_SEQUALCI, NODE_SEQUALCS, NODE_MATCH, NODE_MATCHCI, NODE_MATCHCS, NODE_NOMATCH, NODE_NOMATCHCI, NODE_NOMATCHCS, NODE_IS, NODE_ISCI, NODE_ISCS, NODE_ISNOT, NODE_ISNOTCI, NODE_ISNOTCS, NODE_ADD, NODE_SUBTRACT, NODE_CONCAT, NODE_MULTIPLY, NODE_DIVIDE, NODE_REMAINDER)
spec isunary(t int) bool = t in set(NODE_NOT, NODE_MINUS, NODE_PLUS)
spec isother(t int) bool = t in set(NODE_TERNARY, NODE_SUBSCRIPT, NODE_SLICE, NODE_METHOD, NODE_CALL, NODE_DOT, NODE_NUMBER, NODE_STRING, NODE_LIST, NODE_DICT, NODE_OPTION, NODE_IDENTIFIER, NODE_CURLYNAME, NODE_CURLYNAMEPART, NODE_CURLYNAMEEXPR, NODE_ENV, NODE_REG, NODE_LAMBDA, NODE_BLOB, NODE_HEREDOC, NODE_PARENEXPR)
spec isstmt(t int) bool = t in set(NODE_COMMENT, NODE_EXCMD, NODE_FUNCTION, NODE_ENDFUNCTION, NODE_DELFUNCTION, NODE_RETURN, NODE_EXCALL, NODE_LET, NODE_CONST, NODE_UNLET, NODE_LOCKVAR, NODE_UNLOCKVAR, NODE_IF, NODE_ELSEIF, NODE_ELSE, NODE_ENDIF, NODE_WHILE, NODE_ENDWHILE, NODE_FOR, NODE_ENDFOR, NODE_CONTINUE, NODE_BREAK, NODE_TRY, NODE_CATCH, NODE_FINALLY, NODE_ENDTRY, NODE_THROW, NODE_EVAL, NODE_ECHO, NODE_ECHON, NODE_ECHOMSG, NODE_ECHOERR, NODE_ECHOHL, NODE_EXECUTE)
spec isexpr(t int) bool = isbinary(t) || isunary(t) || isother(t)
spec knownty(t int) bool = isexpr(t) || isstmt(t) || t == NODE_TOPLEVEL
spec optok(t int) int = ite(t == NODE_OR, token.OROR, ite(t == NODE_AND, token.ANDAND, ite(t == NODE_EQUAL, token.EQEQ, ite(t == NODE_EQUALCI, token.EQEQCI, ite(t == NODE_EQUALCS, token.EQEQCS, ite(t == NODE_NEQUAL, token.NEQ, ite(t == NODE_NEQUALCI, token.NEQCI, ite(t == NODE_NEQUALCS, token.NEQCS, ite(t == NODE_GREATER, token.GT, ite(t == NODE_GREATERCI, token.GTCI, ite(t == NODE_GREATERCS, token.GTCS, ite(t == NODE_GEQUAL, token.GTEQ, ite(t == NODE_GEQUALCI, token.GTEQCI, ite(t == NODE_GEQUALCS, token.GTEQCS, ite(t == NODE_SMALLER, token.LT, ite(t == NODE_SMALLERCI, token.LTCI, ite(t == NODE_SMALLERCS, token.LTCS, ite(t == NODE_SEQUAL, token.LTEQ, ite(t == NODE_SEQUALCI, token.LTEQCI, ite(t == NODE_SEQUALCS, token.LTEQCS, ite(t == NODE_MATCH, token.MATCH, ite(t == NODE_MATCHCI, token.MATCHCI, ite(t == NODE_MATCHCS, token.MATCHCS, ite(t == NODE_NOMATCH, token.NOMATCH, ite(t == NODE_NOMATCHCI, token.NOMATCHCI, ite(t == NODE_NOMATCHCS, token.NOMATCHCS, ite(t == NODE_IS, token.IS, ite(t == NODE_ISCI, token.ISCI, ite(t == NODE_ISCS, token.ISCS, ite(t == NODE_ISNOT, token.ISNOT, ite(t == NODE_ISNOTCI, token.ISNOTCI, ite(t == NODE_ISNOTCS, token.ISNOTCS, ite(t == NODE_ADD, token.PLUS, ite(t == NODE_SUBTRACT, token.MINUS, ite(t == NODE_CONCAT, token.DOT, ite(t == NODE_MULTIPLY, token.STAR, ite(t == NODE_DIVIDE, token.SLASH, ite(t == NODE_REMAINDER, token.PERCENT, ite(t == NODE_NOT, token.NOT, ite(t == NODE_MINUS, token.MINUS, ite(t == NODE_PLUS, token.PLUS, token.ILLEGAL)))))))))))))))))))))))))))))))))))))))))

spec posV(p ast.Pos, q *pos, fn string) bool = p.Filename == fn && ite(q == nil, p.Offset == 0 && p.Line == 1 && p.Column == 1, p.Offset == q.offset && p.Line == q.lnum && p.Column == q.col)
spec posP(p *ast.Pos, q *pos, fn string) bool = ite(q == nil, p == nil, p != nil && p.Filename == fn && p.Offset == q.offset && p.Line == q.lnum && p.Column == q.col)
spec cmdP(x *ast.Cmd, c *Cmd) bool = ite(c == nil, x == nil, x != nil && x.Name == c.name && x.Minlen == c.minlen && x.Flags == c.flags && x.Parser == c.parser)
spec exA(x ast.ExArg, e *ExArg, fn string) bool = x.Forceit == e.forceit && x.AddrCount == e.addr_count && x.Line1 == e.line1 && x.Line2 == e.line2 && x.Flags == e.flags && x.DoEcmdCmd == e.do_ecmd_cmd && x.DoEcmdLnum == e.do_ecmd_lnum && x.Append == e.append && x.Usefilter == e.usefilter && x.Amount == e.amount && x.Regname == e.regname && x.ForceBin == e.force_bin && x.ReadEdit == e.read_edit && x.ForceFf == e.force_ff && x.ForceEnc == e.force_enc && x.BadChar == e.bad_char && posP(x.Linepos, e.linepos, fn) && posP(x.Cmdpos, e.cmdpos, fn) && posP(x.Argpos, e.argpos, fn) && cmdP(x.Cmd, e.cmd) && seqeq(x.Modifiers, e.modifiers) && seqeq(x.Range, e.range_) && x.Argopt == e.argopt && x.Argcmd == e.argcmd
spec attrV(x ast.FuncAttr, a *FuncAttr) bool = ite(a == nil, !x.Range && !x.Abort && !x.Dict && !x.Closure, x.Range == a.range_ && x.Abort == a.abort && x.Dict == a.dict && x.Closure == a.closure)
spec imE(xs []*VimNode, fn string, l []ast.Expr, k int) bool = len(l) == k && (forall i int :: {l[i]} 0 <= i && i < k ==> im(xs[i], fn, l[i]))
spec imS(xs []*VimNode, fn string, l []ast.Statement, k int) bool = len(l) == k && (forall i int :: {l[i]} 0 <= i && i < k ==> im(xs[i], fn, l[i]))
spec imI(xs []*VimNode, fn string, l []*ast.Ident, k int) bool = len(l) == k && (forall i int :: {l[i]} 0 <= i && i < k ==> l[i] != nil && Img(xs[i], fn, iface(l[i])))
spec imEI(xs []*VimNode, fn string, l []*ast.ElseIf, k int) bool = len(l) == k && (forall i int :: {l[i]} 0 <= i && i < k ==> l[i] != nil && Img(xs[i], fn, iface(l[i])))
spec imC(xs []*VimNode, fn string, l []*ast.Catch, k int) bool = len(l) == k && (forall i int :: {l[i]} 0 <= i && i < k ==> l[i] != nil && Img(xs[i], fn, iface(l[i])))
spec imP(xs []*VimNode, fn string, l []ast.CurlyNamePart, k int) bool = len(l) == k && (forall i int :: {l[i]} 0 <= i && i < k ==> im(xs[i], fn, l[i]))
spec imV(xs []any, fn string, l []ast.Expr, k int) bool = len(l) == k && (forall i int :: {l[i]} 0 <= i && i < k ==> im(as(xs[i], *VimNode), fn, l[i]))
spec imD(xs []any, fn string, l []ast.KeyValue, k int) bool = len(l) == k && (forall i int :: {l[i]} 0 <= i && i < k ==> im(as(as(xs[i], []any)[0], *VimNode), fn, l[i].Key) && im(as(as(xs[i], []any)[1], *VimNode), fn, l[i].Value))
candidate [C12] i int, xs []*VimNode, fn string, l []ast.Expr : i + 1 <= len(xs) && i >= 0 - 1 && imE(xs, fn, l, i + 1)
candidate [C12] i int, xs []*VimNode, fn string, l []ast.Statement : i + 1 <= len(xs) && i >= 0 - 1 && imS(xs, fn, l, i + 1)
candidate [C12] i int, xs []*VimNode, fn string, l []*ast.Ident : i + 1 <= len(xs) && i >= 0 - 1 && imI(xs, fn, l, i + 1)
candidate [C12] i int, xs []*VimNode, fn string, l []*ast.ElseIf : i + 1 <= len(xs) && i >= 0 - 1 && imEI(xs, fn, l, i + 1)
candidate [C12] i int, xs []*VimNode, fn string, l []*ast.Catch : i + 1 <= len(xs) && i >= 0 - 1 && imC(xs, fn, l, i + 1)
candidate [C12] i int, xs []*VimNode, fn string, l []ast.CurlyNamePart : i + 1 <= len(xs) && i >= 0 - 1 && imP(xs, fn, l, i + 1)
candidate [C12] i int, xs []any, fn string, l []ast.Expr : i + 1 <= len(xs) && i >= 0 - 1 && imV(xs, fn, l, i + 1)
candidate [C12] i int, xs []any, fn string, l []ast.KeyValue : i + 1 <= len(xs) && i >= 0 - 1 && imD(xs, fn, l, i + 1)

func newAstNode(n, fn) -> r
  requires [C01] n != nil ==> knownty(n.type_)
  modifies [C12 C01] nothing
  ensures [C12 C01] n == nil ==> tag(r) == 0
  ensures [C12 C01] n != nil ==> tag(r) != 0
  ensures [C12 C01] n != nil && isexpr(n.type_) ==> implements(r, ast.Expr)
  ensures [C12 C01] n != nil && isstmt(n.type_) ==> implements(r, ast.Statement)
  summary n != nil ==> Img(n, fn, r)
  ensures [C12 C01] n != nil && n.type_ == NODE_TOPLEVEL ==> tagis(r, *ast.File) && payload(r) != 0
  ensures [C12 C01] n != nil && n.type_ == NODE_COMMENT ==> tagis(r, *ast.Comment) && payload(r) != 0
  ensures [C12 C01] n != nil && n.type_ == NODE_EXCMD ==> tagis(r, *ast.Excmd) && payload(r) != 0
  ensures [C12 C01] n != nil && n.type_ == NODE_FUNCTION ==> tagis(r, *ast.Function) && payload(r) != 0
  ensures [C12 C01] n != nil && n.type_ == NODE_ENDFUNCTION ==> tagis(r, *ast.EndFunction) && payload(r) != 0
  ensures [C12 C01] n != nil && n.type_ == NODE_DELFUNCTION ==> tagis(r, *ast.DelFunction) && payload(r) != 0
  ensures [C12 C01] n != nil && n.type_ == NODE_RETURN ==> tagis(r, *ast.Return) && payload(r) != 0
  ensures [C12 C01] n != nil && n.type_ == NODE_EXCALL ==> tagis(r, *ast.ExCall) && payload(r) != 0
  ensures [C12 C01] n != nil && n.type_ in set(NODE_LET, NODE_CONST) ==> tagis(r, *ast.Let) && payload(r) != 0
  ensures [C12 C01] n != nil && n.type_ == NODE_UNLET ==> tagis(r, *ast.UnLet) && payload(r) != 0
  ensures [C12 C01] n != nil && n.type_ == NODE_LOCKVAR ==> tagis(r, *ast.LockVar) && payload(r) != 0
  ensures [C12 C01] n != nil && n.type_ == NODE_UNLOCKVAR ==> tagis(r, *ast.UnLockVar) && payload(r) != 0
  ensures [C12 C01] n != nil && n.type_ == NODE_IF ==> tagis(r, *ast.If) && payload(r) != 0
  ensures [C12 C01] n != nil && n.type_ == NODE_ELSEIF ==> tagis(r, *ast.ElseIf) && payload(r) != 0
  ensures [C12 C01] n != nil && n.type_ == NODE_ELSE ==> tagis(r, *ast.Else) && payload(r) != 0
  ensures [C12 C01] n != nil && n.type_ == NODE_ENDIF ==> tagis(r, *ast.EndIf) && payload(r) != 0
  ensures [C12 C01] n != nil && n.type_ == NODE_WHILE ==> tagis(r, *ast.While) && payload(r) != 0
  ensures [C12 C01] n != nil && n.type_ == NODE_ENDWHILE ==> tagis(r, *ast.EndWhile) && payload(r) != 0
  ensures [C12 C01] n != nil && n.type_ == NODE_FOR ==> tagis(r, *ast.For) && payload(r) != 0
  ensures [C12 C01] n != nil && n.type_ == NODE_ENDFOR ==> tagis(r, *ast.EndFor) && payload(r) != 0
  ensures [C12 C01] n != nil && n.type_ == NODE_CONTINUE ==> tagis(r, *ast.Continue) && payload(r) != 0
  ensures [C12 C01] n != nil && n.type_ == NODE_BREAK ==> tagis(r, *ast.Break) && payload(r) != 0
  ensures [C12 C01] n != nil && n.type_ == NODE_TRY ==> tagis(r, *ast.Try) && payload(r) != 0
  ensures [C12 C01] n != nil && n.type_ == NODE_CATCH ==> tagis(r, *ast.Catch) && payload(r) != 0
  ensures [C12 C01] n != nil && n.type_ == NODE_FINALLY ==> tagis(r, *ast.Finally) && payload(r) != 0
  ensures [C12 C01] n != nil && n.type_ == NODE_ENDTRY ==> tagis(r, *ast.EndTry) && payload(r) != 0
  ensures [C12 C01] n != nil && n.type_ == NODE_THROW ==> tagis(r, *ast.Throw) && payload(r) != 0
  ensures [C12 C01] n != nil && n.type_ == NODE_EVAL ==> tagis(r, *ast.Eval) && payload(r) != 0
  ensures [C12 C01] n != nil && n.type_ in set(NODE_ECHO, NODE_ECHON, NODE_ECHOMSG, NODE_ECHOERR) ==> tagis(r, *ast.EchoCmd) && payload(r) != 0
  ensures [C12 C01] n != nil && n.type_ == NODE_ECHOHL ==> tagis(r, *ast.Echohl) && payload(r) != 0
  ensures [C12 C01] n != nil && n.type_ == NODE_EXECUTE ==> tagis(r, *ast.Execute) && payload(r) != 0
  ensures [C12 C01] n != nil && n.type_ == NODE_TERNARY ==> tagis(r, *ast.TernaryExpr) && payload(r) != 0
  ensures [C12 C01] n != nil && isbinary(n.type_) ==> tagis(r, *ast.BinaryExpr) && payload(r) != 0
  ensures [C12 C01] n != nil && n.type_ in set(NODE_NOT, NODE_MINUS, NODE_PLUS) ==> tagis(r, *ast.UnaryExpr) && payload(r) != 0
  ensures [C12 C01] n != nil && n.type_ == NODE_SUBSCRIPT ==> tagis(r, *ast.SubscriptExpr) && payload(r) != 0
  ensures [C12 C01] n != nil && n.type_ == NODE_SLICE ==> tagis(r, *ast.SliceExpr) && payload(r) != 0
  ensures [C12 C01] n != nil && n.type_ == NODE_METHOD ==> tagis(r, *ast.MethodExpr) && payload(r) != 0
  ensures [C12 C01] n != nil && n.type_ == NODE_CALL ==> tagis(r, *ast.CallExpr) && payload(r) != 0
  ensures [C12 C01] n != nil && n.type_ == NODE_DOT ==> tagis(r, *ast.DotExpr) && payload(r) != 0
  ensures [C12 C01] n != nil && n.type_ == NODE_NUMBER ==> tagis(r, *ast.BasicLit) && payload(r) != 0
  ensures [C12 C01] n != nil && n.type_ == NODE_STRING ==> tagis(r, *ast.BasicLit) && payload(r) != 0
  ensures [C12 C01] n != nil && n.type_ == NODE_OPTION ==> tagis(r, *ast.BasicLit) && payload(r) != 0
  ensures [C12 C01] n != nil && n.type_ == NODE_ENV ==> tagis(r, *ast.BasicLit) && payload(r) != 0
  ensures [C12 C01] n != nil && n.type_ == NODE_REG ==> tagis(r, *ast.BasicLit) && payload(r) != 0
  ensures [C12 C01] n != nil && n.type_ == NODE_BLOB ==> tagis(r, *ast.BasicLit) && payload(r) != 0
  ensures [C12 C01] n != nil && n.type_ == NODE_LIST ==> tagis(r, *ast.List) && payload(r) != 0
  ensures [C12 C01] n != nil && n.type_ == NODE_DICT ==> tagis(r, *ast.Dict) && payload(r) != 0
  ensures [C12 C01] n != nil && n.type_ == NODE_IDENTIFIER ==> tagis(r, *ast.Ident) && payload(r) != 0
  ensures [C12 C01] n != nil && n.type_ == NODE_CURLYNAME ==> tagis(r, *ast.CurlyName) && payload(r) != 0
  ensures [C12 C01] n != nil && n.type_ == NODE_CURLYNAMEPART ==> tagis(r, *ast.CurlyNameLit) && payload(r) != 0
  ensures [C12 C01] n != nil && n.type_ == NODE_CURLYNAMEEXPR ==> tagis(r, *ast.CurlyNameExpr) && payload(r) != 0
  ensures [C12 C01] n != nil && n.type_ == NODE_LAMBDA ==> tagis(r, *ast.LambdaExpr) && payload(r) != 0
  ensures [C12 C01] n != nil && n.type_ == NODE_PARENEXPR ==> tagis(r, *ast.ParenExpr) && payload(r) != 0
  ensures [C12 C01] n != nil && n.type_ == NODE_HEREDOC ==> tagis(r, *ast.HeredocExpr) && payload(r) != 0
  unfolds [C12] n != nil && n.type_ == NODE_TOPLEVEL ==> posV(as(r, *ast.File).Start, n.pos, fn)
  unfolds [C12] n != nil && n.type_ == NODE_TOPLEVEL ==> imS(n.body, fn, as(r, *ast.File).Body, len(n.body))
  unfolds [C12] n != nil && n.type_ == NODE_COMMENT ==> posV(as(r, *ast.Comment).Quote, n.pos, fn)
  unfolds [C12] n != nil && n.type_ == NODE_COMMENT ==> as(r, *ast.Comment).Text == n.str
  unfolds [C12] n != nil && n.type_ == NODE_EXCMD ==> posV(as(r, *ast.Excmd).Excmd, n.pos, fn)
  unfolds [C12] n != nil && n.type_ == NODE_EXCMD ==> exA(as(r, *ast.Excmd).ExArg, n.ea, fn)
  unfolds [C12] n != nil && n.type_ == NODE_EXCMD ==> as(r, *ast.Excmd).Command == n.str
  unfolds [C12] n != nil && n.type_ == NODE_FUNCTION ==> posV(as(r, *ast.Function).Func, n.pos, fn)
  unfolds [C12] n != nil && n.type_ == NODE_FUNCTION ==> exA(as(r, *ast.Function).ExArg, n.ea, fn)
  unfolds [C12] n != nil && n.type_ == NODE_FUNCTION ==> imS(n.body, fn, as(r, *ast.Function).Body, len(n.body))
  unfolds [C12] n != nil && n.type_ == NODE_FUNCTION ==> im(n.left, fn, as(r, *ast.Function).Name)
  unfolds [C12] n != nil && n.type_ == NODE_FUNCTION ==> imI(n.rlist, fn, as(r, *ast.Function).Params, len(n.rlist))
  unfolds [C12] n != nil && n.type_ == NODE_FUNCTION ==> imE(n.default_args, fn, as(r, *ast.Function).DefaultArgs, len(n.default_args))
  unfolds [C12] n != nil && n.type_ == NODE_FUNCTION ==> attrV(as(r, *ast.Function).Attr, n.attr)
  unfolds [C12] n != nil && n.type_ == NODE_FUNCTION ==> ite(n.endfunction == nil, as(r, *ast.Function).EndFunction == nil, as(r, *ast.Function).EndFunction != nil && Img(n.endfunction, fn, iface(as(r, *ast.Function).EndFunction)))
  unfolds [C12] n != nil && n.type_ == NODE_ENDFUNCTION ==> posV(as(r, *ast.EndFunction).EndFunc, n.pos, fn)
  unfolds [C12] n != nil && n.type_ == NODE_ENDFUNCTION ==> exA(as(r, *ast.EndFunction).ExArg, n.ea, fn)
  unfolds [C12] n != nil && n.type_ == NODE_DELFUNCTION ==> posV(as(r, *ast.DelFunction).DelFunc, n.pos, fn)
  unfolds [C12] n != nil && n.type_ == NODE_DELFUNCTION ==> exA(as(r, *ast.DelFunction).ExArg, n.ea, fn)
  unfolds [C12] n != nil && n.type_ == NODE_DELFUNCTION ==> im(n.left, fn, as(r, *ast.DelFunction).Name)
  unfolds [C12] n != nil && n.type_ == NODE_RETURN ==> posV(as(r, *ast.Return).Return, n.pos, fn)
  unfolds [C12] n != nil && n.type_ == NODE_RETURN ==> exA(as(r, *ast.Return).ExArg, n.ea, fn)
  unfolds [C12] n != nil && n.type_ == NODE_RETURN ==> im(n.left, fn, as(r, *ast.Return).Result)
  unfolds [C12] n != nil && n.type_ == NODE_EXCALL ==> posV(as(r, *ast.ExCall).ExCall, n.pos, fn)
  unfolds [C12] n != nil && n.type_ == NODE_EXCALL ==> exA(as(r, *ast.ExCall).ExArg, n.ea, fn)
  unfolds [C12] n != nil && n.type_ == NODE_EXCALL ==> ite(n.left == nil, as(r, *ast.ExCall).FuncCall == nil, as(r, *ast.ExCall).FuncCall != nil && Img(n.left, fn, iface(as(r, *ast.ExCall).FuncCall)))
  unfolds [C12] n != nil && n.type_ in set(NODE_LET, NODE_CONST) ==> posV(as(r, *ast.Let).Let, n.pos, fn)
  unfolds [C12] n != nil && n.type_ in set(NODE_LET, NODE_CONST) ==> exA(as(r, *ast.Let).ExArg, n.ea, fn)
  unfolds [C12] n != nil && n.type_ in set(NODE_LET, NODE_CONST) ==> as(r, *ast.Let).Op == n.op
  unfolds [C12] n != nil && n.type_ in set(NODE_LET, NODE_CONST) ==> im(n.left, fn, as(r, *ast.Let).Left)
  unfolds [C12] n != nil && n.type_ in set(NODE_LET, NODE_CONST) ==> imE(n.list, fn, as(r, *ast.Let).List, len(n.list))
  unfolds [C12] n != nil && n.type_ in set(NODE_LET, NODE_CONST) ==> im(n.rest, fn, as(r, *ast.Let).Rest)
  unfolds [C12] n != nil && n.type_ in set(NODE_LET, NODE_CONST) ==> im(n.right, fn, as(r, *ast.Let).Right)
  unfolds [C12] n != nil && n.type_ == NODE_UNLET ==> posV(as(r, *ast.UnLet).UnLet, n.pos, fn)
  unfolds [C12] n != nil && n.type_ == NODE_UNLET ==> exA(as(r, *ast.UnLet).ExArg, n.ea, fn)
  unfolds [C12] n != nil && n.type_ == NODE_UNLET ==> imE(n.list, fn, as(r, *ast.UnLet).List, len(n.list))
  unfolds [C12] n != nil && n.type_ == NODE_LOCKVAR ==> posV(as(r, *ast.LockVar).LockVar, n.pos, fn)
  unfolds [C12] n != nil && n.type_ == NODE_LOCKVAR ==> exA(as(r, *ast.LockVar).ExArg, n.ea, fn)
  unfolds [C12] n != nil && n.type_ == NODE_LOCKVAR ==> as(r, *ast.LockVar).Depth == n.depth
  unfolds [C12] n != nil && n.type_ == NODE_LOCKVAR ==> imE(n.list, fn, as(r, *ast.LockVar).List, len(n.list))
  unfolds [C12] n != nil && n.type_ == NODE_UNLOCKVAR ==> posV(as(r, *ast.UnLockVar).UnLockVar, n.pos, fn)
  unfolds [C12] n != nil && n.type_ == NODE_UNLOCKVAR ==> exA(as(r, *ast.UnLockVar).ExArg, n.ea, fn)
  unfolds [C12] n != nil && n.type_ == NODE_UNLOCKVAR ==> as(r, *ast.UnLockVar).Depth == n.depth
  unfolds [C12] n != nil && n.type_ == NODE_UNLOCKVAR ==> imE(n.list, fn, as(r, *ast.UnLockVar).List, len(n.list))
  unfolds [C12] n != nil && n.type_ == NODE_IF ==> posV(as(r, *ast.If).If, n.pos, fn)
  unfolds [C12] n != nil && n.type_ == NODE_IF ==> exA(as(r, *ast.If).ExArg, n.ea, fn)
  unfolds [C12] n != nil && n.type_ == NODE_IF ==> imS(n.body, fn, as(r, *ast.If).Body, len(n.body))
  unfolds [C12] n != nil && n.type_ == NODE_IF ==> im(n.cond, fn, as(r, *ast.If).Condition)
  unfolds [C12] n != nil && n.type_ == NODE_IF ==> imEI(n.elseif, fn, as(r, *ast.If).ElseIf, len(n.elseif))
  unfolds [C12] n != nil && n.type_ == NODE_IF ==> ite(n.else_ == nil, as(r, *ast.If).Else == nil, as(r, *ast.If).Else != nil && Img(n.else_, fn, iface(as(r, *ast.If).Else)))
  unfolds [C12] n != nil && n.type_ == NODE_IF ==> ite(n.endif == nil, as(r, *ast.If).EndIf == nil, as(r, *ast.If).EndIf != nil && Img(n.endif, fn, iface(as(r, *ast.If).EndIf)))
  unfolds [C12] n != nil && n.type_ == NODE_ELSEIF ==> posV(as(r, *ast.ElseIf).ElseIf, n.pos, fn)
  unfolds [C12] n != nil && n.type_ == NODE_ELSEIF ==> exA(as(r, *ast.ElseIf).ExArg, n.ea, fn)
  unfolds [C12] n != nil && n.type_ == NODE_ELSEIF ==> imS(n.body, fn, as(r, *ast.ElseIf).Body, len(n.body))
  unfolds [C12] n != nil && n.type_ == NODE_ELSEIF ==> im(n.cond, fn, as(r, *ast.ElseIf).Condition)
  unfolds [C12] n != nil && n.type_ == NODE_ELSE ==> posV(as(r, *ast.Else).Else, n.pos, fn)
  unfolds [C12] n != nil && n.type_ == NODE_ELSE ==> exA(as(r, *ast.Else).ExArg, n.ea, fn)
  unfolds [C12] n != nil && n.type_ == NODE_ELSE ==> imS(n.body, fn, as(r, *ast.Else).Body, len(n.body))
  unfolds [C12] n != nil && n.type_ == NODE_ENDIF ==> posV(as(r, *ast.EndIf).EndIf, n.pos, fn)
  unfolds [C12] n != nil && n.type_ == NODE_ENDIF ==> exA(as(r, *ast.EndIf).ExArg, n.ea, fn)
  unfolds [C12] n != nil && n.type_ == NODE_WHILE ==> posV(as(r, *ast.While).While, n.pos, fn)
  unfolds [C12] n != nil && n.type_ == NODE_WHILE ==> exA(as(r, *ast.While).ExArg, n.ea, fn)
  unfolds [C12] n != nil && n.type_ == NODE_WHILE ==> imS(n.body, fn, as(r, *ast.While).Body, len(n.body))
  unfolds [C12] n != nil && n.type_ == NODE_WHILE ==> im(n.cond, fn, as(r, *ast.While).Condition)
  unfolds [C12] n != nil && n.type_ == NODE_WHILE ==> ite(n.endwhile == nil, as(r, *ast.While).EndWhile == nil, as(r, *ast.While).EndWhile != nil && Img(n.endwhile, fn, iface(as(r, *ast.While).EndWhile)))
  unfolds [C12] n != nil && n.type_ == NODE_ENDWHILE ==> posV(as(r, *ast.EndWhile).EndWhile, n.pos, fn)
  unfolds [C12] n != nil && n.type_ == NODE_ENDWHILE ==> exA(as(r, *ast.EndWhile).ExArg, n.ea, fn)
  unfolds [C12] n != nil && n.type_ == NODE_FOR ==> posV(as(r, *ast.For).For, n.pos, fn)
  unfolds [C12] n != nil && n.type_ == NODE_FOR ==> exA(as(r, *ast.For).ExArg, n.ea, fn)
  unfolds [C12] n != nil && n.type_ == NODE_FOR ==> imS(n.body, fn, as(r, *ast.For).Body, len(n.body))
  unfolds [C12] n != nil && n.type_ == NODE_FOR ==> im(n.left, fn, as(r, *ast.For).Left)
  unfolds [C12] n != nil && n.type_ == NODE_FOR ==> imE(n.list, fn, as(r, *ast.For).List, len(n.list))
  unfolds [C12] n != nil && n.type_ == NODE_FOR ==> im(n.rest, fn, as(r, *ast.For).Rest)
  unfolds [C12] n != nil && n.type_ == NODE_FOR ==> im(n.right, fn, as(r, *ast.For).Right)
  unfolds [C12] n != nil && n.type_ == NODE_FOR ==> ite(n.endfor == nil, as(r, *ast.For).EndFor == nil, as(r, *ast.For).EndFor != nil && Img(n.endfor, fn, iface(as(r, *ast.For).EndFor)))
  unfolds [C12] n != nil && n.type_ == NODE_ENDFOR ==> posV(as(r, *ast.EndFor).EndFor, n.pos, fn)
  unfolds [C12] n != nil && n.type_ == NODE_ENDFOR ==> exA(as(r, *ast.EndFor).ExArg, n.ea, fn)
  unfolds [C12] n != nil && n.type_ == NODE_CONTINUE ==> posV(as(r, *ast.Continue).Continue, n.pos, fn)
  unfolds [C12] n != nil && n.type_ == NODE_CONTINUE ==> exA(as(r, *ast.Continue).ExArg, n.ea, fn)
  unfolds [C12] n != nil && n.type_ == NODE_BREAK ==> posV(as(r, *ast.Break).Break, n.pos, fn)
  unfolds [C12] n != nil && n.type_ == NODE_BREAK ==> exA(as(r, *ast.Break).ExArg, n.ea, fn)
  unfolds [C12] n != nil && n.type_ == NODE_TRY ==> posV(as(r, *ast.Try).Try, n.pos, fn)
  unfolds [C12] n != nil && n.type_ == NODE_TRY ==> exA(as(r, *ast.Try).ExArg, n.ea, fn)
  unfolds [C12] n != nil && n.type_ == NODE_TRY ==> imS(n.body, fn, as(r, *ast.Try).Body, len(n.body))
  unfolds [C12] n != nil && n.type_ == NODE_TRY ==> imC(n.catch, fn, as(r, *ast.Try).Catch, len(n.catch))
  unfolds [C12] n != nil && n.type_ == NODE_TRY ==> ite(n.finally == nil, as(r, *ast.Try).Finally == nil, as(r, *ast.Try).Finally != nil && Img(n.finally, fn, iface(as(r, *ast.Try).Finally)))
  unfolds [C12] n != nil && n.type_ == NODE_TRY ==> ite(n.endtry == nil, as(r, *ast.Try).EndTry == nil, as(r, *ast.Try).EndTry != nil && Img(n.endtry, fn, iface(as(r, *ast.Try).EndTry)))
  unfolds [C12] n != nil && n.type_ == NODE_CATCH ==> posV(as(r, *ast.Catch).Catch, n.pos, fn)
  unfolds [C12] n != nil && n.type_ == NODE_CATCH ==> exA(as(r, *ast.Catch).ExArg, n.ea, fn)
  unfolds [C12] n != nil && n.type_ == NODE_CATCH ==> imS(n.body, fn, as(r, *ast.Catch).Body, len(n.body))
  unfolds [C12] n != nil && n.type_ == NODE_CATCH ==> as(r, *ast.Catch).Pattern == n.pattern
  unfolds [C12] n != nil && n.type_ == NODE_FINALLY ==> posV(as(r, *ast.Finally).Finally, n.pos, fn)
  unfolds [C12] n != nil && n.type_ == NODE_FINALLY ==> exA(as(r, *ast.Finally).ExArg, n.ea, fn)
  unfolds [C12] n != nil && n.type_ == NODE_FINALLY ==> imS(n.body, fn, as(r, *ast.Finally).Body, len(n.body))
  unfolds [C12] n != nil && n.type_ == NODE_ENDTRY ==> posV(as(r, *ast.EndTry).EndTry, n.pos, fn)
  unfolds [C12] n != nil && n.type_ == NODE_ENDTRY ==> exA(as(r, *ast.EndTry).ExArg, n.ea, fn)
  unfolds [C12] n != nil && n.type_ == NODE_THROW ==> posV(as(r, *ast.Throw).Throw, n.pos, fn)
  unfolds [C12] n != nil && n.type_ == NODE_THROW ==> exA(as(r, *ast.Throw).ExArg, n.ea, fn)
  unfolds [C12] n != nil && n.type_ == NODE_THROW ==> im(n.left, fn, as(r, *ast.Throw).Expr)
  unfolds [C12] n != nil && n.type_ == NODE_EVAL ==> posV(as(r, *ast.Eval).Eval, n.pos, fn)
  unfolds [C12] n != nil && n.type_ == NODE_EVAL ==> exA(as(r, *ast.Eval).ExArg, n.ea, fn)
  unfolds [C12] n != nil && n.type_ == NODE_EVAL ==> im(n.left, fn, as(r, *ast.Eval).Expr)
  unfolds [C12] n != nil && n.type_ in set(NODE_ECHO, NODE_ECHON, NODE_ECHOMSG, NODE_ECHOERR) ==> posV(as(r, *ast.EchoCmd).Start, n.pos, fn)
  unfolds [C12] n != nil && n.type_ in set(NODE_ECHO, NODE_ECHON, NODE_ECHOMSG, NODE_ECHOERR) ==> exA(as(r, *ast.EchoCmd).ExArg, n.ea, fn)
  unfolds [C12] n != nil && n.type_ in set(NODE_ECHO, NODE_ECHON, NODE_ECHOMSG, NODE_ECHOERR) ==> as(r, *ast.EchoCmd).CmdName == n.ea.cmd.name
  unfolds [C12] n != nil && n.type_ in set(NODE_ECHO, NODE_ECHON, NODE_ECHOMSG, NODE_ECHOERR) ==> imE(n.list, fn, as(r, *ast.EchoCmd).Exprs, len(n.list))
  unfolds [C12] n != nil && n.type_ == NODE_ECHOHL ==> posV(as(r, *ast.Echohl).Echohl, n.pos, fn)
  unfolds [C12] n != nil && n.type_ == NODE_ECHOHL ==> exA(as(r, *ast.Echohl).ExArg, n.ea, fn)
  unfolds [C12] n != nil && n.type_ == NODE_ECHOHL ==> as(r, *ast.Echohl).Name == n.str
  unfolds [C12] n != nil && n.type_ == NODE_EXECUTE ==> posV(as(r, *ast.Execute).Execute, n.pos, fn)
  unfolds [C12] n != nil && n.type_ == NODE_EXECUTE ==> exA(as(r, *ast.Execute).ExArg, n.ea, fn)
  unfolds [C12] n != nil && n.type_ == NODE_EXECUTE ==> imE(n.list, fn, as(r, *ast.Execute).Exprs, len(n.list))
  unfolds [C12] n != nil && n.type_ == NODE_TERNARY ==> posV(as(r, *ast.TernaryExpr).Ternary, n.pos, fn)
  unfolds [C12] n != nil && n.type_ == NODE_TERNARY ==> im(n.cond, fn, as(r, *ast.TernaryExpr).Condition)
  unfolds [C12] n != nil && n.type_ == NODE_TERNARY ==> im(n.left, fn, as(r, *ast.TernaryExpr).Left)
  unfolds [C12] n != nil && n.type_ == NODE_TERNARY ==> im(n.right, fn, as(r, *ast.TernaryExpr).Right)
  unfolds [C12] n != nil && isbinary(n.type_) ==> posV(as(r, *ast.BinaryExpr).OpPos, n.pos, fn)
  unfolds [C12] n != nil && isbinary(n.type_) ==> im(n.left, fn, as(r, *ast.BinaryExpr).Left)
  unfolds [C12] n != nil && isbinary(n.type_) ==> as(r, *ast.BinaryExpr).Op == optok(n.type_)
  unfolds [C12] n != nil && isbinary(n.type_) ==> im(n.right, fn, as(r, *ast.BinaryExpr).Right)
  unfolds [C12] n != nil && n.type_ in set(NODE_NOT, NODE_MINUS, NODE_PLUS) ==> posV(as(r, *ast.UnaryExpr).OpPos, n.pos, fn)
  unfolds [C12] n != nil && n.type_ in set(NODE_NOT, NODE_MINUS, NODE_PLUS) ==> as(r, *ast.UnaryExpr).Op == optok(n.type_)
  unfolds [C12] n != nil && n.type_ in set(NODE_NOT, NODE_MINUS, NODE_PLUS) ==> im(n.left, fn, as(r, *ast.UnaryExpr).X)
  unfolds [C12] n != nil && n.type_ == NODE_SUBSCRIPT ==> posV(as(r, *ast.SubscriptExpr).Lbrack, n.pos, fn)
  unfolds [C12] n != nil && n.type_ == NODE_SUBSCRIPT ==> im(n.left, fn, as(r, *ast.SubscriptExpr).Left)
  unfolds [C12] n != nil && n.type_ == NODE_SUBSCRIPT ==> im(n.right, fn, as(r, *ast.SubscriptExpr).Right)
  unfolds [C12] n != nil && n.type_ == NODE_SLICE ==> posV(as(r, *ast.SliceExpr).Lbrack, n.pos, fn)
  unfolds [C12] n != nil && n.type_ == NODE_SLICE ==> im(n.left, fn, as(r, *ast.SliceExpr).X)
  unfolds [C12] n != nil && n.type_ == NODE_SLICE ==> im(n.rlist[0], fn, as(r, *ast.SliceExpr).Low)
  unfolds [C12] n != nil && n.type_ == NODE_SLICE ==> im(n.rlist[1], fn, as(r, *ast.SliceExpr).High)
  unfolds [C12] n != nil && n.type_ == NODE_METHOD ==> posV(as(r, *ast.MethodExpr).Lparen, n.pos, fn)
  unfolds [C12] n != nil && n.type_ == NODE_METHOD ==> im(n.left, fn, as(r, *ast.MethodExpr).Left)
  unfolds [C12] n != nil && n.type_ == NODE_METHOD ==> im(n.right.left, fn, as(r, *ast.MethodExpr).Method)
  unfolds [C12] n != nil && n.type_ == NODE_METHOD ==> imE(n.right.rlist, fn, as(r, *ast.MethodExpr).Args, len(n.right.rlist))
  unfolds [C12] n != nil && n.type_ == NODE_CALL ==> posV(as(r, *ast.CallExpr).Lparen, n.pos, fn)
  unfolds [C12] n != nil && n.type_ == NODE_CALL ==> im(n.left, fn, as(r, *ast.CallExpr).Fun)
  unfolds [C12] n != nil && n.type_ == NODE_CALL ==> imE(n.rlist, fn, as(r, *ast.CallExpr).Args, len(n.rlist))
  unfolds [C12] n != nil && n.type_ == NODE_DOT ==> posV(as(r, *ast.DotExpr).Dot, n.pos, fn)
  unfolds [C12] n != nil && n.type_ == NODE_DOT ==> im(n.left, fn, as(r, *ast.DotExpr).Left)
  unfolds [C12] n != nil && n.type_ == NODE_DOT ==> ite(n.right == nil, as(r, *ast.DotExpr).Right == nil, as(r, *ast.DotExpr).Right != nil && Img(n.right, fn, iface(as(r, *ast.DotExpr).Right)))
  unfolds [C12] n != nil && n.type_ == NODE_NUMBER ==> posV(as(r, *ast.BasicLit).ValuePos, n.pos, fn)
  unfolds [C12] n != nil && n.type_ == NODE_NUMBER ==> as(r, *ast.BasicLit).Kind == token.NUMBER
  unfolds [C12] n != nil && n.type_ == NODE_NUMBER ==> as(r, *ast.BasicLit).Value == as(n.value, string)
  unfolds [C12] n != nil && n.type_ == NODE_STRING ==> posV(as(r, *ast.BasicLit).ValuePos, n.pos, fn)
  unfolds [C12] n != nil && n.type_ == NODE_STRING ==> as(r, *ast.BasicLit).Kind == token.STRING
  unfolds [C12] n != nil && n.type_ == NODE_STRING ==> as(r, *ast.BasicLit).Value == as(n.value, string)
  unfolds [C12] n != nil && n.type_ == NODE_OPTION ==> posV(as(r, *ast.BasicLit).ValuePos, n.pos, fn)
  unfolds [C12] n != nil && n.type_ == NODE_OPTION ==> as(r, *ast.BasicLit).Kind == token.OPTION
  unfolds [C12] n != nil && n.type_ == NODE_OPTION ==> as(r, *ast.BasicLit).Value == as(n.value, string)
  unfolds [C12] n != nil && n.type_ == NODE_ENV ==> posV(as(r, *ast.BasicLit).ValuePos, n.pos, fn)
  unfolds [C12] n != nil && n.type_ == NODE_ENV ==> as(r, *ast.BasicLit).Kind == token.ENV
  unfolds [C12] n != nil && n.type_ == NODE_ENV ==> as(r, *ast.BasicLit).Value == as(n.value, string)
  unfolds [C12] n != nil && n.type_ == NODE_REG ==> posV(as(r, *ast.BasicLit).ValuePos, n.pos, fn)
  unfolds [C12] n != nil && n.type_ == NODE_REG ==> as(r, *ast.BasicLit).Kind == token.REG
  unfolds [C12] n != nil && n.type_ == NODE_REG ==> as(r, *ast.BasicLit).Value == as(n.value, string)
  unfolds [C12] n != nil && n.type_ == NODE_BLOB ==> posV(as(r, *ast.BasicLit).ValuePos, n.pos, fn)
  unfolds [C12] n != nil && n.type_ == NODE_BLOB ==> as(r, *ast.BasicLit).Kind == token.BLOB
  unfolds [C12] n != nil && n.type_ == NODE_BLOB ==> as(r, *ast.BasicLit).Value == as(n.value, string)
  unfolds [C12] n != nil && n.type_ == NODE_LIST ==> posV(as(r, *ast.List).Lsquare, n.pos, fn)
  unfolds [C12] n != nil && n.type_ == NODE_LIST ==> imV(as(n.value, []any), fn, as(r, *ast.List).Values, len(as(n.value, []any)))
  unfolds [C12] n != nil && n.type_ == NODE_DICT ==> posV(as(r, *ast.Dict).Lcurlybrace, n.pos, fn)
  unfolds [C12] n != nil && n.type_ == NODE_DICT ==> imD(as(n.value, []any), fn, as(r, *ast.Dict).Entries, len(as(n.value, []any)))
  unfolds [C12] n != nil && n.type_ == NODE_IDENTIFIER ==> posV(as(r, *ast.Ident).NamePos, n.pos, fn)
  unfolds [C12] n != nil && n.type_ == NODE_IDENTIFIER ==> as(r, *ast.Ident).Name == as(n.value, string)
  unfolds [C12] n != nil && n.type_ == NODE_CURLYNAME ==> posV(as(r, *ast.CurlyName).CurlyName, n.pos, fn)
  unfolds [C12] n != nil && n.type_ == NODE_CURLYNAME ==> imP(as(n.value, []*VimNode), fn, as(r, *ast.CurlyName).Parts, len(as(n.value, []*VimNode)))
  unfolds [C12] n != nil && n.type_ == NODE_CURLYNAMEPART ==> posV(as(r, *ast.CurlyNameLit).CurlyNameLit, n.pos, fn)
  unfolds [C12] n != nil && n.type_ == NODE_CURLYNAMEPART ==> as(r, *ast.CurlyNameLit).Value == as(n.value, string)
  unfolds [C12] n != nil && n.type_ == NODE_CURLYNAMEEXPR ==> posV(as(r, *ast.CurlyNameExpr).CurlyNameExpr, n.pos, fn)
  unfolds [C12] n != nil && n.type_ == NODE_CURLYNAMEEXPR ==> im(as(n.value, *VimNode), fn, as(r, *ast.CurlyNameExpr).Value)
  unfolds [C12] n != nil && n.type_ == NODE_LAMBDA ==> posV(as(r, *ast.LambdaExpr).Lcurlybrace, n.pos, fn)
  unfolds [C12] n != nil && n.type_ == NODE_LAMBDA ==> imI(n.rlist, fn, as(r, *ast.LambdaExpr).Params, len(n.rlist))
  unfolds [C12] n != nil && n.type_ == NODE_LAMBDA ==> im(n.left, fn, as(r, *ast.LambdaExpr).Expr)
  unfolds [C12] n != nil && n.type_ == NODE_PARENEXPR ==> posV(as(r, *ast.ParenExpr).Lparen, n.pos, fn)
  unfolds [C12] n != nil && n.type_ == NODE_PARENEXPR ==> im(as(n.value, *VimNode), fn, as(r, *ast.ParenExpr).X)
  unfolds [C12] n != nil && n.type_ == NODE_HEREDOC ==> posV(as(r, *ast.HeredocExpr).OpPos, n.pos, fn)
  unfolds [C12] n != nil && n.type_ == NODE_HEREDOC ==> imE(n.rlist, fn, as(r, *ast.HeredocExpr).Flags, len(n.rlist))
  unfolds [C12] n != nil && n.type_ == NODE_HEREDOC ==> as(r, *ast.HeredocExpr).EndMarker == n.op
  unfolds [C12] n != nil && n.type_ == NODE_HEREDOC ==> imE(n.body, fn, as(r, *ast.HeredocExpr).Body, len(n.body))

func newExprNode(n, fn) -> r
  requires [C01] n != nil ==> isexpr(n.type_)
  modifies [C12 C01] nothing
  ensures [C12] im(n, fn, r)

func newExprs(xs, fn) -> l
  requires [C01] forall i int :: {xs[i]} 0 <= i && i < len(xs) ==> xs[i] != nil && isexpr(xs[i].type_)
  modifies [C12 C01] nothing
  ensures [C12] imE(xs, fn, l, len(xs))

func newBody(n, fn) -> l
  requires [C01] forall i int :: {n.body[i]} 0 <= i && i < len(n.body) ==> n.body[i] != nil && isstmt(n.body[i].type_)
  modifies [C12 C01] nothing
  ensures [C12] imS(n.body, fn, l, len(n.body))

func newIdents(n, fn) -> l
  requires [C01] forall i int :: {n.rlist[i]} 0 <= i && i < len(n.rlist) ==> n.rlist[i] != nil && n.rlist[i].type_ == NODE_IDENTIFIER
  modifies [C12 C01] nothing
  ensures [C12] imI(n.rlist, fn, l, len(n.rlist))

func newValues(n, fn) -> l
  requires [C01] tagis(n.value, []any) && (forall i int :: {as(n.value, []any)[i]} 0 <= i && i < len(as(n.value, []any)) ==> tagis(as(n.value, []any)[i], *VimNode) && isexpr(as(as(n.value, []any)[i], *VimNode).type_))
  modifies [C12 C01] nothing
  ensures [C12] imV(as(n.value, []any), fn, l, len(as(n.value, []any)))

gvar $parsed *VimNode
gvar $parsedname string

func VimLParser.parse(p, reader) -> n
  summary n != nil && n.type_ == NODE_TOPLEVEL && $parsed == n

func ExprParser.parse(p) -> n
  summary n != nil && isexpr(n.type_) && $parsed == n

func VimLParser.Parse(p, reader, fn) -> r
  ensures [C12] im($parsed, fn, r) && tagis(r, *ast.File)
  summary $parsedname == fn && $parsed != nil && tagis(r, *ast.File)

func ExprParser.Parse(p) -> r
  ensures [C12] im($parsed, "", r)
  summary $parsed != nil

