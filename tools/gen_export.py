#!/usr/bin/env python3
"""Writes contracts/go_export.vc (C12) from the table of what each construct becomes.
The table follows the comments of ast/node.go ("vimlparser: ...")."""
import os
E, ES, S = 'expr', 'exprs', 'str'
T = [  # NODE, ast type, position field, has ExArg, [(field, kind, source[, type])]
 ('TOPLEVEL','File','Start',0,[('Body','body','body')]),
 ('COMMENT','Comment','Quote',0,[('Text',S,'n.str')]),
 ('EXCMD','Excmd','Excmd',1,[('Command',S,'n.str')]),
 ('FUNCTION','Function','Func',1,[('Body','body','body'),('Name',E,'n.left'),('Params','idents','rlist'),('DefaultArgs',ES,'n.default_args'),('Attr','attr',''),('EndFunction','node','n.endfunction')]),
 ('ENDFUNCTION','EndFunction','EndFunc',1,[]),
 ('DELFUNCTION','DelFunction','DelFunc',1,[('Name',E,'n.left')]),
 ('RETURN','Return','Return',1,[('Result',E,'n.left')]),
 ('EXCALL','ExCall','ExCall',1,[('FuncCall','node','n.left')]),
 ('LET|CONST','Let','Let',1,[('Op',S,'n.op'),('Left',E,'n.left'),('List',ES,'n.list'),('Rest',E,'n.rest'),('Right',E,'n.right')]),
 ('UNLET','UnLet','UnLet',1,[('List',ES,'n.list')]),
 ('LOCKVAR','LockVar','LockVar',1,[('Depth',S,'n.depth'),('List',ES,'n.list')]),
 ('UNLOCKVAR','UnLockVar','UnLockVar',1,[('Depth',S,'n.depth'),('List',ES,'n.list')]),
 ('IF','If','If',1,[('Body','body','body'),('Condition',E,'n.cond'),('ElseIf','nodes','n.elseif'),('Else','node','n.else_'),('EndIf','node','n.endif')]),
 ('ELSEIF','ElseIf','ElseIf',1,[('Body','body','body'),('Condition',E,'n.cond')]),
 ('ELSE','Else','Else',1,[('Body','body','body')]),
 ('ENDIF','EndIf','EndIf',1,[]),
 ('WHILE','While','While',1,[('Body','body','body'),('Condition',E,'n.cond'),('EndWhile','node','n.endwhile')]),
 ('ENDWHILE','EndWhile','EndWhile',1,[]),
 ('FOR','For','For',1,[('Body','body','body'),('Left',E,'n.left'),('List',ES,'n.list'),('Rest',E,'n.rest'),('Right',E,'n.right'),('EndFor','node','n.endfor')]),
 ('ENDFOR','EndFor','EndFor',1,[]),
 ('CONTINUE','Continue','Continue',1,[]),
 ('BREAK','Break','Break',1,[]),
 ('TRY','Try','Try',1,[('Body','body','body'),('Catch','nodes','n.catch'),('Finally','node','n.finally'),('EndTry','node','n.endtry')]),
 ('CATCH','Catch','Catch',1,[('Body','body','body'),('Pattern',S,'n.pattern')]),
 ('FINALLY','Finally','Finally',1,[('Body','body','body')]),
 ('ENDTRY','EndTry','EndTry',1,[]),
 ('THROW','Throw','Throw',1,[('Expr',E,'n.left')]),
 ('EVAL','Eval','Eval',1,[('Expr',E,'n.left')]),
 ('ECHO|ECHON|ECHOMSG|ECHOERR','EchoCmd','Start',1,[('CmdName',S,'n.ea.cmd.name'),('Exprs',ES,'n.list')]),
 ('ECHOHL','Echohl','Echohl',1,[('Name',S,'n.str')]),
 ('EXECUTE','Execute','Execute',1,[('Exprs',ES,'n.list')]),
 ('TERNARY','TernaryExpr','Ternary',0,[('Condition',E,'n.cond'),('Left',E,'n.left'),('Right',E,'n.right')]),
 ('BINARY','BinaryExpr','OpPos',0,[('Left',E,'n.left'),('Op','op',''),('Right',E,'n.right')]),
 ('NOT|MINUS|PLUS','UnaryExpr','OpPos',0,[('Op','op',''),('X',E,'n.left')]),
 ('SUBSCRIPT','SubscriptExpr','Lbrack',0,[('Left',E,'n.left'),('Right',E,'n.right')]),
 ('SLICE','SliceExpr','Lbrack',0,[('X',E,'n.left'),('Low',E,'n.rlist[0]'),('High',E,'n.rlist[1]')]),
 ('METHOD','MethodExpr','Lparen',0,[('Left',E,'n.left'),('Method',E,'n.right.left'),('Args',ES,'n.right.rlist')]),
 ('CALL','CallExpr','Lparen',0,[('Fun',E,'n.left'),('Args',ES,'n.rlist')]),
 ('DOT','DotExpr','Dot',0,[('Left',E,'n.left'),('Right','node','n.right')]),
 ('NUMBER','BasicLit','ValuePos',0,[('Kind','kind','NUMBER'),('Value','vstr','')]),
 ('STRING','BasicLit','ValuePos',0,[('Kind','kind','STRING'),('Value','vstr','')]),
 ('OPTION','BasicLit','ValuePos',0,[('Kind','kind','OPTION'),('Value','vstr','')]),
 ('ENV','BasicLit','ValuePos',0,[('Kind','kind','ENV'),('Value','vstr','')]),
 ('REG','BasicLit','ValuePos',0,[('Kind','kind','REG'),('Value','vstr','')]),
 ('BLOB','BasicLit','ValuePos',0,[('Kind','kind','BLOB'),('Value','vstr','')]),
 ('LIST','List','Lsquare',0,[('Values','values','')]),
 ('DICT','Dict','Lcurlybrace',0,[('Entries','dict','')]),
 ('IDENTIFIER','Ident','NamePos',0,[('Name','vstr','')]),
 ('CURLYNAME','CurlyName','CurlyName',0,[('Parts','parts','')]),
 ('CURLYNAMEPART','CurlyNameLit','CurlyNameLit',0,[('Value','vstr','')]),
 ('CURLYNAMEEXPR','CurlyNameExpr','CurlyNameExpr',0,[('Value','vnode','')]),
 ('LAMBDA','LambdaExpr','Lcurlybrace',0,[('Params','idents','rlist'),('Expr',E,'n.left')]),
 ('PARENEXPR','ParenExpr','Lparen',0,[('X','vnode','')]),
 ('HEREDOC','HeredocExpr','OpPos',0,[('Flags',ES,'n.rlist'),('EndMarker',S,'n.op'),('Body',ES,'n.body')]),
]
OPS = dict(OR='OROR',AND='ANDAND',EQUAL='EQEQ',EQUALCI='EQEQCI',EQUALCS='EQEQCS',NEQUAL='NEQ',NEQUALCI='NEQCI',NEQUALCS='NEQCS',GREATER='GT',GREATERCI='GTCI',GREATERCS='GTCS',GEQUAL='GTEQ',GEQUALCI='GTEQCI',GEQUALCS='GTEQCS',SMALLER='LT',SMALLERCI='LTCI',SMALLERCS='LTCS',SEQUAL='LTEQ',SEQUALCI='LTEQCI',SEQUALCS='LTEQCS',MATCH='MATCH',MATCHCI='MATCHCI',MATCHCS='MATCHCS',NOMATCH='NOMATCH',NOMATCHCI='NOMATCHCI',NOMATCHCS='NOMATCHCS',IS='IS',ISCI='ISCI',ISCS='ISCS',ISNOT='ISNOT',ISNOTCI='ISNOTCI',ISNOTCS='ISNOTCS',ADD='PLUS',SUBTRACT='MINUS',CONCAT='DOT',MULTIPLY='STAR',DIVIDE='SLASH',REMAINDER='PERCENT')
UN = dict(NOT='NOT',MINUS='MINUS',PLUS='PLUS')
EXPRS = ['TERNARY','SUBSCRIPT','SLICE','METHOD','CALL','DOT','NUMBER','STRING','LIST','DICT','OPTION','IDENTIFIER','CURLYNAME','CURLYNAMEPART','CURLYNAMEEXPR','ENV','REG','LAMBDA','BLOB','HEREDOC','PARENEXPR']
STMTS = ['COMMENT','EXCMD','FUNCTION','ENDFUNCTION','DELFUNCTION','RETURN','EXCALL','LET','CONST','UNLET','LOCKVAR','UNLOCKVAR','IF','ELSEIF','ELSE','ENDIF','WHILE','ENDWHILE','FOR','ENDFOR','CONTINUE','BREAK','TRY','CATCH','FINALLY','ENDTRY','THROW','EVAL','ECHO','ECHON','ECHOMSG','ECHOERR','ECHOHL','EXECUTE']
o = []
w = o.append
w('''// Generated by tools/gen_export.py.
// C12: what the public tree is made of.  Img(n, fn, x): x is the image of the
// internal node n under the file name fn; by definition it is what the
// conversion returns, and the contract of the conversion says what that is.
package go
safety C01

ufun Img(n *VimNode, fn string, x any) bool
spec im(n *VimNode, fn string, x any) bool = ite(n == nil, tag(x) == 0, tag(x) != 0 && Img(n, fn, x))
''')
def isset(name, l): w('spec %s(t int) bool = t in set(%s)' % (name, ', '.join('NODE_'+x for x in l)))
isset('isbinary', OPS); isset('isunary', UN); isset('isother', EXPRS); isset('isstmt', STMTS)
w('spec isexpr(t int) bool = isbinary(t) || isunary(t) || isother(t)')
w('spec knownty(t int) bool = isexpr(t) || isstmt(t) || t == NODE_TOPLEVEL')
s = '0 - 1'
tok = 'token.ILLEGAL'
for k, v in reversed(list(OPS.items()) + list(UN.items())): tok = 'ite(t == NODE_%s, token.%s, %s)' % (k, v, tok)
w('spec optok(t int) int = ' + tok)
w('''
spec posV(p ast.Pos, q *pos, fn string) bool = p.Filename == fn && ite(q == nil, p.Offset == 0 && p.Line == 1 && p.Column == 1, p.Offset == q.offset && p.Line == q.lnum && p.Column == q.col)
spec posP(p *ast.Pos, q *pos, fn string) bool = ite(q == nil, p == nil, p != nil && p.Filename == fn && p.Offset == q.offset && p.Line == q.lnum && p.Column == q.col)
spec cmdP(x *ast.Cmd, c *Cmd) bool = ite(c == nil, x == nil, x != nil && x.Name == c.name && x.Minlen == c.minlen && x.Flags == c.flags && x.Parser == c.parser)
spec exA(x ast.ExArg, e *ExArg, fn string) bool = x.Forceit == e.forceit && x.AddrCount == e.addr_count && x.Line1 == e.line1 && x.Line2 == e.line2 && x.Flags == e.flags && x.DoEcmdCmd == e.do_ecmd_cmd && x.DoEcmdLnum == e.do_ecmd_lnum && x.Append == e.append && x.Usefilter == e.usefilter && x.Amount == e.amount && x.Regname == e.regname && x.ForceBin == e.force_bin && x.ReadEdit == e.read_edit && x.ForceFf == e.force_ff && x.ForceEnc == e.force_enc && x.BadChar == e.bad_char && posP(x.Linepos, e.linepos, fn) && posP(x.Cmdpos, e.cmdpos, fn) && posP(x.Argpos, e.argpos, fn) && cmdP(x.Cmd, e.cmd) && seqeq(x.Modifiers, e.modifiers) && seqeq(x.Range, e.range_) && x.Argopt == e.argopt && x.Argcmd == e.argcmd
spec attrV(x ast.FuncAttr, a *FuncAttr) bool = ite(a == nil, !x.Range && !x.Abort && !x.Dict && !x.Closure, x.Range == a.range_ && x.Abort == a.abort && x.Dict == a.dict && x.Closure == a.closure)
spec imE(xs []*VimNode, fn string, l []ast.Expr, k int) bool = len(l) == k && (forall i int :: {l[i]} 0 <= i && i < k ==> im(xs[i], fn, l[i]))
spec imS(xs []*VimNode, fn string, l []ast.Statement, k int) bool = len(l) == k && (forall i int :: {l[i]} 0 <= i && i < k ==> im(xs[i], fn, l[i]))
spec imI(xs []*VimNode, fn string, l []*ast.Ident, k int) bool = len(l) == k && (forall i int :: {l[i]} 0 <= i && i < k ==> l[i] != nil && Img(xs[i], fn, iface(l[i])))
spec imEI(xs []*VimNode, fn string, l []*ast.ElseIf, k int) bool = len(l) == k && (forall i int :: {l[i]} 0 <= i && i < k ==> l[i] != nil && Img(xs[i], fn, iface(l[i])))
spec imC(xs []*VimNode, fn string, l []*ast.Catch, k int) bool = len(l) == k && (forall i int :: {l[i]} 0 <= i && i < k ==> l[i] != nil && Img(xs[i], fn, iface(l[i])))
spec imP(xs []*VimNode, fn string, l []ast.CurlyNamePart, k int) bool = len(l) == k && (forall i int :: {l[i]} 0 <= i && i < k ==> im(xs[i], fn, l[i]))
spec imV(xs []any, fn string, l []ast.Expr, k int) bool = len(l) == k && (forall i int :: {l[i]} 0 <= i && i < k ==> im(as(xs[i], *VimNode), fn, l[i]))
spec imD(xs []any, fn string, l []ast.KeyValue, k int) bool = len(l) == k && (forall i int :: {l[i]} 0 <= i && i < k ==> im(as(as(xs[i], []any)[0], *VimNode), fn, l[i].Key) && im(as(as(xs[i], []any)[1], *VimNode), fn, l[i].Value))
candidate [C12] i int, xs []*VimNode, fn string, l []ast.Expr : i + 1 <= len(xs) && i >= 0 - 1 && imE(xs, fn, l, i + 1)
candidate [C12] i int, xs []*VimNode, fn string, l []ast.Statement : i + 1 <= len(xs) && i >= 0 - 1 && imS(xs, fn, l, i + 1)
candidate [C12] i int, xs []*VimNode, fn string, l []*ast.Ident : i + 1 <= len(xs) && i >= 0 - 1 && imI(xs, fn, l, i + 1)
candidate [C12] i int, xs []*VimNode, fn string, l []*ast.ElseIf : i + 1 <= len(xs) && i >= 0 - 1 && imEI(xs, fn, l, i + 1)
candidate [C12] i int, xs []*VimNode, fn string, l []*ast.Catch : i + 1 <= len(xs) && i >= 0 - 1 && imC(xs, fn, l, i + 1)
candidate [C12] i int, xs []*VimNode, fn string, l []ast.CurlyNamePart : i + 1 <= len(xs) && i >= 0 - 1 && imP(xs, fn, l, i + 1)
candidate [C12] i int, xs []any, fn string, l []ast.Expr : i + 1 <= len(xs) && i >= 0 - 1 && imV(xs, fn, l, i + 1)
candidate [C12] i int, xs []any, fn string, l []ast.KeyValue : i + 1 <= len(xs) && i >= 0 - 1 && imD(xs, fn, l, i + 1)
''')
def cond(k):
    if k == 'BINARY': return 'isbinary(n.type_)'
    return ' || '.join('n.type_ == NODE_'+x for x in k.split('|')) if '|' not in k else 'n.type_ in set(%s)' % ', '.join('NODE_'+x for x in k.split('|'))
def fld(typ, f):
    name, kind, src = f
    x = 'as(r, *ast.%s).%s' % (typ, name)
    return {
     'str': lambda: '%s == %s' % (x, src),
     'expr': lambda: 'im(%s, fn, %s)' % (src, x),
     'exprs': lambda: 'imE(%s, fn, %s, len(%s))' % (src, x, src),
     'body': lambda: 'imS(n.body, fn, %s, len(n.body))' % x,
     'idents': lambda: 'imI(n.rlist, fn, %s, len(n.rlist))' % x,
     'node': lambda: 'ite(%s == nil, %s == nil, %s != nil && Img(%s, fn, iface(%s)))' % (src, x, x, src, x),
     'nodes': lambda: '%s(%s, fn, %s, len(%s))' % ({'ElseIf':'imEI','Catch':'imC'}[name], src, x, src),
     'attr': lambda: 'attrV(%s, n.attr)' % x,
     'op': lambda: '%s == optok(n.type_)' % x,
     'kind': lambda: '%s == token.%s' % (x, src),
     'vstr': lambda: '%s == as(n.value, string)' % x,
     'vnode': lambda: 'im(as(n.value, *VimNode), fn, %s)' % x,
     'values': lambda: 'imV(as(n.value, []any), fn, %s, len(as(n.value, []any)))' % x,
     'dict': lambda: 'imD(as(n.value, []any), fn, %s, len(as(n.value, []any)))' % x,
     'parts': lambda: 'imP(as(n.value, []*VimNode), fn, %s, len(as(n.value, []*VimNode)))' % x,
    }[kind]()
w('func newAstNode(n, fn) -> r')
w('  requires [C01] n != nil ==> knownty(n.type_)')
w('  modifies [C12 C01] nothing')
w('  ensures [C12 C01] n == nil ==> tag(r) == 0')
w('  ensures [C12 C01] n != nil ==> tag(r) != 0')
w('  ensures [C12 C01] n != nil && isexpr(n.type_) ==> implements(r, ast.Expr)')
w('  ensures [C12 C01] n != nil && isstmt(n.type_) ==> implements(r, ast.Statement)')
w('  summary n != nil ==> Img(n, fn, r)')
byt = {}
for k, typ, p, ea, fs in T:
    w('  ensures [C12 C01] n != nil && %s ==> tagis(r, *ast.%s) && payload(r) != 0' % (cond(k), typ))
for k, typ, p, ea, fs in T:
    c = cond(k)
    w('  unfolds [C12] n != nil && %s ==> posV(as(r, *ast.%s).%s, n.pos, fn)' % (c, typ, p))
    if ea: w('  unfolds [C12] n != nil && %s ==> exA(as(r, *ast.%s).ExArg, n.ea, fn)' % (c, typ))
    for f in fs: w('  unfolds [C12] n != nil && %s ==> %s' % (c, fld(typ, f)))
w('''
func newExprNode(n, fn) -> r
  requires [C01] n != nil ==> isexpr(n.type_)
  modifies [C12 C01] nothing
  ensures [C12] im(n, fn, r)

func newExprs(xs, fn) -> l
  requires [C01] forall i int :: {xs[i]} 0 <= i && i < len(xs) ==> xs[i] != nil && isexpr(xs[i].type_)
  modifies [C12 C01] nothing
  ensures [C12] imE(xs, fn, l, len(xs))

func newBody(n, fn) -> l
  requires [C01] forall i int :: {n.body[i]} 0 <= i && i < len(n.body) ==> n.body[i] != nil && isstmt(n.body[i].type_)
  modifies [C12 C01] nothing
  ensures [C12] imS(n.body, fn, l, len(n.body))

func newIdents(n, fn) -> l
  requires [C01] forall i int :: {n.rlist[i]} 0 <= i && i < len(n.rlist) ==> n.rlist[i] != nil && n.rlist[i].type_ == NODE_IDENTIFIER
  modifies [C12 C01] nothing
  ensures [C12] imI(n.rlist, fn, l, len(n.rlist))

func newValues(n, fn) -> l
  requires [C01] tagis(n.value, []any) && (forall i int :: {as(n.value, []any)[i]} 0 <= i && i < len(as(n.value, []any)) ==> tagis(as(n.value, []any)[i], *VimNode) && isexpr(as(as(n.value, []any)[i], *VimNode).type_))
  modifies [C12 C01] nothing
  ensures [C12] imV(as(n.value, []any), fn, l, len(as(n.value, []any)))

gvar $parsed *VimNode
gvar $parsedname string

func VimLParser.parse(p, reader) -> n
  summary n != nil && n.type_ == NODE_TOPLEVEL && $parsed == n

func ExprParser.parse(p) -> n
  summary n != nil && isexpr(n.type_) && $parsed == n

func VimLParser.Parse(p, reader, fn) -> r
  ensures [C12] im($parsed, fn, r) && tagis(r, *ast.File)
  summary $parsedname == fn && $parsed != nil && tagis(r, *ast.File)

func ExprParser.Parse(p) -> r
  ensures [C12] im($parsed, "", r)
  summary $parsed != nil
''')
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts', 'go_export.vc'), 'w').write('\n'.join(o) + '\n')
