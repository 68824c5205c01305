// C13: walking a tree.  The trace is a history of events: evV(t, v, n) is t
// followed by the call v.Visit(n); evW(t, v, n) is t followed by everything
// that Walk(v, n) does.
package ast
safety C13

gvar $trace int
gvar $ftrace int
ufun evV(t int, v Visitor, n Node) int
ufun evW(t int, v Visitor, n Node) int
ufun visres(t int, v Visitor, n Node) Visitor
ufun evF(t int, f func(Node) bool, n Node) int
ufun fres(t int, f func(Node) bool, n Node) bool

// one optional child
spec w1(t int, v Visitor, x Node) int = ite(tag(x) == 0, t, evW(t, v, x))

// the events of walking the first k elements of a list
ufun wlS(t int, v Visitor, l []Statement, k int) int
ufun wlE(t int, v Visitor, l []Expr, k int) int
ufun wlI(t int, v Visitor, l []*Ident, k int) int
ufun wlEI(t int, v Visitor, l []*ElseIf, k int) int
ufun wlC(t int, v Visitor, l []*Catch, k int) int
ufun wlP(t int, v Visitor, l []CurlyNamePart, k int) int
ufun wlD(t int, v Visitor, l []KeyValue, k int) int
axiom wlS_0: forall t int, v Visitor, l []Statement :: {wlS(t, v, l, 0)} wlS(t, v, l, 0) == t
axiom wlS_s: forall t int, v Visitor, l []Statement, k int :: {wlS(t, v, l, k), l[k]} 0 <= k ==> wlS(t, v, l, k + 1) == w1(wlS(t, v, l, k), v, l[k])
spec allS(t int, v Visitor, l []Statement) int = wlS(t, v, l, len(l))
candidate [C13] i int, v Visitor, l []Statement : $trace == wlS(loopold($trace), v, l, i + 1) && i + 1 <= len(l) && i >= 0 - 1
candidate [C13] i int, v Visitor, l []Statement : $trace == wlS(loopold($trace), v, l, i) && i <= len(l) && i >= 0

axiom wlE_0: forall t int, v Visitor, l []Expr :: {wlE(t, v, l, 0)} wlE(t, v, l, 0) == t
axiom wlE_s: forall t int, v Visitor, l []Expr, k int :: {wlE(t, v, l, k), l[k]} 0 <= k ==> wlE(t, v, l, k + 1) == w1(wlE(t, v, l, k), v, l[k])
spec allE(t int, v Visitor, l []Expr) int = wlE(t, v, l, len(l))
candidate [C13] i int, v Visitor, l []Expr : $trace == wlE(loopold($trace), v, l, i + 1) && i + 1 <= len(l) && i >= 0 - 1
candidate [C13] i int, v Visitor, l []Expr : $trace == wlE(loopold($trace), v, l, i) && i <= len(l) && i >= 0

axiom wlI_0: forall t int, v Visitor, l []*Ident :: {wlI(t, v, l, 0)} wlI(t, v, l, 0) == t
axiom wlI_s: forall t int, v Visitor, l []*Ident, k int :: {wlI(t, v, l, k), l[k]} 0 <= k ==> wlI(t, v, l, k + 1) == evW(wlI(t, v, l, k), v, iface(l[k]))
spec allI(t int, v Visitor, l []*Ident) int = wlI(t, v, l, len(l))
candidate [C13] i int, v Visitor, l []*Ident : $trace == wlI(loopold($trace), v, l, i + 1) && i + 1 <= len(l) && i >= 0 - 1
candidate [C13] i int, v Visitor, l []*Ident : $trace == wlI(loopold($trace), v, l, i) && i <= len(l) && i >= 0

axiom wlEI_0: forall t int, v Visitor, l []*ElseIf :: {wlEI(t, v, l, 0)} wlEI(t, v, l, 0) == t
axiom wlEI_s: forall t int, v Visitor, l []*ElseIf, k int :: {wlEI(t, v, l, k), l[k]} 0 <= k ==> wlEI(t, v, l, k + 1) == evW(wlEI(t, v, l, k), v, iface(l[k]))
spec allEI(t int, v Visitor, l []*ElseIf) int = wlEI(t, v, l, len(l))
candidate [C13] i int, v Visitor, l []*ElseIf : $trace == wlEI(loopold($trace), v, l, i + 1) && i + 1 <= len(l) && i >= 0 - 1
candidate [C13] i int, v Visitor, l []*ElseIf : $trace == wlEI(loopold($trace), v, l, i) && i <= len(l) && i >= 0

axiom wlC_0: forall t int, v Visitor, l []*Catch :: {wlC(t, v, l, 0)} wlC(t, v, l, 0) == t
axiom wlC_s: forall t int, v Visitor, l []*Catch, k int :: {wlC(t, v, l, k), l[k]} 0 <= k ==> wlC(t, v, l, k + 1) == evW(wlC(t, v, l, k), v, iface(l[k]))
spec allC(t int, v Visitor, l []*Catch) int = wlC(t, v, l, len(l))
candidate [C13] i int, v Visitor, l []*Catch : $trace == wlC(loopold($trace), v, l, i + 1) && i + 1 <= len(l) && i >= 0 - 1
candidate [C13] i int, v Visitor, l []*Catch : $trace == wlC(loopold($trace), v, l, i) && i <= len(l) && i >= 0

axiom wlP_0: forall t int, v Visitor, l []CurlyNamePart :: {wlP(t, v, l, 0)} wlP(t, v, l, 0) == t
axiom wlP_s: forall t int, v Visitor, l []CurlyNamePart, k int :: {wlP(t, v, l, k), l[k]} 0 <= k ==> wlP(t, v, l, k + 1) == w1(wlP(t, v, l, k), v, l[k])
spec allP(t int, v Visitor, l []CurlyNamePart) int = wlP(t, v, l, len(l))
candidate [C13] i int, v Visitor, l []CurlyNamePart : $trace == wlP(loopold($trace), v, l, i + 1) && i + 1 <= len(l) && i >= 0 - 1
candidate [C13] i int, v Visitor, l []CurlyNamePart : $trace == wlP(loopold($trace), v, l, i) && i <= len(l) && i >= 0

axiom wlD_0: forall t int, v Visitor, l []KeyValue :: {wlD(t, v, l, 0)} wlD(t, v, l, 0) == t
axiom wlD_s: forall t int, v Visitor, l []KeyValue, k int :: {wlD(t, v, l, k), l[k]} 0 <= k ==> wlD(t, v, l, k + 1) == w1(w1(wlD(t, v, l, k), v, l[k].Key), v, l[k].Value)
spec allD(t int, v Visitor, l []KeyValue) int = wlD(t, v, l, len(l))
candidate [C13] i int, v Visitor, l []KeyValue : $trace == wlD(loopold($trace), v, l, i + 1) && i + 1 <= len(l) && i >= 0 - 1
candidate [C13] i int, v Visitor, l []KeyValue : $trace == wlD(loopold($trace), v, l, i) && i <= len(l) && i >= 0


spec wp(t int, v Visitor, isnil bool, x Node) int = ite(isnil, t, evW(t, v, x))

// the children of each kind of node, in order
spec kidsFile(t int, v Visitor, n *File) int = allS(t, v, n.Body)
spec kidsComment(t int, v Visitor, n *Comment) int = t
spec kidsExcmd(t int, v Visitor, n *Excmd) int = t
spec kidsFunction(t int, v Visitor, n *Function) int = wp(allS(allE(allI(w1(t, v, n.Name), v, n.Params), v, n.DefaultArgs), v, n.Body), v, n.EndFunction == nil, iface(n.EndFunction))
spec kidsEndFunction(t int, v Visitor, n *EndFunction) int = t
spec kidsDelFunction(t int, v Visitor, n *DelFunction) int = w1(t, v, n.Name)
spec kidsReturn(t int, v Visitor, n *Return) int = w1(t, v, n.Result)
spec kidsExCall(t int, v Visitor, n *ExCall) int = wp(t, v, n.FuncCall == nil, iface(n.FuncCall))
spec kidsLet(t int, v Visitor, n *Let) int = w1(w1(allE(w1(t, v, n.Left), v, n.List), v, n.Rest), v, n.Right)
spec kidsUnLet(t int, v Visitor, n *UnLet) int = allE(t, v, n.List)
spec kidsLockVar(t int, v Visitor, n *LockVar) int = allE(t, v, n.List)
spec kidsUnLockVar(t int, v Visitor, n *UnLockVar) int = allE(t, v, n.List)
spec kidsIf(t int, v Visitor, n *If) int = wp(wp(allEI(allS(w1(t, v, n.Condition), v, n.Body), v, n.ElseIf), v, n.Else == nil, iface(n.Else)), v, n.EndIf == nil, iface(n.EndIf))
spec kidsElseIf(t int, v Visitor, n *ElseIf) int = allS(w1(t, v, n.Condition), v, n.Body)
spec kidsElse(t int, v Visitor, n *Else) int = allS(t, v, n.Body)
spec kidsEndIf(t int, v Visitor, n *EndIf) int = t
spec kidsWhile(t int, v Visitor, n *While) int = wp(allS(w1(t, v, n.Condition), v, n.Body), v, n.EndWhile == nil, iface(n.EndWhile))
spec kidsEndWhile(t int, v Visitor, n *EndWhile) int = t
spec kidsFor(t int, v Visitor, n *For) int = wp(allS(w1(w1(allE(w1(t, v, n.Left), v, n.List), v, n.Rest), v, n.Right), v, n.Body), v, n.EndFor == nil, iface(n.EndFor))
spec kidsEndFor(t int, v Visitor, n *EndFor) int = t
spec kidsContinue(t int, v Visitor, n *Continue) int = t
spec kidsBreak(t int, v Visitor, n *Break) int = t
spec kidsTry(t int, v Visitor, n *Try) int = wp(wp(allC(allS(t, v, n.Body), v, n.Catch), v, n.Finally == nil, iface(n.Finally)), v, n.EndTry == nil, iface(n.EndTry))
spec kidsCatch(t int, v Visitor, n *Catch) int = allS(t, v, n.Body)
spec kidsFinally(t int, v Visitor, n *Finally) int = allS(t, v, n.Body)
spec kidsEndTry(t int, v Visitor, n *EndTry) int = t
spec kidsThrow(t int, v Visitor, n *Throw) int = w1(t, v, n.Expr)
spec kidsEval(t int, v Visitor, n *Eval) int = w1(t, v, n.Expr)
spec kidsEchoCmd(t int, v Visitor, n *EchoCmd) int = allE(t, v, n.Exprs)
spec kidsEchohl(t int, v Visitor, n *Echohl) int = t
spec kidsExecute(t int, v Visitor, n *Execute) int = allE(t, v, n.Exprs)
spec kidsTernaryExpr(t int, v Visitor, n *TernaryExpr) int = w1(w1(w1(t, v, n.Condition), v, n.Left), v, n.Right)
spec kidsBinaryExpr(t int, v Visitor, n *BinaryExpr) int = w1(w1(t, v, n.Left), v, n.Right)
spec kidsUnaryExpr(t int, v Visitor, n *UnaryExpr) int = w1(t, v, n.X)
spec kidsSubscriptExpr(t int, v Visitor, n *SubscriptExpr) int = w1(w1(t, v, n.Left), v, n.Right)
spec kidsSliceExpr(t int, v Visitor, n *SliceExpr) int = w1(w1(w1(t, v, n.X), v, n.Low), v, n.High)
spec kidsMethodExpr(t int, v Visitor, n *MethodExpr) int = allE(w1(w1(t, v, n.Left), v, n.Method), v, n.Args)
spec kidsCallExpr(t int, v Visitor, n *CallExpr) int = allE(w1(t, v, n.Fun), v, n.Args)
spec kidsDotExpr(t int, v Visitor, n *DotExpr) int = wp(w1(t, v, n.Left), v, n.Right == nil, iface(n.Right))
spec kidsBasicLit(t int, v Visitor, n *BasicLit) int = t
spec kidsList(t int, v Visitor, n *List) int = allE(t, v, n.Values)
spec kidsDict(t int, v Visitor, n *Dict) int = allD(t, v, n.Entries)
spec kidsIdent(t int, v Visitor, n *Ident) int = t
spec kidsCurlyName(t int, v Visitor, n *CurlyName) int = allP(t, v, n.Parts)
spec kidsCurlyNameLit(t int, v Visitor, n *CurlyNameLit) int = t
spec kidsCurlyNameExpr(t int, v Visitor, n *CurlyNameExpr) int = w1(t, v, n.Value)
spec kidsLambdaExpr(t int, v Visitor, n *LambdaExpr) int = w1(allI(t, v, n.Params), v, n.Expr)
spec kidsParenExpr(t int, v Visitor, n *ParenExpr) int = w1(t, v, n.X)
spec kidsHeredocExpr(t int, v Visitor, n *HeredocExpr) int = allE(allE(t, v, n.Flags), v, n.Body)
spec kids(t int, v Visitor, n Node) int = ite(tagis(n, *File), kidsFile(t, v, as(n, *File)), ite(tagis(n, *Comment), kidsComment(t, v, as(n, *Comment)), ite(tagis(n, *Excmd), kidsExcmd(t, v, as(n, *Excmd)), ite(tagis(n, *Function), kidsFunction(t, v, as(n, *Function)), ite(tagis(n, *EndFunction), kidsEndFunction(t, v, as(n, *EndFunction)), ite(tagis(n, *DelFunction), kidsDelFunction(t, v, as(n, *DelFunction)), ite(tagis(n, *Return), kidsReturn(t, v, as(n, *Return)), ite(tagis(n, *ExCall), kidsExCall(t, v, as(n, *ExCall)), ite(tagis(n, *Let), kidsLet(t, v, as(n, *Let)), ite(tagis(n, *UnLet), kidsUnLet(t, v, as(n, *UnLet)), ite(tagis(n, *LockVar), kidsLockVar(t, v, as(n, *LockVar)), ite(tagis(n, *UnLockVar), kidsUnLockVar(t, v, as(n, *UnLockVar)), ite(tagis(n, *If), kidsIf(t, v, as(n, *If)), ite(tagis(n, *ElseIf), kidsElseIf(t, v, as(n, *ElseIf)), ite(tagis(n, *Else), kidsElse(t, v, as(n, *Else)), ite(tagis(n, *EndIf), kidsEndIf(t, v, as(n, *EndIf)), ite(tagis(n, *While), kidsWhile(t, v, as(n, *While)), ite(tagis(n, *EndWhile), kidsEndWhile(t, v, as(n, *EndWhile)), ite(tagis(n, *For), kidsFor(t, v, as(n, *For)), ite(tagis(n, *EndFor), kidsEndFor(t, v, as(n, *EndFor)), ite(tagis(n, *Continue), kidsContinue(t, v, as(n, *Continue)), ite(tagis(n, *Break), kidsBreak(t, v, as(n, *Break)), ite(tagis(n, *Try), kidsTry(t, v, as(n, *Try)), ite(tagis(n, *Catch), kidsCatch(t, v, as(n, *Catch)), ite(tagis(n, *Finally), kidsFinally(t, v, as(n, *Finally)), ite(tagis(n, *EndTry), kidsEndTry(t, v, as(n, *EndTry)), ite(tagis(n, *Throw), kidsThrow(t, v, as(n, *Throw)), ite(tagis(n, *Eval), kidsEval(t, v, as(n, *Eval)), ite(tagis(n, *EchoCmd), kidsEchoCmd(t, v, as(n, *EchoCmd)), ite(tagis(n, *Echohl), kidsEchohl(t, v, as(n, *Echohl)), ite(tagis(n, *Execute), kidsExecute(t, v, as(n, *Execute)), ite(tagis(n, *TernaryExpr), kidsTernaryExpr(t, v, as(n, *TernaryExpr)), ite(tagis(n, *BinaryExpr), kidsBinaryExpr(t, v, as(n, *BinaryExpr)), ite(tagis(n, *UnaryExpr), kidsUnaryExpr(t, v, as(n, *UnaryExpr)), ite(tagis(n, *SubscriptExpr), kidsSubscriptExpr(t, v, as(n, *SubscriptExpr)), ite(tagis(n, *SliceExpr), kidsSliceExpr(t, v, as(n, *SliceExpr)), ite(tagis(n, *MethodExpr), kidsMethodExpr(t, v, as(n, *MethodExpr)), ite(tagis(n, *CallExpr), kidsCallExpr(t, v, as(n, *CallExpr)), ite(tagis(n, *DotExpr), kidsDotExpr(t, v, as(n, *DotExpr)), ite(tagis(n, *BasicLit), kidsBasicLit(t, v, as(n, *BasicLit)), ite(tagis(n, *List), kidsList(t, v, as(n, *List)), ite(tagis(n, *Dict), kidsDict(t, v, as(n, *Dict)), ite(tagis(n, *Ident), kidsIdent(t, v, as(n, *Ident)), ite(tagis(n, *CurlyName), kidsCurlyName(t, v, as(n, *CurlyName)), ite(tagis(n, *CurlyNameLit), kidsCurlyNameLit(t, v, as(n, *CurlyNameLit)), ite(tagis(n, *CurlyNameExpr), kidsCurlyNameExpr(t, v, as(n, *CurlyNameExpr)), ite(tagis(n, *LambdaExpr), kidsLambdaExpr(t, v, as(n, *LambdaExpr)), ite(tagis(n, *ParenExpr), kidsParenExpr(t, v, as(n, *ParenExpr)), ite(tagis(n, *HeredocExpr), kidsHeredocExpr(t, v, as(n, *HeredocExpr)), t)))))))))))))))))))))))))))))))))))))))))))))))))
spec known(n Node) bool = tagis(n, *File) || tagis(n, *Comment) || tagis(n, *Excmd) || tagis(n, *Function) || tagis(n, *EndFunction) || tagis(n, *DelFunction) || tagis(n, *Return) || tagis(n, *ExCall) || tagis(n, *Let) || tagis(n, *UnLet) || tagis(n, *LockVar) || tagis(n, *UnLockVar) || tagis(n, *If) || tagis(n, *ElseIf) || tagis(n, *Else) || tagis(n, *EndIf) || tagis(n, *While) || tagis(n, *EndWhile) || tagis(n, *For) || tagis(n, *EndFor) || tagis(n, *Continue) || tagis(n, *Break) || tagis(n, *Try) || tagis(n, *Catch) || tagis(n, *Finally) || tagis(n, *EndTry) || tagis(n, *Throw) || tagis(n, *Eval) || tagis(n, *EchoCmd) || tagis(n, *Echohl) || tagis(n, *Execute) || tagis(n, *TernaryExpr) || tagis(n, *BinaryExpr) || tagis(n, *UnaryExpr) || tagis(n, *SubscriptExpr) || tagis(n, *SliceExpr) || tagis(n, *MethodExpr) || tagis(n, *CallExpr) || tagis(n, *DotExpr) || tagis(n, *BasicLit) || tagis(n, *List) || tagis(n, *Dict) || tagis(n, *Ident) || tagis(n, *CurlyName) || tagis(n, *CurlyNameLit) || tagis(n, *CurlyNameExpr) || tagis(n, *LambdaExpr) || tagis(n, *ParenExpr) || tagis(n, *HeredocExpr)

// lists of pointers hold no nil
inv [C12 C13] Function n: forall i int :: {n.Params[i]} 0 <= i && i < len(n.Params) ==> n.Params[i] != nil
inv [C12 C13] LambdaExpr n: forall i int :: {n.Params[i]} 0 <= i && i < len(n.Params) ==> n.Params[i] != nil
inv [C12 C13] If n: forall i int :: {n.ElseIf[i]} 0 <= i && i < len(n.ElseIf) ==> n.ElseIf[i] != nil
inv [C12 C13] Try n: forall i int :: {n.Catch[i]} 0 <= i && i < len(n.Catch) ==> n.Catch[i] != nil

// the visitor is arbitrary: what it returns is a function of the history
invoke Visitor.Visit(v, n) -> w
  modifies $trace
  ensures $trace == evV(old($trace), v, n)
  ensures w == visres(old($trace), v, n)

func Walk(v, n)
  requires tag(v) != 0
  modifies $trace
  // for callers: one step of the history, by definition of evW
  summary $trace == ite(tag(n) == 0, old($trace), evW(old($trace), v, n))
  // what that step consists of
  unfolds [C13] tag(n) == 0 ==> $trace == old($trace)
  unfolds [C13] tag(n) != 0 && tag(visres(old($trace), v, n)) == 0 ==> $trace == evV(old($trace), v, n)
  unfolds [C13] tag(n) != 0 && known(n) && tag(visres(old($trace), v, n)) != 0 ==> $trace == evV(kids(evV(old($trace), v, n), visres(old($trace), v, n), n), visres(old($trace), v, n), nil)
  panics e : tag(n) != 0 && !known(n)

invoke func func(ast.Node) bool(f, n) -> r
  modifies $ftrace
  ensures $ftrace == evF(old($ftrace), f, n)
  ensures r == fres(old($ftrace), f, n)

func inspector.Visit(f, n) -> w
  modifies $ftrace
  ensures [C13] tag(n) == 0 ==> tag(w) == 0 && $ftrace == old($ftrace)
  ensures [C13] tag(n) != 0 ==> $ftrace == evF(old($ftrace), f, n)
  ensures [C13] tag(n) != 0 ==> w == ite(fres(old($ftrace), f, n), mkiface(f, inspector), nil)

func Inspect(n, f)
  modifies $trace
  ensures [C13] $trace == ite(tag(n) == 0, old($trace), evW(old($trace), mkiface(f, inspector), n))
