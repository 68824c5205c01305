// C06: how tightly each kind of node binds, and what may stand below it without
// parentheses, brackets, braces or call arguments of its own.
package go
frozen VimNode.type_
frozen VimNode.left
grows ExArg.cmd

spec lvl(t int) int = ite(t == NODE_TERNARY, 1, ite(t == NODE_OR, 2, ite(t == NODE_AND, 3,
  ite(t in set(NODE_EQUAL, NODE_EQUALCI, NODE_EQUALCS, NODE_NEQUAL, NODE_NEQUALCI, NODE_NEQUALCS, NODE_GREATER, NODE_GREATERCI, NODE_GREATERCS, NODE_GEQUAL, NODE_GEQUALCI, NODE_GEQUALCS, NODE_SMALLER, NODE_SMALLERCI, NODE_SMALLERCS, NODE_SEQUAL, NODE_SEQUALCI, NODE_SEQUALCS, NODE_MATCH, NODE_MATCHCI, NODE_MATCHCS, NODE_NOMATCH, NODE_NOMATCHCI, NODE_NOMATCHCS, NODE_IS, NODE_ISCI, NODE_ISCS, NODE_ISNOT, NODE_ISNOTCI, NODE_ISNOTCS), 4,
  ite(t in set(NODE_ADD, NODE_SUBTRACT, NODE_CONCAT), 5,
  ite(t in set(NODE_MULTIPLY, NODE_DIVIDE, NODE_REMAINDER), 6,
  ite(t in set(NODE_NOT, NODE_MINUS, NODE_PLUS), 7,
  ite(t in set(NODE_SUBSCRIPT, NODE_SLICE, NODE_METHOD, NODE_CALL, NODE_DOT), 8, 9))))))))

// ?: associates to the right, comparisons do not chain, the others associate to
// the left
inv [C06] VimNode n: n.type_ == NODE_TERNARY ==> n.cond != nil && n.left != nil && n.right != nil && lvl(n.cond.type_) >= 2
inv [C06] VimNode n: lvl(n.type_) in set(2, 3, 5, 6) ==> n.left != nil && n.right != nil && lvl(n.left.type_) >= lvl(n.type_) && lvl(n.right.type_) > lvl(n.type_)
inv [C06] VimNode n: lvl(n.type_) == 4 ==> n.left != nil && n.right != nil && lvl(n.left.type_) >= 5 && lvl(n.right.type_) >= 5
inv [C06] VimNode n: lvl(n.type_) == 7 ==> n.left != nil && lvl(n.left.type_) >= 7
inv [C06] VimNode n: lvl(n.type_) == 8 ==> n.left != nil && lvl(n.left.type_) >= 8
inv [C06] VimNode n: n.type_ == NODE_METHOD ==> n.right != nil && n.right.type_ == NODE_CALL && n.right.left != nil && lvl(n.right.left.type_) == 9

// What follows an expression of a level is no operator of that level or of a
// tighter one: an operand takes every operator that belongs to it.  (The "."
// after an operand may be the concatenation of level 5 only.)
inv [C06] ExprParser p: p.tokenizer != nil ==> p.tokenizer.reader == p.reader
spec nxt(p *ExprParser) int = tty(p.reader.buf, whe(p.reader.buf, p.reader.i))
spec iscmp(t int) bool = t in set(TOKEN_EQEQ, TOKEN_EQEQCI, TOKEN_EQEQCS, TOKEN_NEQ, TOKEN_NEQCI, TOKEN_NEQCS, TOKEN_GT, TOKEN_GTCI, TOKEN_GTCS, TOKEN_GTEQ, TOKEN_GTEQCI, TOKEN_GTEQCS, TOKEN_LT, TOKEN_LTCI, TOKEN_LTCS, TOKEN_LTEQ, TOKEN_LTEQCI, TOKEN_LTEQCS, TOKEN_MATCH, TOKEN_MATCHCI, TOKEN_MATCHCS, TOKEN_NOMATCH, TOKEN_NOMATCHCI, TOKEN_NOMATCHCS, TOKEN_IS, TOKEN_ISCI, TOKEN_ISCS, TOKEN_ISNOT, TOKEN_ISNOTCI, TOKEN_ISNOTCS)
spec stop8(p *ExprParser) bool = !(nxt(p) in set(TOKEN_ARROW, TOKEN_POPEN)) && !(nxt(p) == TOKEN_SQOPEN && whe(p.reader.buf, p.reader.i) == p.reader.i)
spec stop6(p *ExprParser) bool = stop8(p) && !(nxt(p) in set(TOKEN_STAR, TOKEN_SLASH, TOKEN_PERCENT))
spec stop5(p *ExprParser) bool = stop6(p) && !(nxt(p) in set(TOKEN_PLUS, TOKEN_MINUS, TOKEN_DOTDOT, TOKEN_DOT))
spec stop4(p *ExprParser, t int) bool = stop5(p) && (lvl(t) <= 4 || !iscmp(nxt(p)))
spec stop3(p *ExprParser, t int) bool = stop4(p, t) && nxt(p) != TOKEN_ANDAND
spec stop2(p *ExprParser, t int) bool = stop3(p, t) && nxt(p) != TOKEN_OROR

func ExprParser.parse_expr1(self) -> r
  ensures [C06] r != nil
  ensures [C06] stop2(self, r.type_) && nxt(self) != TOKEN_QUESTION
func ExprParser.parse_expr2(self) -> r
  ensures [C06] r != nil && lvl(r.type_) >= 2
  ensures [C06] stop2(self, r.type_)
  loopcand left *VimNode : stop3(self, left.type_)
func ExprParser.parse_expr3(self) -> r
  ensures [C06] r != nil && lvl(r.type_) >= 3
  ensures [C06] stop3(self, r.type_)
  loopcand left *VimNode : stop4(self, left.type_)
func ExprParser.parse_expr4(self) -> r
  ensures [C06] r != nil && lvl(r.type_) >= 4
  ensures [C06] stop4(self, r.type_)
func ExprParser.parse_expr5(self) -> r
  ensures [C06] r != nil && lvl(r.type_) >= 5
  ensures [C06] stop5(self)
  loopcand : stop6(self)
func ExprParser.parse_expr6(self) -> r
  ensures [C06] r != nil && lvl(r.type_) >= 6
  ensures [C06] stop6(self)
  loopcand : stop8(self)
func ExprParser.parse_expr7(self) -> r
  ensures [C06] r != nil && lvl(r.type_) >= 7
  ensures [C06] stop8(self)
func ExprParser.parse_expr8(self) -> r
  ensures [C06] r != nil && lvl(r.type_) >= 8
  ensures [C06] stop8(self)
func ExprParser.parse_expr9(self) -> r
  ensures [C06] r != nil && lvl(r.type_) == 9
func ExprParser.parse_identifier(self) -> r
  ensures [C06] r != nil && lvl(r.type_) == 9
func ExprTokenizer.parse_dict_literal_key(self) -> r
  ensures [C06] r != nil && lvl(r.type_) == 9
func LvalueParser.parse_lv8(self) -> r
  ensures [C06] r != nil && lvl(r.type_) >= 8
func LvalueParser.parse_lv9(self) -> r
  ensures [C06] r != nil && lvl(r.type_) == 9
func ExprParser.parse_dot(self, token, left) -> r
  requires [C06] left != nil && lvl(left.type_) >= 8
  ensures [C06] r != nil ==> lvl(r.type_) == 8
func ExprParser.parse_concat(self, token, left) -> r
  requires [C06] left != nil && lvl(left.type_) >= 5
  ensures [C06] r != nil ==> lvl(r.type_) == 5
candidate [C06] n *VimNode : n != nil && lvl(n.type_) >= 2
candidate [C06] n *VimNode : n != nil && lvl(n.type_) >= 3
candidate [C06] n *VimNode : n != nil && lvl(n.type_) >= 4
candidate [C06] n *VimNode : n != nil && lvl(n.type_) >= 5
candidate [C06] n *VimNode : n != nil && lvl(n.type_) >= 6
candidate [C06] n *VimNode : n != nil && lvl(n.type_) >= 8
