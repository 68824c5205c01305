// Functions of the parser that are verified on their own rather than within
// their callers.  What each promises is stated where the properties are.
package go

func ExprTokenizer.get(self) -> r
  ensures [C12, C13] r != nil
func ExprTokenizer.get2(self) -> r
  ensures [C12, C13] r != nil
func ExprTokenizer.peek(self) -> r
  ensures [C12, C13] r != nil
func ExprTokenizer.get_sstring(self) -> r
func ExprTokenizer.get_dstring(self) -> r
func ExprTokenizer.parse_dict_literal_key(self) -> r
  ensures [C12, C13] r != nil
func ExprParser.parse(self) -> n
func ExprParser.parse_expr1(self) -> r
  ensures [C12, C13] r != nil
func ExprParser.parse_expr2(self) -> r
  ensures [C12, C13] r != nil
func ExprParser.parse_expr3(self) -> r
  ensures [C12, C13] r != nil
func ExprParser.parse_expr4(self) -> r
  ensures [C12, C13] r != nil
func ExprParser.parse_expr5(self) -> r
  ensures [C12, C13] r != nil
func ExprParser.parse_expr6(self) -> r
  ensures [C12, C13] r != nil
func ExprParser.parse_expr7(self) -> r
  ensures [C12, C13] r != nil
func ExprParser.parse_expr8(self) -> r
  ensures [C12, C13] r != nil
func ExprParser.parse_expr9(self) -> r
  ensures [C12, C13] r != nil
func ExprParser.parse_rlist(self) -> r
func ExprParser.parse_dot(self, token, left) -> r
func ExprParser.parse_concat(self, token, left) -> r
func ExprParser.parse_identifier(self) -> r
  ensures [C12, C13] r != nil
func ExprParser.parse_curly_parts(self) -> r
func LvalueParser.parse(self) -> r
  ensures [C12, C13] r != nil
func LvalueParser.parse_lv8(self) -> r
  ensures [C12, C13] r != nil
func LvalueParser.parse_lv9(self) -> r
  ensures [C12, C13] r != nil
func VimLParser.parse_one_cmd(self)
func VimLParser.parse_command_modifiers(self)
func VimLParser.parse_range(self)
func VimLParser.parse_pattern(self, delimiter) -> p, q
func VimLParser.parse_argopt(self)
func VimLParser.parse_argcmd(self)
func VimLParser.parse_comment(self)
func VimLParser.parse_trail(self)
func VimLParser.separate_nextcmd(self) -> r
func VimLParser.skip_vimgrep_pat(self)
func VimLParser.parse_heredoc(self) -> r
func VimLParser.parse_exprlist(self) -> r
func VimLParser.parse_lvalue_func(self) -> r
func VimLParser.parse_lvalue(self) -> r
func VimLParser.parse_constlvalue(self) -> r
func VimLParser.parse_lvaluelist(self) -> r
func VimLParser.parse_letlhs(self) -> r
func VimLParser.parse_constlhs(self) -> r
