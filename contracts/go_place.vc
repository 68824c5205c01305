// C02: every place the parser names is one of its reader.  Generated by
// tools/gen_place.py.
package go

inv [only C02] ExprTokenizer t: forall k int :: {has(t.cache, k)} has(t.cache, k) ==> len(t.cache[k]) == 2 && tagis(t.cache[k][1], *ExprToken) && as(t.cache[k][1], *ExprToken) != nil && at(t.reader, as(t.cache[k][1], *ExprToken).pos)
spec at(r *StringReader, q *pos) bool = q != nil && q.rd == r
spec tokat(r *StringReader, t *ExprToken) bool = t != nil && at(r, t.pos)
spec real(l []string, e any) bool = tagis(e, *ParseError) && payload(e) != 0 && validp(l, as(e, *ParseError).Line, as(e, *ParseError).Column, as(e, *ParseError).Offset)

gvar $lines []string
func NewStringReader(lines) -> r
  modifies $lines
  summary $lines == lines

func NewStringReader(lines) -> r
  panics [only C02] e: false

func VimLParser.pop_context(self)
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.parse_cmd_append(self)
  requires [only C02] at(self.reader, self.ea.cmdpos)
  requires [only C02] at(self.reader, self.ea.linepos)
  requires [only C02] at(self.reader, self.ea.argpos)
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.parse_cmd_break(self)
  requires [only C02] at(self.reader, self.ea.cmdpos)
  requires [only C02] at(self.reader, self.ea.linepos)
  requires [only C02] at(self.reader, self.ea.argpos)
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.parse_cmd_call(self)
  requires [only C02] at(self.reader, self.ea.cmdpos)
  requires [only C02] at(self.reader, self.ea.linepos)
  requires [only C02] at(self.reader, self.ea.argpos)
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.parse_cmd_catch(self)
  requires [only C02] at(self.reader, self.ea.cmdpos)
  requires [only C02] at(self.reader, self.ea.linepos)
  requires [only C02] at(self.reader, self.ea.argpos)
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.parse_cmd_common(self)
  requires [only C02] at(self.reader, self.ea.cmdpos)
  requires [only C02] at(self.reader, self.ea.linepos)
  requires [only C02] at(self.reader, self.ea.argpos)
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.parse_cmd_const(self)
  requires [only C02] at(self.reader, self.ea.cmdpos)
  requires [only C02] at(self.reader, self.ea.linepos)
  requires [only C02] at(self.reader, self.ea.argpos)
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.parse_cmd_continue(self)
  requires [only C02] at(self.reader, self.ea.cmdpos)
  requires [only C02] at(self.reader, self.ea.linepos)
  requires [only C02] at(self.reader, self.ea.argpos)
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.parse_cmd_delfunction(self)
  requires [only C02] at(self.reader, self.ea.cmdpos)
  requires [only C02] at(self.reader, self.ea.linepos)
  requires [only C02] at(self.reader, self.ea.argpos)
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.parse_cmd_echo(self)
  requires [only C02] at(self.reader, self.ea.cmdpos)
  requires [only C02] at(self.reader, self.ea.linepos)
  requires [only C02] at(self.reader, self.ea.argpos)
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.parse_cmd_echoerr(self)
  requires [only C02] at(self.reader, self.ea.cmdpos)
  requires [only C02] at(self.reader, self.ea.linepos)
  requires [only C02] at(self.reader, self.ea.argpos)
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.parse_cmd_echohl(self)
  requires [only C02] at(self.reader, self.ea.cmdpos)
  requires [only C02] at(self.reader, self.ea.linepos)
  requires [only C02] at(self.reader, self.ea.argpos)
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.parse_cmd_echomsg(self)
  requires [only C02] at(self.reader, self.ea.cmdpos)
  requires [only C02] at(self.reader, self.ea.linepos)
  requires [only C02] at(self.reader, self.ea.argpos)
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.parse_cmd_echon(self)
  requires [only C02] at(self.reader, self.ea.cmdpos)
  requires [only C02] at(self.reader, self.ea.linepos)
  requires [only C02] at(self.reader, self.ea.argpos)
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.parse_cmd_else(self)
  requires [only C02] at(self.reader, self.ea.cmdpos)
  requires [only C02] at(self.reader, self.ea.linepos)
  requires [only C02] at(self.reader, self.ea.argpos)
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.parse_cmd_elseif(self)
  requires [only C02] at(self.reader, self.ea.cmdpos)
  requires [only C02] at(self.reader, self.ea.linepos)
  requires [only C02] at(self.reader, self.ea.argpos)
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.parse_cmd_endfor(self)
  requires [only C02] at(self.reader, self.ea.cmdpos)
  requires [only C02] at(self.reader, self.ea.linepos)
  requires [only C02] at(self.reader, self.ea.argpos)
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.parse_cmd_endfunction(self)
  requires [only C02] at(self.reader, self.ea.cmdpos)
  requires [only C02] at(self.reader, self.ea.linepos)
  requires [only C02] at(self.reader, self.ea.argpos)
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.parse_cmd_endif(self)
  requires [only C02] at(self.reader, self.ea.cmdpos)
  requires [only C02] at(self.reader, self.ea.linepos)
  requires [only C02] at(self.reader, self.ea.argpos)
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.parse_cmd_endtry(self)
  requires [only C02] at(self.reader, self.ea.cmdpos)
  requires [only C02] at(self.reader, self.ea.linepos)
  requires [only C02] at(self.reader, self.ea.argpos)
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.parse_cmd_endwhile(self)
  requires [only C02] at(self.reader, self.ea.cmdpos)
  requires [only C02] at(self.reader, self.ea.linepos)
  requires [only C02] at(self.reader, self.ea.argpos)
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.parse_cmd_eval(self)
  requires [only C02] at(self.reader, self.ea.cmdpos)
  requires [only C02] at(self.reader, self.ea.linepos)
  requires [only C02] at(self.reader, self.ea.argpos)
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.parse_cmd_execute(self)
  requires [only C02] at(self.reader, self.ea.cmdpos)
  requires [only C02] at(self.reader, self.ea.linepos)
  requires [only C02] at(self.reader, self.ea.argpos)
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.parse_cmd_finally(self)
  requires [only C02] at(self.reader, self.ea.cmdpos)
  requires [only C02] at(self.reader, self.ea.linepos)
  requires [only C02] at(self.reader, self.ea.argpos)
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.parse_cmd_finish(self)
  requires [only C02] at(self.reader, self.ea.cmdpos)
  requires [only C02] at(self.reader, self.ea.linepos)
  requires [only C02] at(self.reader, self.ea.argpos)
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.parse_cmd_for(self)
  requires [only C02] at(self.reader, self.ea.cmdpos)
  requires [only C02] at(self.reader, self.ea.linepos)
  requires [only C02] at(self.reader, self.ea.argpos)
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.parse_cmd_function(self)
  requires [only C02] at(self.reader, self.ea.cmdpos)
  requires [only C02] at(self.reader, self.ea.linepos)
  requires [only C02] at(self.reader, self.ea.argpos)
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.parse_cmd_if(self)
  requires [only C02] at(self.reader, self.ea.cmdpos)
  requires [only C02] at(self.reader, self.ea.linepos)
  requires [only C02] at(self.reader, self.ea.argpos)
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.parse_cmd_insert(self)
  requires [only C02] at(self.reader, self.ea.cmdpos)
  requires [only C02] at(self.reader, self.ea.linepos)
  requires [only C02] at(self.reader, self.ea.argpos)
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.parse_cmd_let(self)
  requires [only C02] at(self.reader, self.ea.cmdpos)
  requires [only C02] at(self.reader, self.ea.linepos)
  requires [only C02] at(self.reader, self.ea.argpos)
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.parse_cmd_loadkeymap(self)
  requires [only C02] at(self.reader, self.ea.cmdpos)
  requires [only C02] at(self.reader, self.ea.linepos)
  requires [only C02] at(self.reader, self.ea.argpos)
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.parse_cmd_lockvar(self)
  requires [only C02] at(self.reader, self.ea.cmdpos)
  requires [only C02] at(self.reader, self.ea.linepos)
  requires [only C02] at(self.reader, self.ea.argpos)
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.parse_cmd_lua(self)
  requires [only C02] at(self.reader, self.ea.cmdpos)
  requires [only C02] at(self.reader, self.ea.linepos)
  requires [only C02] at(self.reader, self.ea.argpos)
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.parse_cmd_mzscheme(self)
  requires [only C02] at(self.reader, self.ea.cmdpos)
  requires [only C02] at(self.reader, self.ea.linepos)
  requires [only C02] at(self.reader, self.ea.argpos)
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.parse_cmd_perl(self)
  requires [only C02] at(self.reader, self.ea.cmdpos)
  requires [only C02] at(self.reader, self.ea.linepos)
  requires [only C02] at(self.reader, self.ea.argpos)
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.parse_cmd_python(self)
  requires [only C02] at(self.reader, self.ea.cmdpos)
  requires [only C02] at(self.reader, self.ea.linepos)
  requires [only C02] at(self.reader, self.ea.argpos)
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.parse_cmd_python3(self)
  requires [only C02] at(self.reader, self.ea.cmdpos)
  requires [only C02] at(self.reader, self.ea.linepos)
  requires [only C02] at(self.reader, self.ea.argpos)
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.parse_cmd_return(self)
  requires [only C02] at(self.reader, self.ea.cmdpos)
  requires [only C02] at(self.reader, self.ea.linepos)
  requires [only C02] at(self.reader, self.ea.argpos)
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.parse_cmd_ruby(self)
  requires [only C02] at(self.reader, self.ea.cmdpos)
  requires [only C02] at(self.reader, self.ea.linepos)
  requires [only C02] at(self.reader, self.ea.argpos)
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.parse_cmd_syntax(self)
  requires [only C02] at(self.reader, self.ea.cmdpos)
  requires [only C02] at(self.reader, self.ea.linepos)
  requires [only C02] at(self.reader, self.ea.argpos)
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.parse_cmd_tcl(self)
  requires [only C02] at(self.reader, self.ea.cmdpos)
  requires [only C02] at(self.reader, self.ea.linepos)
  requires [only C02] at(self.reader, self.ea.argpos)
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.parse_cmd_throw(self)
  requires [only C02] at(self.reader, self.ea.cmdpos)
  requires [only C02] at(self.reader, self.ea.linepos)
  requires [only C02] at(self.reader, self.ea.argpos)
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.parse_cmd_try(self)
  requires [only C02] at(self.reader, self.ea.cmdpos)
  requires [only C02] at(self.reader, self.ea.linepos)
  requires [only C02] at(self.reader, self.ea.argpos)
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.parse_cmd_unlet(self)
  requires [only C02] at(self.reader, self.ea.cmdpos)
  requires [only C02] at(self.reader, self.ea.linepos)
  requires [only C02] at(self.reader, self.ea.argpos)
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.parse_cmd_unlockvar(self)
  requires [only C02] at(self.reader, self.ea.cmdpos)
  requires [only C02] at(self.reader, self.ea.linepos)
  requires [only C02] at(self.reader, self.ea.argpos)
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.parse_cmd_usercmd(self)
  requires [only C02] at(self.reader, self.ea.cmdpos)
  requires [only C02] at(self.reader, self.ea.linepos)
  requires [only C02] at(self.reader, self.ea.argpos)
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.parse_cmd_while(self)
  requires [only C02] at(self.reader, self.ea.cmdpos)
  requires [only C02] at(self.reader, self.ea.linepos)
  requires [only C02] at(self.reader, self.ea.argpos)
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.parse_wincmd(self)
  requires [only C02] at(self.reader, self.ea.cmdpos)
  requires [only C02] at(self.reader, self.ea.linepos)
  requires [only C02] at(self.reader, self.ea.argpos)
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser._parse_command(self, parser)
  requires [only C02] at(self.reader, self.ea.cmdpos)
  requires [only C02] at(self.reader, self.ea.linepos)
  requires [only C02] at(self.reader, self.ea.argpos)
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.parse_cmd_modifier_range(self)
  requires [only C02] at(self.reader, self.ea.cmdpos)
  requires [only C02] at(self.reader, self.ea.linepos)
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.parse_command(self)
  requires [only C02] at(self.reader, self.ea.linepos)
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.parse_one_cmd(self)
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.parse_command_modifiers(self)
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.parse_range(self)
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.parse_argopt(self)
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.parse_argcmd(self)
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.parse_comment(self)
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.parse_trail(self)
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.skip_vimgrep_pat(self)
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.find_command(self) -> r
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.separate_nextcmd(self) -> r
  requires [only C02] at(self.reader, self.ea.cmdpos)
  requires [only C02] at(self.reader, self.ea.linepos)
  requires [only C02] at(self.reader, self.ea.argpos)
  panics [only C02] e: real(self.reader.lines, e)
  ensures [only C02] at(self.reader, r)
  loopcand [only C02] q *pos : at(self.reader, q)

func VimLParser.parse_lvalue_func(self) -> r
  panics [only C02] e: real(self.reader.lines, e)
  ensures [only C02] at(self.reader, r.pos)
  loopcand [only C02] n *VimNode : at(self.reader, n.pos)
  loopcand [only C02] t *ExprToken : tokat(self.reader, t)

func VimLParser.parse_lvalue(self) -> r
  panics [only C02] e: real(self.reader.lines, e)
  ensures [only C02] at(self.reader, r.pos)
  loopcand [only C02] n *VimNode : at(self.reader, n.pos)
  loopcand [only C02] t *ExprToken : tokat(self.reader, t)

func VimLParser.parse_constlvalue(self) -> r
  panics [only C02] e: real(self.reader.lines, e)
  ensures [only C02] at(self.reader, r.pos)
  loopcand [only C02] n *VimNode : at(self.reader, n.pos)
  loopcand [only C02] t *ExprToken : tokat(self.reader, t)

func VimLParser.parse_exprlist(self) -> r
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.parse_lvaluelist(self) -> r
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.parse_letlhs(self) -> r
  panics [only C02] e: real(self.reader.lines, e)

func VimLParser.parse_constlhs(self) -> r
  panics [only C02] e: real(self.reader.lines, e)

func newAstNode(n, fn) -> r
  panics [only C02] e: false

func newExprNode(n, fn) -> r
  panics [only C02] e: false

func ExprParser.Parse(p) -> r
  panics [only C02] e: real(p.reader.lines, e)

func newBody(n, fn) -> l
  panics [only C02] e: false

func viml_range(start, end) -> r
  panics [only C02] e: false

func VimLParser.parse(p, reader) -> n
  panics [only C02] e: real(reader.lines, e)

func VimLParser.Parse(p, reader, fn) -> r
  panics [only C02] e: real(reader.lines, e)

func ExprParser.parse_expr1(self) -> r
  panics [only C02] e: real(self.reader.lines, e)
  ensures [only C02] at(self.reader, r.pos)
  loopcand [only C02] n *VimNode : at(self.reader, n.pos)
  loopcand [only C02] t *ExprToken : tokat(self.reader, t)
  ensures [only C02] forall n *VimNode :: {n.pos} old(isalloc(n)) ==> n.pos == old(n.pos)
  loopcand [only C02] : forall n *VimNode :: {n.pos} old(isalloc(n)) ==> n.pos == old(n.pos)

func ExprParser.parse_expr2(self) -> r
  panics [only C02] e: real(self.reader.lines, e)
  ensures [only C02] at(self.reader, r.pos)
  loopcand [only C02] n *VimNode : at(self.reader, n.pos)
  loopcand [only C02] t *ExprToken : tokat(self.reader, t)
  ensures [only C02] forall n *VimNode :: {n.pos} old(isalloc(n)) ==> n.pos == old(n.pos)
  loopcand [only C02] : forall n *VimNode :: {n.pos} old(isalloc(n)) ==> n.pos == old(n.pos)

func ExprParser.parse_expr3(self) -> r
  panics [only C02] e: real(self.reader.lines, e)
  ensures [only C02] at(self.reader, r.pos)
  loopcand [only C02] n *VimNode : at(self.reader, n.pos)
  loopcand [only C02] t *ExprToken : tokat(self.reader, t)
  ensures [only C02] forall n *VimNode :: {n.pos} old(isalloc(n)) ==> n.pos == old(n.pos)
  loopcand [only C02] : forall n *VimNode :: {n.pos} old(isalloc(n)) ==> n.pos == old(n.pos)

func ExprParser.parse_expr4(self) -> r
  panics [only C02] e: real(self.reader.lines, e)
  ensures [only C02] at(self.reader, r.pos)
  loopcand [only C02] n *VimNode : at(self.reader, n.pos)
  loopcand [only C02] t *ExprToken : tokat(self.reader, t)
  ensures [only C02] forall n *VimNode :: {n.pos} old(isalloc(n)) ==> n.pos == old(n.pos)
  loopcand [only C02] : forall n *VimNode :: {n.pos} old(isalloc(n)) ==> n.pos == old(n.pos)

func ExprParser.parse_expr5(self) -> r
  panics [only C02] e: real(self.reader.lines, e)
  ensures [only C02] at(self.reader, r.pos)
  loopcand [only C02] n *VimNode : at(self.reader, n.pos)
  loopcand [only C02] t *ExprToken : tokat(self.reader, t)
  ensures [only C02] forall n *VimNode :: {n.pos} old(isalloc(n)) ==> n.pos == old(n.pos)
  loopcand [only C02] : forall n *VimNode :: {n.pos} old(isalloc(n)) ==> n.pos == old(n.pos)

func ExprParser.parse_expr6(self) -> r
  panics [only C02] e: real(self.reader.lines, e)
  ensures [only C02] at(self.reader, r.pos)
  loopcand [only C02] n *VimNode : at(self.reader, n.pos)
  loopcand [only C02] t *ExprToken : tokat(self.reader, t)
  ensures [only C02] forall n *VimNode :: {n.pos} old(isalloc(n)) ==> n.pos == old(n.pos)
  loopcand [only C02] : forall n *VimNode :: {n.pos} old(isalloc(n)) ==> n.pos == old(n.pos)

func ExprParser.parse_expr7(self) -> r
  panics [only C02] e: real(self.reader.lines, e)
  ensures [only C02] at(self.reader, r.pos)
  loopcand [only C02] n *VimNode : at(self.reader, n.pos)
  loopcand [only C02] t *ExprToken : tokat(self.reader, t)
  ensures [only C02] forall n *VimNode :: {n.pos} old(isalloc(n)) ==> n.pos == old(n.pos)
  loopcand [only C02] : forall n *VimNode :: {n.pos} old(isalloc(n)) ==> n.pos == old(n.pos)

func ExprParser.parse_expr8(self) -> r
  panics [only C02] e: real(self.reader.lines, e)
  ensures [only C02] at(self.reader, r.pos)
  loopcand [only C02] n *VimNode : at(self.reader, n.pos)
  loopcand [only C02] t *ExprToken : tokat(self.reader, t)
  ensures [only C02] forall n *VimNode :: {n.pos} old(isalloc(n)) ==> n.pos == old(n.pos)
  loopcand [only C02] : forall n *VimNode :: {n.pos} old(isalloc(n)) ==> n.pos == old(n.pos)

func ExprParser.parse_expr9(self) -> r
  panics [only C02] e: real(self.reader.lines, e)
  ensures [only C02] at(self.reader, r.pos)
  loopcand [only C02] n *VimNode : at(self.reader, n.pos)
  loopcand [only C02] t *ExprToken : tokat(self.reader, t)
  ensures [only C02] forall n *VimNode :: {n.pos} old(isalloc(n)) ==> n.pos == old(n.pos)
  loopcand [only C02] : forall n *VimNode :: {n.pos} old(isalloc(n)) ==> n.pos == old(n.pos)

func ExprParser.parse(self) -> n
  panics [only C02] e: real(self.reader.lines, e)
  ensures [only C02] at(self.reader, n.pos)
  loopcand [only C02] n *VimNode : at(self.reader, n.pos)
  loopcand [only C02] t *ExprToken : tokat(self.reader, t)
  ensures [only C02] forall n *VimNode :: {n.pos} old(isalloc(n)) ==> n.pos == old(n.pos)
  loopcand [only C02] : forall n *VimNode :: {n.pos} old(isalloc(n)) ==> n.pos == old(n.pos)

func ExprParser.parse_identifier(self) -> r
  panics [only C02] e: real(self.reader.lines, e)
  ensures [only C02] at(self.reader, r.pos)
  loopcand [only C02] n *VimNode : at(self.reader, n.pos)
  loopcand [only C02] t *ExprToken : tokat(self.reader, t)
  ensures [only C02] forall n *VimNode :: {n.pos} old(isalloc(n)) ==> n.pos == old(n.pos)
  loopcand [only C02] : forall n *VimNode :: {n.pos} old(isalloc(n)) ==> n.pos == old(n.pos)

func LvalueParser.parse(self) -> r
  panics [only C02] e: real(self.reader.lines, e)
  ensures [only C02] at(self.reader, r.pos)
  loopcand [only C02] n *VimNode : at(self.reader, n.pos)
  loopcand [only C02] t *ExprToken : tokat(self.reader, t)
  ensures [only C02] forall n *VimNode :: {n.pos} old(isalloc(n)) ==> n.pos == old(n.pos)
  loopcand [only C02] : forall n *VimNode :: {n.pos} old(isalloc(n)) ==> n.pos == old(n.pos)

func LvalueParser.parse_lv8(self) -> r
  panics [only C02] e: real(self.reader.lines, e)
  ensures [only C02] at(self.reader, r.pos)
  loopcand [only C02] n *VimNode : at(self.reader, n.pos)
  loopcand [only C02] t *ExprToken : tokat(self.reader, t)
  ensures [only C02] forall n *VimNode :: {n.pos} old(isalloc(n)) ==> n.pos == old(n.pos)
  loopcand [only C02] : forall n *VimNode :: {n.pos} old(isalloc(n)) ==> n.pos == old(n.pos)

func LvalueParser.parse_lv9(self) -> r
  panics [only C02] e: real(self.reader.lines, e)
  ensures [only C02] at(self.reader, r.pos)
  loopcand [only C02] n *VimNode : at(self.reader, n.pos)
  loopcand [only C02] t *ExprToken : tokat(self.reader, t)
  ensures [only C02] forall n *VimNode :: {n.pos} old(isalloc(n)) ==> n.pos == old(n.pos)
  loopcand [only C02] : forall n *VimNode :: {n.pos} old(isalloc(n)) ==> n.pos == old(n.pos)

func ExprParser.parse_dot(self, token, left) -> r
  panics [only C02] e: real(self.reader.lines, e)
  ensures [only C02] r == nil || at(self.reader, r.pos)
  requires [only C02] tokat(self.reader, token) && at(self.reader, left.pos)
  loopcand [only C02] n *VimNode : at(self.reader, n.pos)
  loopcand [only C02] t *ExprToken : tokat(self.reader, t)
  ensures [only C02] forall n *VimNode :: {n.pos} old(isalloc(n)) ==> n.pos == old(n.pos)
  loopcand [only C02] : forall n *VimNode :: {n.pos} old(isalloc(n)) ==> n.pos == old(n.pos)

func ExprParser.parse_concat(self, token, left) -> r
  panics [only C02] e: real(self.reader.lines, e)
  ensures [only C02] r == nil || at(self.reader, r.pos)
  requires [only C02] tokat(self.reader, token) && at(self.reader, left.pos)
  loopcand [only C02] n *VimNode : at(self.reader, n.pos)
  loopcand [only C02] t *ExprToken : tokat(self.reader, t)
  ensures [only C02] forall n *VimNode :: {n.pos} old(isalloc(n)) ==> n.pos == old(n.pos)
  loopcand [only C02] : forall n *VimNode :: {n.pos} old(isalloc(n)) ==> n.pos == old(n.pos)

func ExprParser.parse_rlist(self) -> r
  panics [only C02] e: real(self.reader.lines, e)
  ensures [only C02] forall n *VimNode :: {n.pos} old(isalloc(n)) ==> n.pos == old(n.pos)
  loopcand [only C02] : forall n *VimNode :: {n.pos} old(isalloc(n)) ==> n.pos == old(n.pos)

func ExprParser.parse_curly_parts(self) -> r
  panics [only C02] e: real(self.reader.lines, e)
  ensures [only C02] forall n *VimNode :: {n.pos} old(isalloc(n)) ==> n.pos == old(n.pos)
  loopcand [only C02] : forall n *VimNode :: {n.pos} old(isalloc(n)) ==> n.pos == old(n.pos)

func ExprTokenizer.get(self) -> r
  panics [only C02] e: real(self.reader.lines, e)
  ensures [only C02] tokat(self.reader, r)
  ensures [only C02] forall n *VimNode :: {n.pos} old(isalloc(n)) ==> n.pos == old(n.pos)
  loopcand [only C02] : forall n *VimNode :: {n.pos} old(isalloc(n)) ==> n.pos == old(n.pos)

func ExprTokenizer.get2(self) -> r
  panics [only C02] e: real(self.reader.lines, e)
  ensures [only C02] tokat(self.reader, r)
  ensures [only C02] forall n *VimNode :: {n.pos} old(isalloc(n)) ==> n.pos == old(n.pos)
  loopcand [only C02] : forall n *VimNode :: {n.pos} old(isalloc(n)) ==> n.pos == old(n.pos)

func ExprTokenizer.peek(self) -> r
  panics [only C02] e: real(self.reader.lines, e)
  ensures [only C02] tokat(self.reader, r)
  ensures [only C02] forall n *VimNode :: {n.pos} old(isalloc(n)) ==> n.pos == old(n.pos)
  loopcand [only C02] : forall n *VimNode :: {n.pos} old(isalloc(n)) ==> n.pos == old(n.pos)

func ExprTokenizer.parse_dict_literal_key(self) -> r
  panics [only C02] e: real(self.reader.lines, e)
  ensures [only C02] at(self.reader, r.pos)
  loopcand [only C02] n *VimNode : at(self.reader, n.pos)
  loopcand [only C02] t *ExprToken : tokat(self.reader, t)
  ensures [only C02] forall n *VimNode :: {n.pos} old(isalloc(n)) ==> n.pos == old(n.pos)
  loopcand [only C02] : forall n *VimNode :: {n.pos} old(isalloc(n)) ==> n.pos == old(n.pos)

func StringReader.read_word(self) -> r
  panics [only C02] e: real(self.lines, e)

func StringReader.read_name(self) -> r
  panics [only C02] e: real(self.lines, e)

func StringReader.read_digit(self) -> r
  panics [only C02] e: real(self.lines, e)

func VimLParser.parse_heredoc(self) -> r
  requires [only C02] at(self.reader, self.ea.cmdpos)
  requires [only C02] at(self.reader, self.ea.linepos)
  panics [only C02] e: real(self.reader.lines, e)

func viml_split(s, sep) -> r
  panics [only C02] e: false

func VimLParser.parse_pattern(self, delimiter) -> p, q
  panics [only C02] e: real(self.reader.lines, e)

func ExprTokenizer.get_dstring(self) -> r
  panics [only C02] e: real(self.reader.lines, e)
  ensures [only C02] forall n *VimNode :: {n.pos} old(isalloc(n)) ==> n.pos == old(n.pos)
  loopcand [only C02] : forall n *VimNode :: {n.pos} old(isalloc(n)) ==> n.pos == old(n.pos)

func ExprTokenizer.get_sstring(self) -> r
  panics [only C02] e: real(self.reader.lines, e)
  ensures [only C02] forall n *VimNode :: {n.pos} old(isalloc(n)) ==> n.pos == old(n.pos)
  loopcand [only C02] : forall n *VimNode :: {n.pos} old(isalloc(n)) ==> n.pos == old(n.pos)

func StringReader.getn(self, n) -> r
  panics [only C02] e: real(self.lines, e)

func StringReader.peekn(self, n) -> r
  panics [only C02] e: real(self.lines, e)

func StringReader.read_alnum(self) -> r
  panics [only C02] e: real(self.lines, e)

func StringReader.read_alpha(self) -> r
  panics [only C02] e: real(self.lines, e)

func StringReader.read_bdigit(self) -> r
  panics [only C02] e: real(self.lines, e)

func StringReader.read_blob(self) -> r
  panics [only C02] e: real(self.lines, e)

func StringReader.read_odigit(self) -> r
  panics [only C02] e: real(self.lines, e)

func StringReader.read_white(self) -> r
  panics [only C02] e: real(self.lines, e)

func StringReader.read_xdigit(self) -> r
  panics [only C02] e: real(self.lines, e)

func StringReader.skip_white(self)
  panics [only C02] e: real(self.lines, e)

func newExprs(xs, fn) -> l
  panics [only C02] e: false

func newIdents(n, fn) -> l
  panics [only C02] e: false

func newValues(n, fn) -> l
  panics [only C02] e: false
