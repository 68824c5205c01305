// C01: nothing the parser does can fail but by a syntax error.  Generated by
// tools/gen_total.py.
package go

// the reader stays on its text; its last character ends a line
inv [C01] StringReader r: 0 <= r.i && r.i <= len(r.buf)
inv [C01] StringReader r: len(r.pos) == len(r.buf) + 1
inv [C01] StringReader r: len(r.buf) > 0 ==> r.buf[len(r.buf) - 1] == "<EOL>"
inv [C01] ExprTokenizer t: t.reader != nil
inv [C01] ExprParser p: p.reader != nil && p.tokenizer != nil && p.tokenizer.reader == p.reader
inv [C01] LvalueParser p: p.ExprParser != nil
inv [C01] ExprToken t: t.pos != nil
inv [C01] VimLParser p: len(p.context) > 0 ==> p.reader != nil
inv [C01] Cmd c: c.parser in set("parse_cmd_append", "parse_cmd_break", "parse_cmd_call", "parse_cmd_catch", "parse_cmd_common", "parse_cmd_const", "parse_cmd_continue", "parse_cmd_delfunction", "parse_cmd_echo", "parse_cmd_echoerr", "parse_cmd_echohl", "parse_cmd_echomsg", "parse_cmd_echon", "parse_cmd_else", "parse_cmd_elseif", "parse_cmd_endfor", "parse_cmd_endfunction", "parse_cmd_endif", "parse_cmd_endtry", "parse_cmd_endwhile", "parse_cmd_eval", "parse_cmd_execute", "parse_cmd_finally", "parse_cmd_finish", "parse_cmd_for", "parse_cmd_function", "parse_cmd_if", "parse_cmd_insert", "parse_cmd_let", "parse_cmd_loadkeymap", "parse_cmd_lockvar", "parse_cmd_lua", "parse_cmd_mzscheme", "parse_cmd_perl", "parse_cmd_python", "parse_cmd_python3", "parse_cmd_return", "parse_cmd_ruby", "parse_cmd_syntax", "parse_cmd_tcl", "parse_cmd_throw", "parse_cmd_try", "parse_cmd_unlet", "parse_cmd_unlockvar", "parse_cmd_while", "parse_wincmd", "parse_cmd_usercmd")
rows [C01] builtin_commands neovim_additional_commands neovim_removed_commands: parser in "parse_cmd_append" "parse_cmd_break" "parse_cmd_call" "parse_cmd_catch" "parse_cmd_common" "parse_cmd_const" "parse_cmd_continue" "parse_cmd_delfunction" "parse_cmd_echo" "parse_cmd_echoerr" "parse_cmd_echohl" "parse_cmd_echomsg" "parse_cmd_echon" "parse_cmd_else" "parse_cmd_elseif" "parse_cmd_endfor" "parse_cmd_endfunction" "parse_cmd_endif" "parse_cmd_endtry" "parse_cmd_endwhile" "parse_cmd_eval" "parse_cmd_execute" "parse_cmd_finally" "parse_cmd_finish" "parse_cmd_for" "parse_cmd_function" "parse_cmd_if" "parse_cmd_insert" "parse_cmd_let" "parse_cmd_loadkeymap" "parse_cmd_lockvar" "parse_cmd_lua" "parse_cmd_mzscheme" "parse_cmd_perl" "parse_cmd_python" "parse_cmd_python3" "parse_cmd_return" "parse_cmd_ruby" "parse_cmd_syntax" "parse_cmd_tcl" "parse_cmd_throw" "parse_cmd_try" "parse_cmd_unlet" "parse_cmd_unlockvar" "parse_cmd_while" "parse_wincmd" "parse_cmd_usercmd"
frozen Cmd.parser

// the parts of a block end with its own kind of end
inv [C01] VimNode n: n.endfunction != nil ==> n.endfunction.type_ == NODE_ENDFUNCTION
inv [C01] VimNode n: n.endif != nil ==> n.endif.type_ == NODE_ENDIF
inv [C01] VimNode n: n.endwhile != nil ==> n.endwhile.type_ == NODE_ENDWHILE
inv [C01] VimNode n: n.endfor != nil ==> n.endfor.type_ == NODE_ENDFOR
inv [C01] VimNode n: n.endtry != nil ==> n.endtry.type_ == NODE_ENDTRY
inv [C01] VimNode n: n.type_ in set(NODE_IDENTIFIER, NODE_CURLYNAMEPART) ==> tagis(n.value, string) && as(n.value, string) != ""
inv [C01] ExprToken t: t.type_ in set(TOKEN_IDENTIFIER, TOKEN_DOTDOTDOT) ==> t.value != ""

// A block is done when it leaves the open ones: then it has its end, and the
// blocks in it are done.
ghost VimNode.done bool
grows VimNode.done
spec isblk(t int) bool = opener(t) || isbranch(t) || t == NODE_TOPLEVEL
spec dn(b *VimNode) bool = b != nil && isblk(b.type_) ==> b.done
spec ended(n *VimNode) bool = (n.type_ == NODE_IF ==> n.endif != nil) && (n.type_ == NODE_WHILE ==> n.endwhile != nil) && (n.type_ == NODE_FOR ==> n.endfor != nil) && (n.type_ == NODE_TRY ==> n.endtry != nil) && (n.type_ == NODE_FUNCTION ==> n.endfunction != nil)
inv [C01] VimNode n: n.done ==> ended(n)
inv [C01] VimNode n: n.done ==> (forall i int :: {n.body[i]} 0 <= i && i < len(n.body) ==> dn(n.body[i]))
inv [C01] VimNode n: n.done ==> (forall i int :: {n.elseif[i]} 0 <= i && i < len(n.elseif) ==> dn(n.elseif[i]))
inv [C01] VimNode n: n.done ==> (forall i int :: {n.catch[i]} 0 <= i && i < len(n.catch) ==> dn(n.catch[i]))
inv [C01] VimNode n: n.done ==> dn(n.else_) && dn(n.finally)
// the blocks in the open ones are done, but for the next open one
spec dn1(p *VimLParser, k int, b *VimNode) bool = b == nil || isalloc(b) && (dn(b) || k > 0 && b == p.context[k - 1])
spec ctx1(p *VimLParser) bool = forall k int :: {p.context[k]} 0 <= k && k < len(p.context) ==> !p.context[k].done && dn1(p, k, p.context[k].else_) && dn1(p, k, p.context[k].finally)
spec ctx2(p *VimLParser) bool = forall k int, i int :: {p.context[k].body[i]} 0 <= k && k < len(p.context) && 0 <= i && i < len(p.context[k].body) ==> dn1(p, k, p.context[k].body[i])
spec ctx3(p *VimLParser) bool = forall k int, i int :: {p.context[k].elseif[i]} 0 <= k && k < len(p.context) && 0 <= i && i < len(p.context[k].elseif) ==> dn1(p, k, p.context[k].elseif[i])
spec ctx4(p *VimLParser) bool = forall k int, i int :: {p.context[k].catch[i]} 0 <= k && k < len(p.context) && 0 <= i && i < len(p.context[k].catch) ==> dn1(p, k, p.context[k].catch[i])

inv [C01] lhs l: l.left != nil ==> isexpr(l.left.type_)
inv [C01] lhs l: l.rest != nil ==> isexpr(l.rest.type_)
inv [C01] lhs l: forall i int :: {l.list[i]} 0 <= i && i < len(l.list) ==> l.list[i] != nil && isexpr(l.list[i].type_)
inv [C01] ExprTokenizer t: forall k int :: {has(t.cache, k)} has(t.cache, k) ==> len(t.cache[k]) == 2 && tagis(t.cache[k][0], int) && 0 <= as(t.cache[k][0], int) && as(t.cache[k][0], int) <= len(t.reader.buf) && tagis(t.cache[k][1], *ExprToken)

spec onp(r *StringReader, q *pos) bool = q != nil && 0 <= q.i && q.i <= len(r.buf)

// texts of digits only
ufun alldig(s string) bool
axiom alldig_0: alldig("")
axiom alldig_s: forall s string, c string :: {alldig(s), s + c} alldig(s) && rx(c, "^[0-9]$") ==> alldig(s + c)

extern strconv.ParseInt(s, base, bits) -> r, err
  modifies nothing
  ensures tag(err) == 0 || tagis(err, *strconv.NumError) && payload(err) != 0
  ensures tag(err) != 0 && alldig(s) && s != "" && base == 10 ==> as(err, *strconv.NumError).Err == strconv.ErrRange

func NewStringReader(lines) -> r
  loopcand o *StringReader : len(o.pos) == len(o.buf)
  loopcand o *StringReader : len(o.buf) > 0 ==> o.buf[len(o.buf) - 1] == "<EOL>"
  loopcand o *StringReader : 0 <= o.i && o.i <= len(o.buf)

func VimLParser.pop_context(self)
  modifies any(VimNode.done)
  requires [C01] len(self.context) >= 1
  requires [C01] ended(self.context[0]) && dn(self.context[0].else_) && dn(self.context[0].finally)
  requires [C01] forall i int :: {self.context[0].body[i]} 0 <= i && i < len(self.context[0].body) ==> dn(self.context[0].body[i])
  requires [C01] forall i int :: {self.context[0].elseif[i]} 0 <= i && i < len(self.context[0].elseif) ==> dn(self.context[0].elseif[i])
  requires [C01] forall i int :: {self.context[0].catch[i]} 0 <= i && i < len(self.context[0].catch) ==> dn(self.context[0].catch[i])
  ensures [C01 C08] shifted(self.context, old(self.context), 1)
  summary forall n *VimNode :: {n.done} n.done == (old(n.done) || n == old(self.context[0]))

func VimLParser.parse_cmd_append(self)
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil
  requires [C01] onp(self.reader, self.ea.cmdpos) && onp(self.reader, self.ea.linepos)
  requires [C01] self.ea.cmd != nil && onp(self.reader, self.ea.argpos)
  requires [C01] ctx1(self)
  ensures [C01] ctx1(self)
  requires [C01] ctx2(self)
  ensures [C01] ctx2(self)
  requires [C01] ctx3(self)
  ensures [C01] ctx3(self)
  requires [C01] ctx4(self)
  ensures [C01] ctx4(self)

func VimLParser.parse_cmd_break(self)
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil
  requires [C01] onp(self.reader, self.ea.cmdpos) && onp(self.reader, self.ea.linepos)
  requires [C01] self.ea.cmd != nil && onp(self.reader, self.ea.argpos)
  requires [C01] ctx1(self)
  ensures [C01] ctx1(self)
  requires [C01] ctx2(self)
  ensures [C01] ctx2(self)
  requires [C01] ctx3(self)
  ensures [C01] ctx3(self)
  requires [C01] ctx4(self)
  ensures [C01] ctx4(self)

func VimLParser.parse_cmd_call(self)
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil
  requires [C01] onp(self.reader, self.ea.cmdpos) && onp(self.reader, self.ea.linepos)
  requires [C01] self.ea.cmd != nil && onp(self.reader, self.ea.argpos)
  requires [C01] ctx1(self)
  ensures [C01] ctx1(self)
  requires [C01] ctx2(self)
  ensures [C01] ctx2(self)
  requires [C01] ctx3(self)
  ensures [C01] ctx3(self)
  requires [C01] ctx4(self)
  ensures [C01] ctx4(self)

func VimLParser.parse_cmd_catch(self)
  modifies any(VimNode.done)
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil
  requires [C01] onp(self.reader, self.ea.cmdpos) && onp(self.reader, self.ea.linepos)
  requires [C01] self.ea.cmd != nil && onp(self.reader, self.ea.argpos)
  requires [C01] ctx1(self)
  ensures [C01] ctx1(self)
  requires [C01] ctx2(self)
  ensures [C01] ctx2(self)
  requires [C01] ctx3(self)
  ensures [C01] ctx3(self)
  requires [C01] ctx4(self)
  ensures [C01] ctx4(self)

func VimLParser.parse_cmd_common(self)
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil
  requires [C01] onp(self.reader, self.ea.cmdpos) && onp(self.reader, self.ea.linepos)
  requires [C01] self.ea.cmd != nil && onp(self.reader, self.ea.argpos)
  requires [C01] ctx1(self)
  ensures [C01] ctx1(self)
  requires [C01] ctx2(self)
  ensures [C01] ctx2(self)
  requires [C01] ctx3(self)
  ensures [C01] ctx3(self)
  requires [C01] ctx4(self)
  ensures [C01] ctx4(self)

func VimLParser.parse_cmd_const(self)
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil
  requires [C01] onp(self.reader, self.ea.cmdpos) && onp(self.reader, self.ea.linepos)
  requires [C01] self.ea.cmd != nil && onp(self.reader, self.ea.argpos)
  requires [C01] ctx1(self)
  ensures [C01] ctx1(self)
  requires [C01] ctx2(self)
  ensures [C01] ctx2(self)
  requires [C01] ctx3(self)
  ensures [C01] ctx3(self)
  requires [C01] ctx4(self)
  ensures [C01] ctx4(self)

func VimLParser.parse_cmd_continue(self)
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil
  requires [C01] onp(self.reader, self.ea.cmdpos) && onp(self.reader, self.ea.linepos)
  requires [C01] self.ea.cmd != nil && onp(self.reader, self.ea.argpos)
  requires [C01] ctx1(self)
  ensures [C01] ctx1(self)
  requires [C01] ctx2(self)
  ensures [C01] ctx2(self)
  requires [C01] ctx3(self)
  ensures [C01] ctx3(self)
  requires [C01] ctx4(self)
  ensures [C01] ctx4(self)

func VimLParser.parse_cmd_delfunction(self)
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil
  requires [C01] onp(self.reader, self.ea.cmdpos) && onp(self.reader, self.ea.linepos)
  requires [C01] self.ea.cmd != nil && onp(self.reader, self.ea.argpos)
  requires [C01] ctx1(self)
  ensures [C01] ctx1(self)
  requires [C01] ctx2(self)
  ensures [C01] ctx2(self)
  requires [C01] ctx3(self)
  ensures [C01] ctx3(self)
  requires [C01] ctx4(self)
  ensures [C01] ctx4(self)

func VimLParser.parse_cmd_echo(self)
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil
  requires [C01] onp(self.reader, self.ea.cmdpos) && onp(self.reader, self.ea.linepos)
  requires [C01] self.ea.cmd != nil && onp(self.reader, self.ea.argpos)
  requires [C01] ctx1(self)
  ensures [C01] ctx1(self)
  requires [C01] ctx2(self)
  ensures [C01] ctx2(self)
  requires [C01] ctx3(self)
  ensures [C01] ctx3(self)
  requires [C01] ctx4(self)
  ensures [C01] ctx4(self)

func VimLParser.parse_cmd_echoerr(self)
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil
  requires [C01] onp(self.reader, self.ea.cmdpos) && onp(self.reader, self.ea.linepos)
  requires [C01] self.ea.cmd != nil && onp(self.reader, self.ea.argpos)
  requires [C01] ctx1(self)
  ensures [C01] ctx1(self)
  requires [C01] ctx2(self)
  ensures [C01] ctx2(self)
  requires [C01] ctx3(self)
  ensures [C01] ctx3(self)
  requires [C01] ctx4(self)
  ensures [C01] ctx4(self)

func VimLParser.parse_cmd_echohl(self)
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil
  requires [C01] onp(self.reader, self.ea.cmdpos) && onp(self.reader, self.ea.linepos)
  requires [C01] self.ea.cmd != nil && onp(self.reader, self.ea.argpos)
  requires [C01] ctx1(self)
  ensures [C01] ctx1(self)
  requires [C01] ctx2(self)
  ensures [C01] ctx2(self)
  requires [C01] ctx3(self)
  ensures [C01] ctx3(self)
  requires [C01] ctx4(self)
  ensures [C01] ctx4(self)

func VimLParser.parse_cmd_echomsg(self)
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil
  requires [C01] onp(self.reader, self.ea.cmdpos) && onp(self.reader, self.ea.linepos)
  requires [C01] self.ea.cmd != nil && onp(self.reader, self.ea.argpos)
  requires [C01] ctx1(self)
  ensures [C01] ctx1(self)
  requires [C01] ctx2(self)
  ensures [C01] ctx2(self)
  requires [C01] ctx3(self)
  ensures [C01] ctx3(self)
  requires [C01] ctx4(self)
  ensures [C01] ctx4(self)

func VimLParser.parse_cmd_echon(self)
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil
  requires [C01] onp(self.reader, self.ea.cmdpos) && onp(self.reader, self.ea.linepos)
  requires [C01] self.ea.cmd != nil && onp(self.reader, self.ea.argpos)
  requires [C01] ctx1(self)
  ensures [C01] ctx1(self)
  requires [C01] ctx2(self)
  ensures [C01] ctx2(self)
  requires [C01] ctx3(self)
  ensures [C01] ctx3(self)
  requires [C01] ctx4(self)
  ensures [C01] ctx4(self)

func VimLParser.parse_cmd_else(self)
  modifies any(VimNode.done)
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil
  requires [C01] onp(self.reader, self.ea.cmdpos) && onp(self.reader, self.ea.linepos)
  requires [C01] self.ea.cmd != nil && onp(self.reader, self.ea.argpos)
  requires [C01] ctx1(self)
  ensures [C01] ctx1(self)
  requires [C01] ctx2(self)
  ensures [C01] ctx2(self)
  requires [C01] ctx3(self)
  ensures [C01] ctx3(self)
  requires [C01] ctx4(self)
  ensures [C01] ctx4(self)

func VimLParser.parse_cmd_elseif(self)
  modifies any(VimNode.done)
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil
  requires [C01] onp(self.reader, self.ea.cmdpos) && onp(self.reader, self.ea.linepos)
  requires [C01] self.ea.cmd != nil && onp(self.reader, self.ea.argpos)
  requires [C01] ctx1(self)
  ensures [C01] ctx1(self)
  requires [C01] ctx2(self)
  ensures [C01] ctx2(self)
  requires [C01] ctx3(self)
  ensures [C01] ctx3(self)
  requires [C01] ctx4(self)
  ensures [C01] ctx4(self)

func VimLParser.parse_cmd_endfor(self)
  modifies any(VimNode.done)
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil
  requires [C01] onp(self.reader, self.ea.cmdpos) && onp(self.reader, self.ea.linepos)
  requires [C01] self.ea.cmd != nil && onp(self.reader, self.ea.argpos)
  requires [C01] ctx1(self)
  ensures [C01] ctx1(self)
  requires [C01] ctx2(self)
  ensures [C01] ctx2(self)
  requires [C01] ctx3(self)
  ensures [C01] ctx3(self)
  requires [C01] ctx4(self)
  ensures [C01] ctx4(self)

func VimLParser.parse_cmd_endfunction(self)
  modifies any(VimNode.done)
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil
  requires [C01] onp(self.reader, self.ea.cmdpos) && onp(self.reader, self.ea.linepos)
  requires [C01] self.ea.cmd != nil && onp(self.reader, self.ea.argpos)
  requires [C01] ctx1(self)
  ensures [C01] ctx1(self)
  requires [C01] ctx2(self)
  ensures [C01] ctx2(self)
  requires [C01] ctx3(self)
  ensures [C01] ctx3(self)
  requires [C01] ctx4(self)
  ensures [C01] ctx4(self)

func VimLParser.parse_cmd_endif(self)
  modifies any(VimNode.done)
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil
  requires [C01] onp(self.reader, self.ea.cmdpos) && onp(self.reader, self.ea.linepos)
  requires [C01] self.ea.cmd != nil && onp(self.reader, self.ea.argpos)
  requires [C01] ctx1(self)
  ensures [C01] ctx1(self)
  requires [C01] ctx2(self)
  ensures [C01] ctx2(self)
  requires [C01] ctx3(self)
  ensures [C01] ctx3(self)
  requires [C01] ctx4(self)
  ensures [C01] ctx4(self)

func VimLParser.parse_cmd_endtry(self)
  modifies any(VimNode.done)
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil
  requires [C01] onp(self.reader, self.ea.cmdpos) && onp(self.reader, self.ea.linepos)
  requires [C01] self.ea.cmd != nil && onp(self.reader, self.ea.argpos)
  requires [C01] ctx1(self)
  ensures [C01] ctx1(self)
  requires [C01] ctx2(self)
  ensures [C01] ctx2(self)
  requires [C01] ctx3(self)
  ensures [C01] ctx3(self)
  requires [C01] ctx4(self)
  ensures [C01] ctx4(self)

func VimLParser.parse_cmd_endwhile(self)
  modifies any(VimNode.done)
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil
  requires [C01] onp(self.reader, self.ea.cmdpos) && onp(self.reader, self.ea.linepos)
  requires [C01] self.ea.cmd != nil && onp(self.reader, self.ea.argpos)
  requires [C01] ctx1(self)
  ensures [C01] ctx1(self)
  requires [C01] ctx2(self)
  ensures [C01] ctx2(self)
  requires [C01] ctx3(self)
  ensures [C01] ctx3(self)
  requires [C01] ctx4(self)
  ensures [C01] ctx4(self)

func VimLParser.parse_cmd_eval(self)
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil
  requires [C01] onp(self.reader, self.ea.cmdpos) && onp(self.reader, self.ea.linepos)
  requires [C01] self.ea.cmd != nil && onp(self.reader, self.ea.argpos)
  requires [C01] ctx1(self)
  ensures [C01] ctx1(self)
  requires [C01] ctx2(self)
  ensures [C01] ctx2(self)
  requires [C01] ctx3(self)
  ensures [C01] ctx3(self)
  requires [C01] ctx4(self)
  ensures [C01] ctx4(self)

func VimLParser.parse_cmd_execute(self)
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil
  requires [C01] onp(self.reader, self.ea.cmdpos) && onp(self.reader, self.ea.linepos)
  requires [C01] self.ea.cmd != nil && onp(self.reader, self.ea.argpos)
  requires [C01] ctx1(self)
  ensures [C01] ctx1(self)
  requires [C01] ctx2(self)
  ensures [C01] ctx2(self)
  requires [C01] ctx3(self)
  ensures [C01] ctx3(self)
  requires [C01] ctx4(self)
  ensures [C01] ctx4(self)

func VimLParser.parse_cmd_finally(self)
  modifies any(VimNode.done)
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil
  requires [C01] onp(self.reader, self.ea.cmdpos) && onp(self.reader, self.ea.linepos)
  requires [C01] self.ea.cmd != nil && onp(self.reader, self.ea.argpos)
  requires [C01] ctx1(self)
  ensures [C01] ctx1(self)
  requires [C01] ctx2(self)
  ensures [C01] ctx2(self)
  requires [C01] ctx3(self)
  ensures [C01] ctx3(self)
  requires [C01] ctx4(self)
  ensures [C01] ctx4(self)

func VimLParser.parse_cmd_finish(self)
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil
  requires [C01] onp(self.reader, self.ea.cmdpos) && onp(self.reader, self.ea.linepos)
  requires [C01] self.ea.cmd != nil && onp(self.reader, self.ea.argpos)
  requires [C01] ctx1(self)
  ensures [C01] ctx1(self)
  requires [C01] ctx2(self)
  ensures [C01] ctx2(self)
  requires [C01] ctx3(self)
  ensures [C01] ctx3(self)
  requires [C01] ctx4(self)
  ensures [C01] ctx4(self)

func VimLParser.parse_cmd_for(self)
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil
  requires [C01] onp(self.reader, self.ea.cmdpos) && onp(self.reader, self.ea.linepos)
  requires [C01] self.ea.cmd != nil && onp(self.reader, self.ea.argpos)
  requires [C01] ctx1(self)
  ensures [C01] ctx1(self)
  requires [C01] ctx2(self)
  ensures [C01] ctx2(self)
  requires [C01] ctx3(self)
  ensures [C01] ctx3(self)
  requires [C01] ctx4(self)
  ensures [C01] ctx4(self)

func VimLParser.parse_cmd_function(self)
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil
  requires [C01] onp(self.reader, self.ea.cmdpos) && onp(self.reader, self.ea.linepos)
  requires [C01] self.ea.cmd != nil && onp(self.reader, self.ea.argpos)
  requires [C01] ctx1(self)
  ensures [C01] ctx1(self)
  requires [C01] ctx2(self)
  ensures [C01] ctx2(self)
  requires [C01] ctx3(self)
  ensures [C01] ctx3(self)
  requires [C01] ctx4(self)
  ensures [C01] ctx4(self)

func VimLParser.parse_cmd_if(self)
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil
  requires [C01] onp(self.reader, self.ea.cmdpos) && onp(self.reader, self.ea.linepos)
  requires [C01] self.ea.cmd != nil && onp(self.reader, self.ea.argpos)
  requires [C01] ctx1(self)
  ensures [C01] ctx1(self)
  requires [C01] ctx2(self)
  ensures [C01] ctx2(self)
  requires [C01] ctx3(self)
  ensures [C01] ctx3(self)
  requires [C01] ctx4(self)
  ensures [C01] ctx4(self)

func VimLParser.parse_cmd_insert(self)
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil
  requires [C01] onp(self.reader, self.ea.cmdpos) && onp(self.reader, self.ea.linepos)
  requires [C01] self.ea.cmd != nil && onp(self.reader, self.ea.argpos)
  requires [C01] ctx1(self)
  ensures [C01] ctx1(self)
  requires [C01] ctx2(self)
  ensures [C01] ctx2(self)
  requires [C01] ctx3(self)
  ensures [C01] ctx3(self)
  requires [C01] ctx4(self)
  ensures [C01] ctx4(self)

func VimLParser.parse_cmd_let(self)
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil
  requires [C01] onp(self.reader, self.ea.cmdpos) && onp(self.reader, self.ea.linepos)
  requires [C01] self.ea.cmd != nil && onp(self.reader, self.ea.argpos)
  requires [C01] ctx1(self)
  ensures [C01] ctx1(self)
  requires [C01] ctx2(self)
  ensures [C01] ctx2(self)
  requires [C01] ctx3(self)
  ensures [C01] ctx3(self)
  requires [C01] ctx4(self)
  ensures [C01] ctx4(self)

func VimLParser.parse_cmd_loadkeymap(self)
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil
  requires [C01] onp(self.reader, self.ea.cmdpos) && onp(self.reader, self.ea.linepos)
  requires [C01] self.ea.cmd != nil && onp(self.reader, self.ea.argpos)
  requires [C01] ctx1(self)
  ensures [C01] ctx1(self)
  requires [C01] ctx2(self)
  ensures [C01] ctx2(self)
  requires [C01] ctx3(self)
  ensures [C01] ctx3(self)
  requires [C01] ctx4(self)
  ensures [C01] ctx4(self)

func VimLParser.parse_cmd_lockvar(self)
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil
  requires [C01] onp(self.reader, self.ea.cmdpos) && onp(self.reader, self.ea.linepos)
  requires [C01] self.ea.cmd != nil && onp(self.reader, self.ea.argpos)
  requires [C01] ctx1(self)
  ensures [C01] ctx1(self)
  requires [C01] ctx2(self)
  ensures [C01] ctx2(self)
  requires [C01] ctx3(self)
  ensures [C01] ctx3(self)
  requires [C01] ctx4(self)
  ensures [C01] ctx4(self)

func VimLParser.parse_cmd_lua(self)
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil
  requires [C01] onp(self.reader, self.ea.cmdpos) && onp(self.reader, self.ea.linepos)
  requires [C01] self.ea.cmd != nil && onp(self.reader, self.ea.argpos)
  requires [C01] ctx1(self)
  ensures [C01] ctx1(self)
  requires [C01] ctx2(self)
  ensures [C01] ctx2(self)
  requires [C01] ctx3(self)
  ensures [C01] ctx3(self)
  requires [C01] ctx4(self)
  ensures [C01] ctx4(self)

func VimLParser.parse_cmd_mzscheme(self)
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil
  requires [C01] onp(self.reader, self.ea.cmdpos) && onp(self.reader, self.ea.linepos)
  requires [C01] self.ea.cmd != nil && onp(self.reader, self.ea.argpos)
  requires [C01] ctx1(self)
  ensures [C01] ctx1(self)
  requires [C01] ctx2(self)
  ensures [C01] ctx2(self)
  requires [C01] ctx3(self)
  ensures [C01] ctx3(self)
  requires [C01] ctx4(self)
  ensures [C01] ctx4(self)

func VimLParser.parse_cmd_perl(self)
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil
  requires [C01] onp(self.reader, self.ea.cmdpos) && onp(self.reader, self.ea.linepos)
  requires [C01] self.ea.cmd != nil && onp(self.reader, self.ea.argpos)
  requires [C01] ctx1(self)
  ensures [C01] ctx1(self)
  requires [C01] ctx2(self)
  ensures [C01] ctx2(self)
  requires [C01] ctx3(self)
  ensures [C01] ctx3(self)
  requires [C01] ctx4(self)
  ensures [C01] ctx4(self)

func VimLParser.parse_cmd_python(self)
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil
  requires [C01] onp(self.reader, self.ea.cmdpos) && onp(self.reader, self.ea.linepos)
  requires [C01] self.ea.cmd != nil && onp(self.reader, self.ea.argpos)
  requires [C01] ctx1(self)
  ensures [C01] ctx1(self)
  requires [C01] ctx2(self)
  ensures [C01] ctx2(self)
  requires [C01] ctx3(self)
  ensures [C01] ctx3(self)
  requires [C01] ctx4(self)
  ensures [C01] ctx4(self)

func VimLParser.parse_cmd_python3(self)
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil
  requires [C01] onp(self.reader, self.ea.cmdpos) && onp(self.reader, self.ea.linepos)
  requires [C01] self.ea.cmd != nil && onp(self.reader, self.ea.argpos)
  requires [C01] ctx1(self)
  ensures [C01] ctx1(self)
  requires [C01] ctx2(self)
  ensures [C01] ctx2(self)
  requires [C01] ctx3(self)
  ensures [C01] ctx3(self)
  requires [C01] ctx4(self)
  ensures [C01] ctx4(self)

func VimLParser.parse_cmd_return(self)
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil
  requires [C01] onp(self.reader, self.ea.cmdpos) && onp(self.reader, self.ea.linepos)
  requires [C01] self.ea.cmd != nil && onp(self.reader, self.ea.argpos)
  requires [C01] ctx1(self)
  ensures [C01] ctx1(self)
  requires [C01] ctx2(self)
  ensures [C01] ctx2(self)
  requires [C01] ctx3(self)
  ensures [C01] ctx3(self)
  requires [C01] ctx4(self)
  ensures [C01] ctx4(self)

func VimLParser.parse_cmd_ruby(self)
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil
  requires [C01] onp(self.reader, self.ea.cmdpos) && onp(self.reader, self.ea.linepos)
  requires [C01] self.ea.cmd != nil && onp(self.reader, self.ea.argpos)
  requires [C01] ctx1(self)
  ensures [C01] ctx1(self)
  requires [C01] ctx2(self)
  ensures [C01] ctx2(self)
  requires [C01] ctx3(self)
  ensures [C01] ctx3(self)
  requires [C01] ctx4(self)
  ensures [C01] ctx4(self)

func VimLParser.parse_cmd_syntax(self)
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil
  requires [C01] onp(self.reader, self.ea.cmdpos) && onp(self.reader, self.ea.linepos)
  requires [C01] self.ea.cmd != nil && onp(self.reader, self.ea.argpos)
  requires [C01] ctx1(self)
  ensures [C01] ctx1(self)
  requires [C01] ctx2(self)
  ensures [C01] ctx2(self)
  requires [C01] ctx3(self)
  ensures [C01] ctx3(self)
  requires [C01] ctx4(self)
  ensures [C01] ctx4(self)

func VimLParser.parse_cmd_tcl(self)
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil
  requires [C01] onp(self.reader, self.ea.cmdpos) && onp(self.reader, self.ea.linepos)
  requires [C01] self.ea.cmd != nil && onp(self.reader, self.ea.argpos)
  requires [C01] ctx1(self)
  ensures [C01] ctx1(self)
  requires [C01] ctx2(self)
  ensures [C01] ctx2(self)
  requires [C01] ctx3(self)
  ensures [C01] ctx3(self)
  requires [C01] ctx4(self)
  ensures [C01] ctx4(self)

func VimLParser.parse_cmd_throw(self)
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil
  requires [C01] onp(self.reader, self.ea.cmdpos) && onp(self.reader, self.ea.linepos)
  requires [C01] self.ea.cmd != nil && onp(self.reader, self.ea.argpos)
  requires [C01] ctx1(self)
  ensures [C01] ctx1(self)
  requires [C01] ctx2(self)
  ensures [C01] ctx2(self)
  requires [C01] ctx3(self)
  ensures [C01] ctx3(self)
  requires [C01] ctx4(self)
  ensures [C01] ctx4(self)

func VimLParser.parse_cmd_try(self)
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil
  requires [C01] onp(self.reader, self.ea.cmdpos) && onp(self.reader, self.ea.linepos)
  requires [C01] self.ea.cmd != nil && onp(self.reader, self.ea.argpos)
  requires [C01] ctx1(self)
  ensures [C01] ctx1(self)
  requires [C01] ctx2(self)
  ensures [C01] ctx2(self)
  requires [C01] ctx3(self)
  ensures [C01] ctx3(self)
  requires [C01] ctx4(self)
  ensures [C01] ctx4(self)

func VimLParser.parse_cmd_unlet(self)
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil
  requires [C01] onp(self.reader, self.ea.cmdpos) && onp(self.reader, self.ea.linepos)
  requires [C01] self.ea.cmd != nil && onp(self.reader, self.ea.argpos)
  requires [C01] ctx1(self)
  ensures [C01] ctx1(self)
  requires [C01] ctx2(self)
  ensures [C01] ctx2(self)
  requires [C01] ctx3(self)
  ensures [C01] ctx3(self)
  requires [C01] ctx4(self)
  ensures [C01] ctx4(self)

func VimLParser.parse_cmd_unlockvar(self)
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil
  requires [C01] onp(self.reader, self.ea.cmdpos) && onp(self.reader, self.ea.linepos)
  requires [C01] self.ea.cmd != nil && onp(self.reader, self.ea.argpos)
  requires [C01] ctx1(self)
  ensures [C01] ctx1(self)
  requires [C01] ctx2(self)
  ensures [C01] ctx2(self)
  requires [C01] ctx3(self)
  ensures [C01] ctx3(self)
  requires [C01] ctx4(self)
  ensures [C01] ctx4(self)

func VimLParser.parse_cmd_usercmd(self)
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil
  requires [C01] onp(self.reader, self.ea.cmdpos) && onp(self.reader, self.ea.linepos)
  requires [C01] self.ea.cmd != nil && onp(self.reader, self.ea.argpos)
  requires [C01] ctx1(self)
  ensures [C01] ctx1(self)
  requires [C01] ctx2(self)
  ensures [C01] ctx2(self)
  requires [C01] ctx3(self)
  ensures [C01] ctx3(self)
  requires [C01] ctx4(self)
  ensures [C01] ctx4(self)

func VimLParser.parse_cmd_while(self)
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil
  requires [C01] onp(self.reader, self.ea.cmdpos) && onp(self.reader, self.ea.linepos)
  requires [C01] self.ea.cmd != nil && onp(self.reader, self.ea.argpos)
  requires [C01] ctx1(self)
  ensures [C01] ctx1(self)
  requires [C01] ctx2(self)
  ensures [C01] ctx2(self)
  requires [C01] ctx3(self)
  ensures [C01] ctx3(self)
  requires [C01] ctx4(self)
  ensures [C01] ctx4(self)

func VimLParser.parse_wincmd(self)
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil
  requires [C01] onp(self.reader, self.ea.cmdpos) && onp(self.reader, self.ea.linepos)
  requires [C01] self.ea.cmd != nil && onp(self.reader, self.ea.argpos)
  requires [C01] ctx1(self)
  ensures [C01] ctx1(self)
  requires [C01] ctx2(self)
  ensures [C01] ctx2(self)
  requires [C01] ctx3(self)
  ensures [C01] ctx3(self)
  requires [C01] ctx4(self)
  ensures [C01] ctx4(self)

func VimLParser._parse_command(self, parser)
  modifies any(VimNode.done)
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil
  requires [C01] onp(self.reader, self.ea.cmdpos) && onp(self.reader, self.ea.linepos)
  requires [C01] self.ea.cmd != nil && onp(self.reader, self.ea.argpos)
  requires [C01] ctx1(self)
  ensures [C01] ctx1(self)
  requires [C01] ctx2(self)
  ensures [C01] ctx2(self)
  requires [C01] ctx3(self)
  ensures [C01] ctx3(self)
  requires [C01] ctx4(self)
  ensures [C01] ctx4(self)
  requires [C01] parser == self.ea.cmd.parser

func VimLParser.parse_cmd_modifier_range(self)
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil
  requires [C01] onp(self.reader, self.ea.cmdpos) && onp(self.reader, self.ea.linepos)
  requires [C01] ctx1(self)
  ensures [C01] ctx1(self)
  requires [C01] ctx2(self)
  ensures [C01] ctx2(self)
  requires [C01] ctx3(self)
  ensures [C01] ctx3(self)
  requires [C01] ctx4(self)
  ensures [C01] ctx4(self)

func VimLParser.parse_command(self)
  modifies any(VimNode.done)
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil
  requires [C01] ctx1(self)
  ensures [C01] ctx1(self)
  requires [C01] ctx2(self)
  ensures [C01] ctx2(self)
  requires [C01] ctx3(self)
  ensures [C01] ctx3(self)
  requires [C01] ctx4(self)
  ensures [C01] ctx4(self)
  requires self.ea.cmd == nil
  requires [C01] onp(self.reader, self.ea.linepos)
  ensures [C01] self.ea == old(self.ea) && self.reader == old(self.reader)

func VimLParser.parse_one_cmd(self)
  modifies any(VimNode.done)
  requires [C01] len(self.context) >= 1
  requires [C01] ctx1(self)
  ensures [C01] ctx1(self)
  requires [C01] ctx2(self)
  ensures [C01] ctx2(self)
  requires [C01] ctx3(self)
  ensures [C01] ctx3(self)
  requires [C01] ctx4(self)
  ensures [C01] ctx4(self)

func VimLParser.parse_command_modifiers(self)
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil

func VimLParser.parse_range(self)
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil

func VimLParser.parse_argopt(self)
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil

func VimLParser.parse_argcmd(self)
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil

func VimLParser.parse_comment(self)
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil
  requires [C01] ctx1(self)
  ensures [C01] ctx1(self)
  requires [C01] ctx2(self)
  ensures [C01] ctx2(self)
  requires [C01] ctx3(self)
  ensures [C01] ctx3(self)
  requires [C01] ctx4(self)
  ensures [C01] ctx4(self)

func VimLParser.parse_trail(self)
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil
  requires [C01] ctx1(self)
  ensures [C01] ctx1(self)
  requires [C01] ctx2(self)
  ensures [C01] ctx2(self)
  requires [C01] ctx3(self)
  ensures [C01] ctx3(self)
  requires [C01] ctx4(self)
  ensures [C01] ctx4(self)

func VimLParser.skip_vimgrep_pat(self)
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil

func VimLParser.find_command(self) -> r
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil

func VimLParser.separate_nextcmd(self) -> r
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil
  requires [C01] onp(self.reader, self.ea.cmdpos) && onp(self.reader, self.ea.linepos)
  requires [C01] self.ea.cmd != nil && onp(self.reader, self.ea.argpos)
  ensures [C01] onp(self.reader, r)
  loopcand q *pos : onp(self.reader, q)

func VimLParser.parse_lvalue_func(self) -> r
  requires [C01] len(self.context) >= 1
  ensures [C01] r != nil && isexpr(r.type_)

func VimLParser.parse_lvalue(self) -> r
  requires [C01] len(self.context) >= 1
  ensures [C01] r != nil && isexpr(r.type_)

func VimLParser.parse_constlvalue(self) -> r
  requires [C01] len(self.context) >= 1
  ensures [C01] r != nil && isexpr(r.type_)

func VimLParser.parse_exprlist(self) -> r
  requires [C01] len(self.context) >= 1
  ensures [C01] forall i int :: {r[i]} 0 <= i && i < len(r) ==> r[i] != nil && isalloc(r[i]) && isexpr(r[i].type_)
  loopcand l []*VimNode : forall i int :: {l[i]} 0 <= i && i < len(l) ==> l[i] != nil && isalloc(l[i]) && isexpr(l[i].type_)

func VimLParser.parse_lvaluelist(self) -> r
  requires [C01] len(self.context) >= 1
  ensures [C01] forall i int :: {r[i]} 0 <= i && i < len(r) ==> r[i] != nil && isalloc(r[i]) && isexpr(r[i].type_)
  loopcand l []*VimNode : forall i int :: {l[i]} 0 <= i && i < len(l) ==> l[i] != nil && isalloc(l[i]) && isexpr(l[i].type_)

func VimLParser.parse_letlhs(self) -> r
  requires [C01] len(self.context) >= 1
  ensures [C01] r != nil

func VimLParser.parse_constlhs(self) -> r
  requires [C01] len(self.context) >= 1
  ensures [C01] r != nil

func newAstNode(n, fn) -> r
  requires [C01] n != nil && isblk(n.type_) ==> n.done

func newExprNode(n, fn) -> r
  ensures [C01] tag(r) != 0 ==> payload(r) != 0

func ExprParser.Parse(p) -> r
  ensures [C01] tag(r) != 0 && payload(r) != 0

func newBody(n, fn) -> l
  requires [C01] forall i int :: {n.body[i]} 0 <= i && i < len(n.body) ==> dn(n.body[i])

func viml_range(start, end) -> r
  modifies nothing
  ensures [C01] forall k int :: {r[k]} 0 <= k && k < len(r) ==> r[k] == start + k
  loopcand l []int, i int : forall k int :: {l[k]} 0 <= k && k < len(l) ==> l[k] == start + k
  loopcand l []int, i int : i == start + len(l)

func VimLParser.parse(p, reader) -> n
  modifies any(VimNode.done)
  requires [C01] reader != nil
  ensures [C01] n.done && n.type_ == NODE_TOPLEVEL
  loopcand : ctx1(p)
  loopcand : ctx2(p)
  loopcand : ctx3(p)
  loopcand : ctx4(p)

func VimLParser.Parse(p, reader, fn) -> r
  modifies any(VimNode.done)
  requires [C01] reader != nil
  ensures [C01] tagis(r, *ast.File) && payload(r) != 0

func ExprParser.parse_expr1(self) -> r
  ensures [C01] r != nil && isexpr(r.type_)

func ExprParser.parse_expr2(self) -> r
  ensures [C01] r != nil && isexpr(r.type_)
  loopcand n *VimNode : n != nil && isexpr(n.type_)

func ExprParser.parse_expr3(self) -> r
  ensures [C01] r != nil && isexpr(r.type_)
  loopcand n *VimNode : n != nil && isexpr(n.type_)

func ExprParser.parse_expr4(self) -> r
  ensures [C01] r != nil && isexpr(r.type_)

func ExprParser.parse_expr5(self) -> r
  ensures [C01] r != nil && isexpr(r.type_)
  loopcand n *VimNode : n != nil && isexpr(n.type_)

func ExprParser.parse_expr6(self) -> r
  ensures [C01] r != nil && isexpr(r.type_)
  loopcand n *VimNode : n != nil && isexpr(n.type_)

func ExprParser.parse_expr7(self) -> r
  ensures [C01] r != nil && isexpr(r.type_)

func ExprParser.parse_expr8(self) -> r
  ensures [C01] r != nil && isexpr(r.type_)
  loopcand n *VimNode : n != nil && isexpr(n.type_)

func ExprParser.parse_expr9(self) -> r
  ensures [C01] r != nil && isexpr(r.type_)

func ExprParser.parse(self) -> n
  ensures [C01] n != nil && isexpr(n.type_)

func ExprParser.parse_identifier(self) -> r
  ensures [C01] r != nil && isexpr(r.type_)

func LvalueParser.parse(self) -> r
  ensures [C01] r != nil && isexpr(r.type_)

func LvalueParser.parse_lv8(self) -> r
  ensures [C01] r != nil && isexpr(r.type_)
  loopcand n *VimNode : n != nil && isexpr(n.type_)

func LvalueParser.parse_lv9(self) -> r
  ensures [C01] r != nil && isexpr(r.type_)

func ExprParser.parse_dot(self, token, left) -> r
  requires [C01] token != nil && left != nil && isexpr(left.type_)
  ensures [C01] r != nil ==> isexpr(r.type_)

func ExprParser.parse_concat(self, token, left) -> r
  requires [C01] token != nil && left != nil && isexpr(left.type_)
  ensures [C01] r != nil ==> isexpr(r.type_)

func ExprParser.parse_rlist(self) -> r
  ensures [C01] forall i int :: {r[i]} 0 <= i && i < len(r) ==> r[i] != nil && isalloc(r[i]) && isexpr(r[i].type_)
  loopcand l []*VimNode : forall i int :: {l[i]} 0 <= i && i < len(l) ==> l[i] != nil && isalloc(l[i]) && isexpr(l[i].type_)

func ExprParser.parse_curly_parts(self) -> r
  ensures [C01] forall i int :: {r[i]} 0 <= i && i < len(r) ==> r[i] != nil && isalloc(r[i]) && r[i].type_ in set(NODE_CURLYNAMEPART, NODE_CURLYNAMEEXPR)
  loopcand l []*VimNode : forall i int :: {l[i]} 0 <= i && i < len(l) ==> l[i] != nil && isalloc(l[i]) && l[i].type_ in set(NODE_CURLYNAMEPART, NODE_CURLYNAMEEXPR)

func ExprTokenizer.get(self) -> r
  ensures [C01] r != nil

func ExprTokenizer.get2(self) -> r
  ensures [C01] r != nil

func ExprTokenizer.peek(self) -> r
  ensures [C01] r != nil

func ExprTokenizer.parse_dict_literal_key(self) -> r
  ensures [C01] r != nil && isexpr(r.type_)

func StringReader.read_word(self) -> r
  ensures [C01] r == "" && old(self.i) < len(self.buf) ==> !rx(self.buf[old(self.i)], "^[0-9A-Za-z_]$")
  loopcand s string : s != "" || self.i == old(self.i)

func StringReader.read_name(self) -> r
  ensures [C01] r == "" && old(self.i) < len(self.buf) ==> !rx(self.buf[old(self.i)], "^[0-9A-Za-z_:#]$")
  loopcand s string : s != "" || self.i == old(self.i)

func StringReader.read_digit(self) -> r
  ensures [C01] r == "" && old(self.i) < len(self.buf) ==> !rx(self.buf[old(self.i)], "^[0-9]$")
  loopcand s string : s != "" || self.i == old(self.i)
  ensures [C01] alldig(r)
  loopcand s string : alldig(s)

func VimLParser.parse_heredoc(self) -> r
  requires [C01] len(self.context) >= 1
  requires [C01] self.ea != nil
  requires [C01] onp(self.reader, self.ea.cmdpos) && onp(self.reader, self.ea.linepos)
  requires [C01] ctx1(self)
  ensures [C01] ctx1(self)
  requires [C01] ctx2(self)
  ensures [C01] ctx2(self)
  requires [C01] ctx3(self)
  ensures [C01] ctx3(self)
  requires [C01] ctx4(self)
  ensures [C01] ctx4(self)
  ensures [C01] r != nil && r.type_ == NODE_HEREDOC

func viml_split(s, sep) -> r
  modifies nothing
  requires [C01] sep == "\\zs"
  ensures [C01] s != "" ==> len(r) > 0
  loopcand l []string : len(l) > 0 || $iter == 0

func VimLParser.parse_pattern(self, delimiter) -> p, q
  requires [C01] len(self.context) >= 1

func ExprParser.Parse(p) -> r
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func ExprParser.parse(self) -> n
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func ExprParser.parse_concat(self, token, left) -> r
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func ExprParser.parse_curly_parts(self) -> r
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func ExprParser.parse_dot(self, token, left) -> r
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func ExprParser.parse_expr1(self) -> r
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func ExprParser.parse_expr2(self) -> r
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func ExprParser.parse_expr3(self) -> r
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func ExprParser.parse_expr4(self) -> r
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func ExprParser.parse_expr5(self) -> r
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func ExprParser.parse_expr6(self) -> r
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func ExprParser.parse_expr7(self) -> r
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func ExprParser.parse_expr8(self) -> r
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func ExprParser.parse_expr9(self) -> r
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func ExprParser.parse_identifier(self) -> r
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func ExprParser.parse_rlist(self) -> r
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func ExprTokenizer.get(self) -> r
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func ExprTokenizer.get2(self) -> r
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func ExprTokenizer.get_dstring(self) -> r
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func ExprTokenizer.get_sstring(self) -> r
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func ExprTokenizer.parse_dict_literal_key(self) -> r
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func ExprTokenizer.peek(self) -> r
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func LvalueParser.parse(self) -> r
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func LvalueParser.parse_lv8(self) -> r
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func LvalueParser.parse_lv9(self) -> r
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func NewStringReader(lines) -> r
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func StringReader.getn(self, n) -> r
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func StringReader.peekn(self, n) -> r
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func StringReader.read_alnum(self) -> r
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func StringReader.read_alpha(self) -> r
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func StringReader.read_bdigit(self) -> r
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func StringReader.read_blob(self) -> r
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func StringReader.read_digit(self) -> r
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func StringReader.read_name(self) -> r
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func StringReader.read_odigit(self) -> r
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func StringReader.read_white(self) -> r
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func StringReader.read_word(self) -> r
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func StringReader.read_xdigit(self) -> r
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func StringReader.skip_white(self)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.Parse(p, reader, fn) -> r
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser._parse_command(self, parser)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.find_command(self) -> r
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse(p, reader) -> n
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_argcmd(self)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_argopt(self)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_cmd_append(self)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_cmd_break(self)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_cmd_call(self)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_cmd_catch(self)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_cmd_common(self)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_cmd_const(self)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_cmd_continue(self)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_cmd_delfunction(self)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_cmd_echo(self)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_cmd_echoerr(self)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_cmd_echohl(self)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_cmd_echomsg(self)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_cmd_echon(self)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_cmd_else(self)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_cmd_elseif(self)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_cmd_endfor(self)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_cmd_endfunction(self)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_cmd_endif(self)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_cmd_endtry(self)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_cmd_endwhile(self)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_cmd_eval(self)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_cmd_execute(self)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_cmd_finally(self)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_cmd_finish(self)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_cmd_for(self)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_cmd_function(self)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_cmd_if(self)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_cmd_insert(self)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_cmd_let(self)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_cmd_loadkeymap(self)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_cmd_lockvar(self)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_cmd_lua(self)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_cmd_modifier_range(self)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_cmd_mzscheme(self)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_cmd_perl(self)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_cmd_python(self)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_cmd_python3(self)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_cmd_return(self)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_cmd_ruby(self)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_cmd_syntax(self)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_cmd_tcl(self)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_cmd_throw(self)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_cmd_try(self)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_cmd_unlet(self)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_cmd_unlockvar(self)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_cmd_usercmd(self)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_cmd_while(self)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_command(self)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_command_modifiers(self)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_comment(self)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_constlhs(self) -> r
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_constlvalue(self) -> r
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_exprlist(self) -> r
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_heredoc(self) -> r
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_letlhs(self) -> r
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_lvalue(self) -> r
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_lvalue_func(self) -> r
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_lvaluelist(self) -> r
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_one_cmd(self)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_pattern(self, delimiter) -> p, q
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_range(self)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_trail(self)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.parse_wincmd(self)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.pop_context(self)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.separate_nextcmd(self) -> r
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func VimLParser.skip_vimgrep_pat(self)
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func newAstNode(n, fn) -> r
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func newBody(n, fn) -> l
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func newExprNode(n, fn) -> r
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func newExprs(xs, fn) -> l
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func newIdents(n, fn) -> l
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func newValues(n, fn) -> l
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func viml_range(start, end) -> r
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0

func viml_split(s, sep) -> r
  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0
