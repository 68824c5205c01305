// C10: which command a name stands for.
package go
frozen Cmd.name
frozen Cmd.minlen
frozen Cmd.flags
frozen Cmd.parser

// What every abbreviation stands for.
table [C10] builtin_commands neovim_additional_commands neovim_removed_commands = commands.tsv

ufun strindex(a string, b string) int
extern strings.Index(a, b) -> r
  modifies nothing
  ensures r == strindex(a, b)
extern strings.HasPrefix(a, b) -> r
  modifies nothing
  ensures r <==> strindex(a, b) == 0

// x is abbreviated by n
spec pm(x *Cmd, n string) bool = strindex(x.name, n) == 0 && len(n) >= x.minlen

// the first entry of each table that n abbreviates, or -1
ufun bi(n string) int
ufun ai(n string) int
ufun ri(n string) int
axiom bi_r: forall n string :: {bi(n)} 0 - 1 <= bi(n) && bi(n) < len(builtin_commands) && (bi(n) >= 0 ==> pm(builtin_commands[bi(n)], n))
axiom bi_f: forall n string, k int :: {bi(n), builtin_commands[k]} 0 <= k && k < ite(bi(n) < 0, len(builtin_commands), bi(n)) ==> !pm(builtin_commands[k], n)
axiom ai_r: forall n string :: {ai(n)} 0 - 1 <= ai(n) && ai(n) < len(neovim_additional_commands) && (ai(n) >= 0 ==> pm(neovim_additional_commands[ai(n)], n))
axiom ai_f: forall n string, k int :: {ai(n), neovim_additional_commands[k]} 0 <= k && k < ite(ai(n) < 0, len(neovim_additional_commands), ai(n)) ==> !pm(neovim_additional_commands[k], n)
axiom ri_r: forall n string :: {ri(n)} 0 - 1 <= ri(n) && ri(n) < len(neovim_removed_commands) && (ri(n) >= 0 ==> pm(neovim_removed_commands[ri(n)], n))
axiom ri_f: forall n string, k int :: {ri(n), neovim_removed_commands[k]} 0 <= k && k < ite(ri(n) < 0, len(neovim_removed_commands), ri(n)) ==> !pm(neovim_removed_commands[k], n)

spec bcmd(n string) *Cmd = ite(bi(n) >= 0, builtin_commands[bi(n)], nil)
spec resolve(n string, neo bool) *Cmd = ite(neo, ite(ri(n) >= 0, nil, ite(ai(n) >= 0, neovim_additional_commands[ai(n)], bcmd(n))), bcmd(n))
spec user(n string, neo bool) bool = (resolve(n, neo) == nil || resolve(n, neo).name == "Print") && rx(n, "^[A-Z]")

// the name written at i, and where it ends
spec alen(b []string, i int) int = let(n, sub(b, i, aend(b, i)), ite(n != "del" && rx(n, "^d\\(elete\\|elet\\|ele\\|el\\|e\\)[lp]$"), aend(b, i) - 1, aend(b, i)))
spec cend(b []string, i int) int =
  let(c, one(b, i), ite(c == "k", i + 1, ite(c == "s" && rx(look(b, i, 5), "\\v^s%(c[^sr][^i][^p]|g|i[^mlg]|I|r[^e])"), i + 1, ite(rx(c, "[@*!=><&~#]"), i + 1, ite(look(b, i, 2) == "py", nend(b, i), alen(b, i))))))
spec cname(b []string, i int) string =
  ite(one(b, i) == "s" && rx(look(b, i, 5), "\\v^s%(c[^sr][^i][^p]|g|i[^mlg]|I|r[^e])"), "substitute", sub(b, i, cend(b, i)))

inv [C10] VimLParser p: forall s string :: {has(p.find_command_cache, s)} has(p.find_command_cache, s) ==> !user(s, p.neovim) && p.find_command_cache[s] == resolve(s, p.neovim)
inv [C10] VimLParser p: p.find_command_cache != nil

func VimLParser.find_command(self) -> r
  modifies $cmd, $cmdat
  summary $cmd == r && $cmdat == old(self.reader.i)
  ensures [C10] cname(self.reader.buf, old(self.reader.i)) == "" ==> r == nil && self.reader.i == old(self.reader.i)
  ensures [C10] let(b, self.reader.buf, let(n, cname(b, old(self.reader.i)), let(e, cend(b, old(self.reader.i)), n != "" && user(n, self.neovim) ==> r != nil && self.reader.i == nend(b, e) && r.name == n + sub(b, e, nend(b, e)) && r.flags == "USERCMD" && r.parser == "parse_cmd_usercmd")))
  ensures [C10] let(b, self.reader.buf, let(n, cname(b, old(self.reader.i)), n != "" && !user(n, self.neovim) ==> r == resolve(n, self.neovim) && self.reader.i == cend(b, old(self.reader.i))))
  loopcand i int, n string : forall k int :: {builtin_commands[k]} 0 <= k && k <= i ==> !pm(builtin_commands[k], n)
  loopcand i int, n string : forall k int :: {neovim_additional_commands[k]} 0 <= k && k <= i ==> !pm(neovim_additional_commands[k], n)
  loopcand i int, n string : forall k int :: {neovim_removed_commands[k]} 0 <= k && k <= i ==> !pm(neovim_removed_commands[k], n)

// The command found is the one that is run: ghost $cmd is the one found last, from
// the name at $cmdat.
gvar $cmd *Cmd
gvar $cmdat int

func VimLParser.parse_command(self)
  modifies $cmd, $cmdat

func VimLParser._parse_command(self, parser)
  requires [C10] $cmdat == self.ea.cmdpos.i
  requires [C10] $cmd != nil && self.ea.cmd == $cmd && parser == $cmd.parser

func VimLParser.parse_cmd_append(self)
  requires [C10] self.ea.cmd.parser in set("parse_cmd_append", "parse_cmd_insert")
func VimLParser.parse_cmd_break(self)
  requires [C10] self.ea.cmd.parser == "parse_cmd_break"
func VimLParser.parse_cmd_call(self)
  requires [C10] self.ea.cmd.parser == "parse_cmd_call"
func VimLParser.parse_cmd_catch(self)
  requires [C10] self.ea.cmd.parser == "parse_cmd_catch"
func VimLParser.parse_cmd_common(self)
  requires [C10] self.ea.cmd.parser in set("parse_cmd_common", "parse_cmd_finish", "parse_cmd_usercmd", "parse_cmd_function", "parse_cmd_let", "parse_cmd_const")
func VimLParser.parse_cmd_const(self)
  requires [C10] self.ea.cmd.parser == "parse_cmd_const"
func VimLParser.parse_cmd_continue(self)
  requires [C10] self.ea.cmd.parser == "parse_cmd_continue"
func VimLParser.parse_cmd_delfunction(self)
  requires [C10] self.ea.cmd.parser == "parse_cmd_delfunction"
func VimLParser.parse_cmd_echo(self)
  requires [C10] self.ea.cmd.parser == "parse_cmd_echo"
func VimLParser.parse_cmd_echoerr(self)
  requires [C10] self.ea.cmd.parser == "parse_cmd_echoerr"
func VimLParser.parse_cmd_echohl(self)
  requires [C10] self.ea.cmd.parser == "parse_cmd_echohl"
func VimLParser.parse_cmd_echomsg(self)
  requires [C10] self.ea.cmd.parser == "parse_cmd_echomsg"
func VimLParser.parse_cmd_echon(self)
  requires [C10] self.ea.cmd.parser == "parse_cmd_echon"
func VimLParser.parse_cmd_else(self)
  requires [C10] self.ea.cmd.parser == "parse_cmd_else"
func VimLParser.parse_cmd_elseif(self)
  requires [C10] self.ea.cmd.parser == "parse_cmd_elseif"
func VimLParser.parse_cmd_endfor(self)
  requires [C10] self.ea.cmd.parser == "parse_cmd_endfor"
func VimLParser.parse_cmd_endfunction(self)
  requires [C10] self.ea.cmd.parser == "parse_cmd_endfunction"
func VimLParser.parse_cmd_endif(self)
  requires [C10] self.ea.cmd.parser == "parse_cmd_endif"
func VimLParser.parse_cmd_endtry(self)
  requires [C10] self.ea.cmd.parser == "parse_cmd_endtry"
func VimLParser.parse_cmd_endwhile(self)
  requires [C10] self.ea.cmd.parser == "parse_cmd_endwhile"
func VimLParser.parse_cmd_eval(self)
  requires [C10] self.ea.cmd.parser == "parse_cmd_eval"
func VimLParser.parse_cmd_execute(self)
  requires [C10] self.ea.cmd.parser == "parse_cmd_execute"
func VimLParser.parse_cmd_finally(self)
  requires [C10] self.ea.cmd.parser == "parse_cmd_finally"
func VimLParser.parse_cmd_finish(self)
  requires [C10] self.ea.cmd.parser == "parse_cmd_finish"
func VimLParser.parse_cmd_for(self)
  requires [C10] self.ea.cmd.parser == "parse_cmd_for"
func VimLParser.parse_cmd_function(self)
  requires [C10] self.ea.cmd.parser == "parse_cmd_function"
func VimLParser.parse_cmd_if(self)
  requires [C10] self.ea.cmd.parser == "parse_cmd_if"
func VimLParser.parse_cmd_insert(self)
  requires [C10] self.ea.cmd.parser == "parse_cmd_insert"
func VimLParser.parse_cmd_let(self)
  requires [C10] self.ea.cmd.parser == "parse_cmd_let"
func VimLParser.parse_cmd_loadkeymap(self)
  requires [C10] self.ea.cmd.parser == "parse_cmd_loadkeymap"
func VimLParser.parse_cmd_lockvar(self)
  requires [C10] self.ea.cmd.parser == "parse_cmd_lockvar"
func VimLParser.parse_cmd_lua(self)
  requires [C10] self.ea.cmd.parser in set("parse_cmd_lua", "parse_cmd_mzscheme", "parse_cmd_perl", "parse_cmd_python", "parse_cmd_python3", "parse_cmd_ruby", "parse_cmd_tcl")
func VimLParser.parse_cmd_modifier_range(self)
  requires [C10] true
func VimLParser.parse_cmd_mzscheme(self)
  requires [C10] self.ea.cmd.parser == "parse_cmd_mzscheme"
func VimLParser.parse_cmd_perl(self)
  requires [C10] self.ea.cmd.parser == "parse_cmd_perl"
func VimLParser.parse_cmd_python(self)
  requires [C10] self.ea.cmd.parser == "parse_cmd_python"
func VimLParser.parse_cmd_python3(self)
  requires [C10] self.ea.cmd.parser == "parse_cmd_python3"
func VimLParser.parse_cmd_return(self)
  requires [C10] self.ea.cmd.parser == "parse_cmd_return"
func VimLParser.parse_cmd_ruby(self)
  requires [C10] self.ea.cmd.parser == "parse_cmd_ruby"
func VimLParser.parse_cmd_syntax(self)
  requires [C10] self.ea.cmd.parser == "parse_cmd_syntax"
func VimLParser.parse_cmd_tcl(self)
  requires [C10] self.ea.cmd.parser == "parse_cmd_tcl"
func VimLParser.parse_cmd_throw(self)
  requires [C10] self.ea.cmd.parser == "parse_cmd_throw"
func VimLParser.parse_cmd_try(self)
  requires [C10] self.ea.cmd.parser == "parse_cmd_try"
func VimLParser.parse_cmd_unlet(self)
  requires [C10] self.ea.cmd.parser == "parse_cmd_unlet"
func VimLParser.parse_cmd_unlockvar(self)
  requires [C10] self.ea.cmd.parser == "parse_cmd_unlockvar"
func VimLParser.parse_cmd_usercmd(self)
  requires [C10] self.ea.cmd.parser == "parse_cmd_usercmd"
func VimLParser.parse_cmd_while(self)
  requires [C10] self.ea.cmd.parser == "parse_cmd_while"
func VimLParser.parse_wincmd(self)
  requires [C10] self.ea.cmd.parser == "parse_wincmd"
