// Code generated by gen_builtin_commands.vim
// source: autoload/vimlparser.vim
// DO NOT EDIT!

package vimlparser

var neovim_additional_commands = []*Cmd{
	{flags: "BANG|FILE1|TRLBAR|CMDWIN", minlen: 3, name: "rshada", parser: "parse_cmd_common"},
	{flags: "BANG|FILE1|TRLBAR|CMDWIN", minlen: 3, name: "wshada", parser: "parse_cmd_common"},
}
var neovim_removed_commands = []*Cmd{
	{flags: "RANGE|WHOLEFOLD|COUNT|EXFLAGS|TRLBAR|CMDWIN", minlen: 1, name: "Print", parser: "parse_cmd_common"},
	{flags: "TRLBAR|CMDWIN", minlen: 3, name: "fixdel", parser: "parse_cmd_common"},
	{flags: "EXTRA|NOTRLCOM", minlen: 5, name: "helpfind", parser: "parse_cmd_common"},
	{flags: "RANGE|BANG|EXTRA", minlen: 1, name: "open", parser: "parse_cmd_common"},
	{flags: "TRLBAR|CMDWIN", minlen: 2, name: "shell", parser: "parse_cmd_common"},
	{flags: "NEEDARG|EXTRA|TRLBAR|NOTRLCOM|CMDWIN", minlen: 2, name: "tearoff", parser: "parse_cmd_common"},
	{flags: "BANG|FILES|EDITCMD|ARGOPT|TRLBAR|CMDWIN", minlen: 2, name: "gvim", parser: "parse_cmd_common"},
}
var builtin_commands = []*Cmd{
	{flags: "BANG|RANGE|ZEROR|TRLBAR|CMDWIN|MODIFY", minlen: 1, name: "append", parser: "parse_cmd_append"},
	{flags: "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 2, name: "abbreviate", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|CMDWIN", minlen: 3, name: "abclear", parser: "parse_cmd_common"},
	{flags: "NEEDARG|EXTRA|NOTRLCOM", minlen: 3, name: "aboveleft", parser: "parse_cmd_common"},
	{flags: "BANG|RANGE|NOTADR|COUNT|TRLBAR", minlen: 2, name: "all", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|ZEROR|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 2, name: "amenu", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|ZEROR|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 2, name: "anoremenu", parser: "parse_cmd_common"},
	{flags: "BANG|FILES|EDITCMD|ARGOPT|TRLBAR", minlen: 2, name: "args", parser: "parse_cmd_common"},
	{flags: "BANG|NEEDARG|RANGE|NOTADR|ZEROR|FILES|TRLBAR", minlen: 4, name: "argadd", parser: "parse_cmd_common"},
	{flags: "BANG|RANGE|NOTADR|FILES|TRLBAR", minlen: 4, name: "argdelete", parser: "parse_cmd_common"},
	{flags: "BANG|NEEDARG|RANGE|NOTADR|FILE1|EDITCMD|ARGOPT|TRLBAR", minlen: 4, name: "argedit", parser: "parse_cmd_common"},
	{flags: "BANG|NEEDARG|EXTRA|NOTRLCOM", minlen: 5, name: "argdo", parser: "parse_cmd_common"},
	{flags: "BANG|FILES|EDITCMD|ARGOPT|TRLBAR", minlen: 4, name: "argglobal", parser: "parse_cmd_common"},
	{flags: "BANG|FILES|EDITCMD|ARGOPT|TRLBAR", minlen: 4, name: "arglocal", parser: "parse_cmd_common"},
	{flags: "BANG|RANGE|NOTADR|COUNT|EXTRA|EDITCMD|ARGOPT|TRLBAR", minlen: 4, name: "argument", parser: "parse_cmd_common"},
	{flags: "TRLBAR|SBOXOK|CMDWIN", minlen: 2, name: "ascii", parser: "parse_cmd_common"},
	{flags: "BANG|EXTRA|NOTRLCOM|USECTRLV|CMDWIN", minlen: 2, name: "autocmd", parser: "parse_cmd_common"},
	{flags: "BANG|WORD1|TRLBAR|CMDWIN", minlen: 3, name: "augroup", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 3, name: "aunmenu", parser: "parse_cmd_common"},
	{flags: "BANG|RANGE|NOTADR|BUFNAME|BUFUNL|COUNT|EXTRA|TRLBAR", minlen: 1, name: "buffer", parser: "parse_cmd_common"},
	{flags: "BANG|RANGE|NOTADR|COUNT|TRLBAR", minlen: 2, name: "bNext", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|COUNT|TRLBAR", minlen: 2, name: "ball", parser: "parse_cmd_common"},
	{flags: "NEEDARG|FILE1|EDITCMD|TRLBAR|CMDWIN", minlen: 3, name: "badd", parser: "parse_cmd_common"},
	{flags: "BANG|RANGE|NOTADR|BUFNAME|COUNT|EXTRA|TRLBAR", minlen: 2, name: "bdelete", parser: "parse_cmd_common"},
	{flags: "NEEDARG|WORD1|TRLBAR|CMDWIN", minlen: 2, name: "behave", parser: "parse_cmd_common"},
	{flags: "NEEDARG|EXTRA|NOTRLCOM", minlen: 3, name: "belowright", parser: "parse_cmd_common"},
	{flags: "BANG|RANGE|NOTADR|TRLBAR", minlen: 2, name: "bfirst", parser: "parse_cmd_common"},
	{flags: "BANG|RANGE|NOTADR|TRLBAR", minlen: 2, name: "blast", parser: "parse_cmd_common"},
	{flags: "BANG|RANGE|NOTADR|COUNT|TRLBAR", minlen: 2, name: "bmodified", parser: "parse_cmd_common"},
	{flags: "BANG|RANGE|NOTADR|COUNT|TRLBAR", minlen: 2, name: "bnext", parser: "parse_cmd_common"},
	{flags: "NEEDARG|EXTRA|NOTRLCOM", minlen: 2, name: "botright", parser: "parse_cmd_common"},
	{flags: "BANG|RANGE|NOTADR|COUNT|TRLBAR", minlen: 2, name: "bprevious", parser: "parse_cmd_common"},
	{flags: "BANG|RANGE|NOTADR|TRLBAR", minlen: 2, name: "brewind", parser: "parse_cmd_common"},
	{flags: "TRLBAR|SBOXOK|CMDWIN", minlen: 4, name: "break", parser: "parse_cmd_break"},
	{flags: "EXTRA|TRLBAR|CMDWIN", minlen: 6, name: "breakadd", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|CMDWIN", minlen: 6, name: "breakdel", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|CMDWIN", minlen: 6, name: "breaklist", parser: "parse_cmd_common"},
	{flags: "NEEDARG|EXTRA|NOTRLCOM|CMDWIN", minlen: 3, name: "browse", parser: "parse_cmd_common"},
	{flags: "BANG|NEEDARG|EXTRA|NOTRLCOM", minlen: 5, name: "bufdo", parser: "parse_cmd_common"},
	{flags: "BANG|TRLBAR|CMDWIN", minlen: 7, name: "buffers", parser: "parse_cmd_common"},
	{flags: "BANG|RANGE|NOTADR|BUFNAME|COUNT|EXTRA|TRLBAR", minlen: 3, name: "bunload", parser: "parse_cmd_common"},
	{flags: "BANG|RANGE|NOTADR|BUFNAME|BUFUNL|COUNT|EXTRA|TRLBAR", minlen: 2, name: "bwipeout", parser: "parse_cmd_common"},
	{flags: "BANG|WHOLEFOLD|RANGE|COUNT|TRLBAR|CMDWIN|MODIFY", minlen: 1, name: "change", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|COUNT|TRLBAR|BANG", minlen: 2, name: "cNext", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|COUNT|TRLBAR|BANG", minlen: 3, name: "cNfile", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 2, name: "cabbrev", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|CMDWIN", minlen: 4, name: "cabclear", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|WORD1|TRLBAR", minlen: 3, name: "caddbuffer", parser: "parse_cmd_common"},
	{flags: "NEEDARG|WORD1|NOTRLCOM|TRLBAR", minlen: 5, name: "caddexpr", parser: "parse_cmd_common"},
	{flags: "TRLBAR|FILE1", minlen: 5, name: "caddfile", parser: "parse_cmd_common"},
	{flags: "RANGE|NEEDARG|EXTRA|NOTRLCOM|SBOXOK|CMDWIN", minlen: 3, name: "call", parser: "parse_cmd_call"},
	{flags: "EXTRA|SBOXOK|CMDWIN", minlen: 3, name: "catch", parser: "parse_cmd_catch"},
	{flags: "BANG|RANGE|NOTADR|WORD1|TRLBAR", minlen: 2, name: "cbuffer", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|COUNT|TRLBAR|BANG", minlen: 2, name: "cc", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|COUNT|TRLBAR", minlen: 3, name: "cclose", parser: "parse_cmd_common"},
	{flags: "BANG|FILE1|TRLBAR|CMDWIN", minlen: 2, name: "cd", parser: "parse_cmd_common"},
	{flags: "TRLBAR|RANGE|WHOLEFOLD|EXTRA|CMDWIN|MODIFY", minlen: 2, name: "center", parser: "parse_cmd_common"},
	{flags: "NEEDARG|WORD1|NOTRLCOM|TRLBAR|BANG", minlen: 3, name: "cexpr", parser: "parse_cmd_common"},
	{flags: "TRLBAR|FILE1|BANG", minlen: 2, name: "cfile", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|COUNT|TRLBAR|BANG", minlen: 4, name: "cfirst", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|WORD1|TRLBAR", minlen: 5, name: "cgetbuffer", parser: "parse_cmd_common"},
	{flags: "NEEDARG|WORD1|NOTRLCOM|TRLBAR", minlen: 5, name: "cgetexpr", parser: "parse_cmd_common"},
	{flags: "TRLBAR|FILE1", minlen: 2, name: "cgetfile", parser: "parse_cmd_common"},
	{flags: "TRLBAR|CMDWIN", minlen: 7, name: "changes", parser: "parse_cmd_common"},
	{flags: "BANG|FILE1|TRLBAR|CMDWIN", minlen: 3, name: "chdir", parser: "parse_cmd_common"},
	{flags: "TRLBAR|BANG|CMDWIN", minlen: 3, name: "checkpath", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|BUFNAME|COUNT|EXTRA|TRLBAR", minlen: 6, name: "checktime", parser: "parse_cmd_common"},
	{flags: "BANG|EXTRA|TRLBAR|CMDWIN", minlen: 2, name: "clist", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|COUNT|TRLBAR|BANG", minlen: 3, name: "clast", parser: "parse_cmd_common"},
	{flags: "BANG|TRLBAR|CMDWIN", minlen: 3, name: "close", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 2, name: "cmap", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|CMDWIN", minlen: 5, name: "cmapclear", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|ZEROR|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 3, name: "cmenu", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|COUNT|TRLBAR|BANG", minlen: 2, name: "cnext", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|COUNT|TRLBAR", minlen: 4, name: "cnewer", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|COUNT|TRLBAR|BANG", minlen: 3, name: "cnfile", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 3, name: "cnoremap", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 6, name: "cnoreabbrev", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|ZEROR|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 7, name: "cnoremenu", parser: "parse_cmd_common"},
	{flags: "RANGE|WHOLEFOLD|EXTRA|TRLBAR|CMDWIN|MODIFY", minlen: 2, name: "copy", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|COUNT|TRLBAR", minlen: 3, name: "colder", parser: "parse_cmd_common"},
	{flags: "WORD1|TRLBAR|CMDWIN", minlen: 4, name: "colorscheme", parser: "parse_cmd_common"},
	{flags: "EXTRA|BANG|NOTRLCOM|USECTRLV|CMDWIN", minlen: 3, name: "command", parser: "parse_cmd_common"},
	{flags: "TRLBAR|CMDWIN", minlen: 4, name: "comclear", parser: "parse_cmd_common"},
	{flags: "BANG|TRLBAR|WORD1|CMDWIN", minlen: 4, name: "compiler", parser: "parse_cmd_common"},
	{flags: "TRLBAR|SBOXOK|CMDWIN", minlen: 3, name: "continue", parser: "parse_cmd_continue"},
	{flags: "NEEDARG|EXTRA|NOTRLCOM|CMDWIN", minlen: 4, name: "confirm", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|COUNT|TRLBAR", minlen: 4, name: "copen", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|COUNT|TRLBAR|BANG", minlen: 2, name: "cprevious", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|COUNT|TRLBAR|BANG", minlen: 3, name: "cpfile", parser: "parse_cmd_common"},
	{flags: "TRLBAR|BANG", minlen: 2, name: "cquit", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|COUNT|TRLBAR|BANG", minlen: 2, name: "crewind", parser: "parse_cmd_common"},
	{flags: "EXTRA|NOTRLCOM|XFILE", minlen: 2, name: "cscope", parser: "parse_cmd_common"},
	{flags: "BANG|TRLBAR|WORD1", minlen: 3, name: "cstag", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 2, name: "cunmap", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 4, name: "cunabbrev", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 5, name: "cunmenu", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|COUNT|TRLBAR", minlen: 2, name: "cwindow", parser: "parse_cmd_common"},
	{flags: "RANGE|WHOLEFOLD|REGSTR|COUNT|TRLBAR|CMDWIN|MODIFY", minlen: 1, name: "delete", parser: "parse_cmd_common"},
	{flags: "BANG|EXTRA|TRLBAR|CMDWIN", minlen: 4, name: "delmarks", parser: "parse_cmd_common"},
	{flags: "NEEDARG|EXTRA|NOTRLCOM|SBOXOK|CMDWIN", minlen: 3, name: "debug", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|ZEROR|TRLBAR|CMDWIN", minlen: 6, name: "debuggreedy", parser: "parse_cmd_common"},
	{flags: "NEEDARG|WORD1|TRLBAR|CMDWIN", minlen: 4, name: "delcommand", parser: "parse_cmd_common"},
	{flags: "BANG|NEEDARG|WORD1|CMDWIN", minlen: 4, name: "delfunction", parser: "parse_cmd_delfunction"},
	{flags: "BANG|TRLBAR", minlen: 3, name: "diffupdate", parser: "parse_cmd_common"},
	{flags: "RANGE|EXTRA|TRLBAR|MODIFY", minlen: 5, name: "diffget", parser: "parse_cmd_common"},
	{flags: "BANG|TRLBAR", minlen: 5, name: "diffoff", parser: "parse_cmd_common"},
	{flags: "EXTRA|FILE1|TRLBAR|MODIFY", minlen: 5, name: "diffpatch", parser: "parse_cmd_common"},
	{flags: "RANGE|EXTRA|TRLBAR", minlen: 6, name: "diffput", parser: "parse_cmd_common"},
	{flags: "EXTRA|FILE1|TRLBAR", minlen: 5, name: "diffsplit", parser: "parse_cmd_common"},
	{flags: "TRLBAR", minlen: 5, name: "diffthis", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|CMDWIN", minlen: 3, name: "digraphs", parser: "parse_cmd_common"},
	{flags: "EXTRA|NOTRLCOM|TRLBAR|SBOXOK|CMDWIN", minlen: 2, name: "display", parser: "parse_cmd_common"},
	{flags: "BANG|RANGE|DFLALL|WHOLEFOLD|EXTRA", minlen: 2, name: "djump", parser: "parse_cmd_common"},
	{flags: "BANG|RANGE|DFLALL|WHOLEFOLD|EXTRA|CMDWIN", minlen: 2, name: "dlist", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|CMDWIN", minlen: 2, name: "doautocmd", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|CMDWIN", minlen: 7, name: "doautoall", parser: "parse_cmd_common"},
	{flags: "FILES|EDITCMD|NEEDARG|ARGOPT|TRLBAR", minlen: 2, name: "drop", parser: "parse_cmd_common"},
	{flags: "BANG|RANGE|DFLALL|WHOLEFOLD|EXTRA|CMDWIN", minlen: 2, name: "dsearch", parser: "parse_cmd_common"},
	{flags: "BANG|RANGE|DFLALL|WHOLEFOLD|EXTRA", minlen: 3, name: "dsplit", parser: "parse_cmd_common"},
	{flags: "BANG|FILE1|EDITCMD|ARGOPT|TRLBAR", minlen: 1, name: "edit", parser: "parse_cmd_common"},
	{flags: "TRLBAR|EXTRA|NOSPC|CMDWIN", minlen: 2, name: "earlier", parser: "parse_cmd_common"},
	{flags: "EXTRA|NOTRLCOM|SBOXOK|CMDWIN", minlen: 2, name: "echo", parser: "parse_cmd_echo"},
	{flags: "EXTRA|NOTRLCOM|SBOXOK|CMDWIN", minlen: 5, name: "echoerr", parser: "parse_cmd_echoerr"},
	{flags: "EXTRA|TRLBAR|SBOXOK|CMDWIN", minlen: 5, name: "echohl", parser: "parse_cmd_echohl"},
	{flags: "EXTRA|NOTRLCOM|SBOXOK|CMDWIN", minlen: 5, name: "echomsg", parser: "parse_cmd_echomsg"},
	{flags: "EXTRA|NOTRLCOM|SBOXOK|CMDWIN", minlen: 5, name: "echon", parser: "parse_cmd_echon"},
	{flags: "TRLBAR|SBOXOK|CMDWIN", minlen: 2, name: "else", parser: "parse_cmd_else"},
	{flags: "EXTRA|NOTRLCOM|SBOXOK|CMDWIN", minlen: 5, name: "elseif", parser: "parse_cmd_elseif"},
	{flags: "NEEDARG|EXTRA|TRLBAR|NOTRLCOM|RANGE|NOTADR|CMDWIN", minlen: 2, name: "emenu", parser: "parse_cmd_common"},
	{flags: "TRLBAR|SBOXOK|CMDWIN", minlen: 2, name: "endif", parser: "parse_cmd_endif"},
	{flags: "TRLBAR|SBOXOK|CMDWIN", minlen: 5, name: "endfor", parser: "parse_cmd_endfor"},
	{flags: "TRLBAR|CMDWIN", minlen: 4, name: "endfunction", parser: "parse_cmd_endfunction"},
	{flags: "TRLBAR|SBOXOK|CMDWIN", minlen: 4, name: "endtry", parser: "parse_cmd_endtry"},
	{flags: "TRLBAR|SBOXOK|CMDWIN", minlen: 4, name: "endwhile", parser: "parse_cmd_endwhile"},
	{flags: "BANG|TRLBAR", minlen: 3, name: "enew", parser: "parse_cmd_common"},
	{flags: "EXTRA|NOTRLCOM|SBOXOK|CMDWIN", minlen: 2, name: "eval", parser: "parse_cmd_eval"},
	{flags: "BANG|FILE1|EDITCMD|ARGOPT|TRLBAR", minlen: 2, name: "ex", parser: "parse_cmd_common"},
	{flags: "EXTRA|NOTRLCOM|SBOXOK|CMDWIN", minlen: 3, name: "execute", parser: "parse_cmd_execute"},
	{flags: "RANGE|WHOLEFOLD|BANG|FILE1|ARGOPT|DFLALL|TRLBAR|CMDWIN", minlen: 3, name: "exit", parser: "parse_cmd_common"},
	{flags: "TRLBAR", minlen: 3, name: "exusage", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|ZEROR|BANG|FILE1|TRLBAR", minlen: 1, name: "file", parser: "parse_cmd_common"},
	{flags: "BANG|TRLBAR|CMDWIN", minlen: 5, name: "files", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|CMDWIN", minlen: 5, name: "filetype", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|BANG|FILE1|EDITCMD|ARGOPT|TRLBAR", minlen: 3, name: "find", parser: "parse_cmd_common"},
	{flags: "TRLBAR|SBOXOK|CMDWIN", minlen: 4, name: "finally", parser: "parse_cmd_finally"},
	{flags: "TRLBAR|SBOXOK|CMDWIN", minlen: 4, name: "finish", parser: "parse_cmd_finish"},
	{flags: "EXTRA|BANG|EDITCMD|ARGOPT|TRLBAR", minlen: 3, name: "first", parser: "parse_cmd_common"},
	{flags: "TRLBAR|CMDWIN", minlen: 3, name: "fixdel", parser: "parse_cmd_common"},
	{flags: "RANGE|WHOLEFOLD|TRLBAR|SBOXOK|CMDWIN", minlen: 2, name: "fold", parser: "parse_cmd_common"},
	{flags: "RANGE|BANG|WHOLEFOLD|TRLBAR|SBOXOK|CMDWIN", minlen: 5, name: "foldclose", parser: "parse_cmd_common"},
	{flags: "RANGE|DFLALL|NEEDARG|EXTRA|NOTRLCOM", minlen: 5, name: "folddoopen", parser: "parse_cmd_common"},
	{flags: "RANGE|DFLALL|NEEDARG|EXTRA|NOTRLCOM", minlen: 7, name: "folddoclosed", parser: "parse_cmd_common"},
	{flags: "RANGE|BANG|WHOLEFOLD|TRLBAR|SBOXOK|CMDWIN", minlen: 5, name: "foldopen", parser: "parse_cmd_common"},
	{flags: "EXTRA|NOTRLCOM|SBOXOK|CMDWIN", minlen: 3, name: "for", parser: "parse_cmd_for"},
	{flags: "EXTRA|BANG|CMDWIN", minlen: 2, name: "function", parser: "parse_cmd_function"},
	{flags: "RANGE|WHOLEFOLD|BANG|EXTRA|DFLALL|SBOXOK|CMDWIN", minlen: 1, name: "global", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|COUNT|TRLBAR|SBOXOK|CMDWIN", minlen: 2, name: "goto", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|BANG|NEEDARG|EXTRA|NOTRLCOM|TRLBAR|XFILE", minlen: 2, name: "grep", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|BANG|NEEDARG|EXTRA|NOTRLCOM|TRLBAR|XFILE", minlen: 5, name: "grepadd", parser: "parse_cmd_common"},
	{flags: "BANG|FILES|EDITCMD|ARGOPT|TRLBAR|CMDWIN", minlen: 2, name: "gui", parser: "parse_cmd_common"},
	{flags: "BANG|FILES|EDITCMD|ARGOPT|TRLBAR|CMDWIN", minlen: 2, name: "gvim", parser: "parse_cmd_common"},
	{flags: "RANGE|COUNT|EXTRA|TRLBAR|DFLALL|BANG", minlen: 2, name: "hardcopy", parser: "parse_cmd_common"},
	{flags: "BANG|EXTRA|NOTRLCOM", minlen: 1, name: "help", parser: "parse_cmd_common"},
	{flags: "EXTRA|NOTRLCOM", minlen: 5, name: "helpfind", parser: "parse_cmd_common"},
	{flags: "EXTRA|NOTRLCOM|NEEDARG", minlen: 5, name: "helpgrep", parser: "parse_cmd_common"},
	{flags: "NEEDARG|FILES|TRLBAR|CMDWIN", minlen: 5, name: "helptags", parser: "parse_cmd_common"},
	{flags: "BANG|EXTRA|TRLBAR|SBOXOK|CMDWIN", minlen: 2, name: "highlight", parser: "parse_cmd_common"},
	{flags: "BANG|EXTRA|NOTRLCOM", minlen: 3, name: "hide", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|CMDWIN", minlen: 3, name: "history", parser: "parse_cmd_common"},
	{flags: "BANG|RANGE|TRLBAR|CMDWIN|MODIFY", minlen: 1, name: "insert", parser: "parse_cmd_insert"},
	{flags: "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 2, name: "iabbrev", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|CMDWIN", minlen: 4, name: "iabclear", parser: "parse_cmd_common"},
	{flags: "EXTRA|NOTRLCOM|SBOXOK|CMDWIN", minlen: 2, name: "if", parser: "parse_cmd_if"},
	{flags: "BANG|RANGE|DFLALL|WHOLEFOLD|EXTRA", minlen: 2, name: "ijump", parser: "parse_cmd_common"},
	{flags: "BANG|RANGE|DFLALL|WHOLEFOLD|EXTRA|CMDWIN", minlen: 2, name: "ilist", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 2, name: "imap", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|CMDWIN", minlen: 5, name: "imapclear", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|ZEROR|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 3, name: "imenu", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 3, name: "inoremap", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 6, name: "inoreabbrev", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|ZEROR|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 7, name: "inoremenu", parser: "parse_cmd_common"},
	{flags: "TRLBAR|CMDWIN", minlen: 3, name: "intro", parser: "parse_cmd_common"},
	{flags: "BANG|RANGE|DFLALL|WHOLEFOLD|EXTRA|CMDWIN", minlen: 2, name: "isearch", parser: "parse_cmd_common"},
	{flags: "BANG|RANGE|DFLALL|WHOLEFOLD|EXTRA", minlen: 3, name: "isplit", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 2, name: "iunmap", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 4, name: "iunabbrev", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 5, name: "iunmenu", parser: "parse_cmd_common"},
	{flags: "BANG|RANGE|WHOLEFOLD|COUNT|EXFLAGS|TRLBAR|CMDWIN|MODIFY", minlen: 1, name: "join", parser: "parse_cmd_common"},
	{flags: "TRLBAR|CMDWIN", minlen: 2, name: "jumps", parser: "parse_cmd_common"},
	{flags: "RANGE|WORD1|TRLBAR|SBOXOK|CMDWIN", minlen: 1, name: "k", parser: "parse_cmd_common"},
	{flags: "NEEDARG|EXTRA|NOTRLCOM", minlen: 5, name: "keepalt", parser: "parse_cmd_common"},
	{flags: "NEEDARG|EXTRA|NOTRLCOM", minlen: 3, name: "keepmarks", parser: "parse_cmd_common"},
	{flags: "NEEDARG|EXTRA|NOTRLCOM", minlen: 5, name: "keepjumps", parser: "parse_cmd_common"},
	{flags: "NEEDARG|EXTRA|NOTRLCOM", minlen: 5, name: "keeppatterns", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|COUNT|TRLBAR|BANG", minlen: 2, name: "lNext", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|COUNT|TRLBAR|BANG", minlen: 3, name: "lNfile", parser: "parse_cmd_common"},
	{flags: "RANGE|WHOLEFOLD|COUNT|EXFLAGS|TRLBAR|CMDWIN", minlen: 1, name: "list", parser: "parse_cmd_common"},
	{flags: "NEEDARG|WORD1|NOTRLCOM|TRLBAR", minlen: 3, name: "laddexpr", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|WORD1|TRLBAR", minlen: 5, name: "laddbuffer", parser: "parse_cmd_common"},
	{flags: "TRLBAR|FILE1", minlen: 5, name: "laddfile", parser: "parse_cmd_common"},
	{flags: "EXTRA|BANG|EDITCMD|ARGOPT|TRLBAR", minlen: 2, name: "last", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|CMDWIN", minlen: 3, name: "language", parser: "parse_cmd_common"},
	{flags: "TRLBAR|EXTRA|NOSPC|CMDWIN", minlen: 3, name: "later", parser: "parse_cmd_common"},
	{flags: "BANG|RANGE|NOTADR|WORD1|TRLBAR", minlen: 2, name: "lbuffer", parser: "parse_cmd_common"},
	{flags: "BANG|FILE1|TRLBAR|CMDWIN", minlen: 2, name: "lcd", parser: "parse_cmd_common"},
	{flags: "BANG|FILE1|TRLBAR|CMDWIN", minlen: 3, name: "lchdir", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|COUNT|TRLBAR", minlen: 3, name: "lclose", parser: "parse_cmd_common"},
	{flags: "EXTRA|NOTRLCOM|XFILE", minlen: 3, name: "lcscope", parser: "parse_cmd_common"},
	{flags: "TRLBAR|RANGE|WHOLEFOLD|EXTRA|CMDWIN|MODIFY", minlen: 2, name: "left", parser: "parse_cmd_common"},
	{flags: "NEEDARG|EXTRA|NOTRLCOM", minlen: 5, name: "leftabove", parser: "parse_cmd_common"},
	{flags: "EXTRA|NOTRLCOM|SBOXOK|CMDWIN", minlen: 3, name: "let", parser: "parse_cmd_let"},
	{flags: "EXTRA|NOTRLCOM|SBOXOK|CMDWIN", minlen: 4, name: "const", parser: "parse_cmd_const"},
	{flags: "NEEDARG|WORD1|NOTRLCOM|TRLBAR|BANG", minlen: 3, name: "lexpr", parser: "parse_cmd_common"},
	{flags: "TRLBAR|FILE1|BANG", minlen: 2, name: "lfile", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|COUNT|TRLBAR|BANG", minlen: 4, name: "lfirst", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|WORD1|TRLBAR", minlen: 5, name: "lgetbuffer", parser: "parse_cmd_common"},
	{flags: "NEEDARG|WORD1|NOTRLCOM|TRLBAR", minlen: 5, name: "lgetexpr", parser: "parse_cmd_common"},
	{flags: "TRLBAR|FILE1", minlen: 2, name: "lgetfile", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|BANG|NEEDARG|EXTRA|NOTRLCOM|TRLBAR|XFILE", minlen: 3, name: "lgrep", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|BANG|NEEDARG|EXTRA|NOTRLCOM|TRLBAR|XFILE", minlen: 6, name: "lgrepadd", parser: "parse_cmd_common"},
	{flags: "EXTRA|NOTRLCOM|NEEDARG", minlen: 2, name: "lhelpgrep", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|COUNT|TRLBAR|BANG", minlen: 2, name: "ll", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|COUNT|TRLBAR|BANG", minlen: 3, name: "llast", parser: "parse_cmd_common"},
	{flags: "BANG|EXTRA|TRLBAR|CMDWIN", minlen: 3, name: "list", parser: "parse_cmd_common"},
	{flags: "BANG|EXTRA|NOTRLCOM|TRLBAR|XFILE", minlen: 4, name: "lmake", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 2, name: "lmap", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|CMDWIN", minlen: 5, name: "lmapclear", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|COUNT|TRLBAR|BANG", minlen: 3, name: "lnext", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|COUNT|TRLBAR", minlen: 4, name: "lnewer", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|COUNT|TRLBAR|BANG", minlen: 3, name: "lnfile", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 2, name: "lnoremap", parser: "parse_cmd_common"},
	{flags: "CMDWIN", minlen: 5, name: "loadkeymap", parser: "parse_cmd_loadkeymap"},
	{flags: "FILE1|TRLBAR", minlen: 2, name: "loadview", parser: "parse_cmd_common"},
	{flags: "NEEDARG|EXTRA|NOTRLCOM", minlen: 3, name: "lockmarks", parser: "parse_cmd_common"},
	{flags: "BANG|EXTRA|NEEDARG|SBOXOK|CMDWIN", minlen: 5, name: "lockvar", parser: "parse_cmd_lockvar"},
	{flags: "RANGE|NOTADR|COUNT|TRLBAR", minlen: 3, name: "lolder", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|COUNT|TRLBAR", minlen: 3, name: "lopen", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|COUNT|TRLBAR|BANG", minlen: 2, name: "lprevious", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|COUNT|TRLBAR|BANG", minlen: 3, name: "lpfile", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|COUNT|TRLBAR|BANG", minlen: 2, name: "lrewind", parser: "parse_cmd_common"},
	{flags: "BANG|TRLBAR|CMDWIN", minlen: 2, name: "ls", parser: "parse_cmd_common"},
	{flags: "NOTADR|TRLBAR|BANG|WORD1", minlen: 2, name: "ltag", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 2, name: "lunmap", parser: "parse_cmd_common"},
	{flags: "RANGE|EXTRA|NEEDARG|CMDWIN", minlen: 3, name: "lua", parser: "parse_cmd_lua"},
	{flags: "RANGE|DFLALL|EXTRA|NEEDARG|CMDWIN", minlen: 4, name: "luado", parser: "parse_cmd_common"},
	{flags: "RANGE|FILE1|NEEDARG|CMDWIN", minlen: 4, name: "luafile", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|BANG|NEEDARG|EXTRA|NOTRLCOM|TRLBAR|XFILE", minlen: 2, name: "lvimgrep", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|BANG|NEEDARG|EXTRA|NOTRLCOM|TRLBAR|XFILE", minlen: 9, name: "lvimgrepadd", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|COUNT|TRLBAR", minlen: 2, name: "lwindow", parser: "parse_cmd_common"},
	{flags: "RANGE|WHOLEFOLD|EXTRA|TRLBAR|CMDWIN|MODIFY", minlen: 1, name: "move", parser: "parse_cmd_common"},
	{flags: "RANGE|WORD1|TRLBAR|SBOXOK|CMDWIN", minlen: 2, name: "mark", parser: "parse_cmd_common"},
	{flags: "BANG|EXTRA|NOTRLCOM|TRLBAR|XFILE", minlen: 3, name: "make", parser: "parse_cmd_common"},
	{flags: "BANG|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 3, name: "map", parser: "parse_cmd_common"},
	{flags: "EXTRA|BANG|TRLBAR|CMDWIN", minlen: 4, name: "mapclear", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|CMDWIN", minlen: 5, name: "marks", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|EXTRA|CMDWIN", minlen: 3, name: "match", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|ZEROR|BANG|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 2, name: "menu", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 5, name: "menutranslate", parser: "parse_cmd_common"},
	{flags: "TRLBAR|CMDWIN", minlen: 3, name: "messages", parser: "parse_cmd_common"},
	{flags: "BANG|FILE1|TRLBAR|CMDWIN", minlen: 2, name: "mkexrc", parser: "parse_cmd_common"},
	{flags: "BANG|FILE1|TRLBAR", minlen: 3, name: "mksession", parser: "parse_cmd_common"},
	{flags: "BANG|NEEDARG|EXTRA|NOTRLCOM|TRLBAR|XFILE", minlen: 4, name: "mkspell", parser: "parse_cmd_common"},
	{flags: "BANG|FILE1|TRLBAR|CMDWIN", minlen: 3, name: "mkvimrc", parser: "parse_cmd_common"},
	{flags: "BANG|FILE1|TRLBAR", minlen: 5, name: "mkview", parser: "parse_cmd_common"},
	{flags: "WORD1|TRLBAR|CMDWIN", minlen: 3, name: "mode", parser: "parse_cmd_common"},
	{flags: "RANGE|EXTRA|DFLALL|NEEDARG|CMDWIN|SBOXOK", minlen: 2, name: "mzscheme", parser: "parse_cmd_mzscheme"},
	{flags: "RANGE|FILE1|NEEDARG|CMDWIN", minlen: 3, name: "mzfile", parser: "parse_cmd_common"},
	{flags: "TRLBAR|CMDWIN", minlen: 3, name: "nbclose", parser: "parse_cmd_common"},
	{flags: "EXTRA|NOTADR|NEEDARG", minlen: 2, name: "nbkey", parser: "parse_cmd_common"},
	{flags: "WORD1|TRLBAR|CMDWIN", minlen: 3, name: "nbstart", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|BANG|FILES|EDITCMD|ARGOPT|TRLBAR", minlen: 1, name: "next", parser: "parse_cmd_common"},
	{flags: "BANG|FILE1|RANGE|NOTADR|EDITCMD|ARGOPT|TRLBAR", minlen: 3, name: "new", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 2, name: "nmap", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|CMDWIN", minlen: 5, name: "nmapclear", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|ZEROR|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 3, name: "nmenu", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 2, name: "nnoremap", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|ZEROR|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 7, name: "nnoremenu", parser: "parse_cmd_common"},
	{flags: "NEEDARG|EXTRA|NOTRLCOM", minlen: 3, name: "noautocmd", parser: "parse_cmd_common"},
	{flags: "BANG|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 2, name: "noremap", parser: "parse_cmd_common"},
	{flags: "TRLBAR|SBOXOK|CMDWIN", minlen: 3, name: "nohlsearch", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 5, name: "noreabbrev", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|ZEROR|BANG|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 6, name: "noremenu", parser: "parse_cmd_common"},
	{flags: "RANGE|BANG|EXTRA|NEEDARG|NOTRLCOM|USECTRLV|SBOXOK|CMDWIN", minlen: 4, name: "normal", parser: "parse_cmd_common"},
	{flags: "RANGE|WHOLEFOLD|COUNT|EXFLAGS|TRLBAR|CMDWIN", minlen: 2, name: "number", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 3, name: "nunmap", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 5, name: "nunmenu", parser: "parse_cmd_common"},
	{flags: "BANG|TRLBAR|SBOXOK|CMDWIN", minlen: 2, name: "oldfiles", parser: "parse_cmd_common"},
	{flags: "RANGE|BANG|EXTRA", minlen: 1, name: "open", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 2, name: "omap", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|CMDWIN", minlen: 5, name: "omapclear", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|ZEROR|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 3, name: "omenu", parser: "parse_cmd_common"},
	{flags: "BANG|TRLBAR", minlen: 2, name: "only", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 3, name: "onoremap", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|ZEROR|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 7, name: "onoremenu", parser: "parse_cmd_common"},
	{flags: "TRLBAR", minlen: 3, name: "options", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 2, name: "ounmap", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 5, name: "ounmenu", parser: "parse_cmd_common"},
	{flags: "EXTRA|NOTRLCOM|SBOXOK|CMDWIN", minlen: 2, name: "ownsyntax", parser: "parse_cmd_common"},
	{flags: "BANG|TRLBAR", minlen: 2, name: "pclose", parser: "parse_cmd_common"},
	{flags: "BANG|FILE1|EDITCMD|ARGOPT|TRLBAR", minlen: 3, name: "pedit", parser: "parse_cmd_common"},
	{flags: "RANGE|EXTRA|DFLALL|NEEDARG|SBOXOK|CMDWIN", minlen: 2, name: "perl", parser: "parse_cmd_perl"},
	{flags: "RANGE|WHOLEFOLD|COUNT|EXFLAGS|TRLBAR|CMDWIN|SBOXOK", minlen: 1, name: "print", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|CMDWIN", minlen: 5, name: "profdel", parser: "parse_cmd_common"},
	{flags: "BANG|EXTRA|TRLBAR|CMDWIN", minlen: 4, name: "profile", parser: "parse_cmd_common"},
	{flags: "EXTRA|NOTRLCOM|CMDWIN", minlen: 3, name: "promptfind", parser: "parse_cmd_common"},
	{flags: "EXTRA|NOTRLCOM|CMDWIN", minlen: 7, name: "promptrepl", parser: "parse_cmd_common"},
	{flags: "RANGE|EXTRA|DFLALL|NEEDARG|CMDWIN", minlen: 5, name: "perldo", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|BANG|COUNT|TRLBAR|ZEROR", minlen: 2, name: "pop", parser: "parse_cmd_common"},
	{flags: "NEEDARG|EXTRA|BANG|TRLBAR|NOTRLCOM|CMDWIN", minlen: 4, name: "popup", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|BANG|COUNT|TRLBAR|ZEROR", minlen: 2, name: "ppop", parser: "parse_cmd_common"},
	{flags: "TRLBAR", minlen: 3, name: "preserve", parser: "parse_cmd_common"},
	{flags: "EXTRA|RANGE|NOTADR|COUNT|BANG|EDITCMD|ARGOPT|TRLBAR", minlen: 4, name: "previous", parser: "parse_cmd_common"},
	{flags: "BANG|RANGE|WHOLEFOLD|DFLALL|EXTRA", minlen: 2, name: "psearch", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|BANG|WORD1|TRLBAR|ZEROR", minlen: 2, name: "ptag", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|BANG|TRLBAR|ZEROR", minlen: 3, name: "ptNext", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|BANG|TRLBAR|ZEROR", minlen: 3, name: "ptfirst", parser: "parse_cmd_common"},
	{flags: "BANG|TRLBAR|WORD1", minlen: 3, name: "ptjump", parser: "parse_cmd_common"},
	{flags: "BANG|TRLBAR", minlen: 3, name: "ptlast", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|BANG|TRLBAR|ZEROR", minlen: 3, name: "ptnext", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|BANG|TRLBAR|ZEROR", minlen: 3, name: "ptprevious", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|BANG|TRLBAR|ZEROR", minlen: 3, name: "ptrewind", parser: "parse_cmd_common"},
	{flags: "BANG|TRLBAR|WORD1", minlen: 3, name: "ptselect", parser: "parse_cmd_common"},
	{flags: "RANGE|WHOLEFOLD|BANG|REGSTR|TRLBAR|ZEROR|CMDWIN|MODIFY", minlen: 2, name: "put", parser: "parse_cmd_common"},
	{flags: "TRLBAR|CMDWIN", minlen: 2, name: "pwd", parser: "parse_cmd_common"},
	{flags: "RANGE|EXTRA|NEEDARG|CMDWIN", minlen: 3, name: "py3", parser: "parse_cmd_python3"},
	{flags: "RANGE|EXTRA|NEEDARG|CMDWIN", minlen: 7, name: "python3", parser: "parse_cmd_python3"},
	{flags: "RANGE|FILE1|NEEDARG|CMDWIN", minlen: 4, name: "py3file", parser: "parse_cmd_common"},
	{flags: "RANGE|EXTRA|NEEDARG|CMDWIN", minlen: 2, name: "python", parser: "parse_cmd_python"},
	{flags: "RANGE|FILE1|NEEDARG|CMDWIN", minlen: 3, name: "pyfile", parser: "parse_cmd_common"},
	{flags: "RANGE|DFLALL|EXTRA|NEEDARG|CMDWIN", minlen: 3, name: "pydo", parser: "parse_cmd_common"},
	{flags: "RANGE|DFLALL|EXTRA|NEEDARG|CMDWIN", minlen: 4, name: "py3do", parser: "parse_cmd_common"},
	{flags: "BANG|TRLBAR|CMDWIN", minlen: 1, name: "quit", parser: "parse_cmd_common"},
	{flags: "BANG|TRLBAR", minlen: 5, name: "quitall", parser: "parse_cmd_common"},
	{flags: "BANG|TRLBAR|CMDWIN", minlen: 2, name: "qall", parser: "parse_cmd_common"},
	{flags: "BANG|RANGE|WHOLEFOLD|FILE1|ARGOPT|TRLBAR|ZEROR|CMDWIN|MODIFY", minlen: 1, name: "read", parser: "parse_cmd_common"},
	{flags: "BANG|FILE1|TRLBAR", minlen: 3, name: "recover", parser: "parse_cmd_common"},
	{flags: "TRLBAR|CMDWIN", minlen: 3, name: "redo", parser: "parse_cmd_common"},
	{flags: "BANG|FILES|TRLBAR|CMDWIN", minlen: 4, name: "redir", parser: "parse_cmd_common"},
	{flags: "BANG|TRLBAR|CMDWIN", minlen: 4, name: "redraw", parser: "parse_cmd_common"},
	{flags: "BANG|TRLBAR|CMDWIN", minlen: 7, name: "redrawstatus", parser: "parse_cmd_common"},
	{flags: "EXTRA|NOTRLCOM|TRLBAR|CMDWIN", minlen: 3, name: "registers", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|TRLBAR|WORD1", minlen: 3, name: "resize", parser: "parse_cmd_common"},
	{flags: "TRLBAR|RANGE|WHOLEFOLD|DFLALL|BANG|WORD1|CMDWIN|MODIFY", minlen: 3, name: "retab", parser: "parse_cmd_common"},
	{flags: "EXTRA|NOTRLCOM|SBOXOK|CMDWIN", minlen: 4, name: "return", parser: "parse_cmd_return"},
	{flags: "EXTRA|BANG|EDITCMD|ARGOPT|TRLBAR", minlen: 3, name: "rewind", parser: "parse_cmd_common"},
	{flags: "TRLBAR|RANGE|WHOLEFOLD|EXTRA|CMDWIN|MODIFY", minlen: 2, name: "right", parser: "parse_cmd_common"},
	{flags: "NEEDARG|EXTRA|NOTRLCOM", minlen: 6, name: "rightbelow", parser: "parse_cmd_common"},
	{flags: "RANGE|EXTRA|NEEDARG|CMDWIN", minlen: 3, name: "ruby", parser: "parse_cmd_ruby"},
	{flags: "RANGE|DFLALL|EXTRA|NEEDARG|CMDWIN", minlen: 5, name: "rubydo", parser: "parse_cmd_common"},
	{flags: "RANGE|FILE1|NEEDARG|CMDWIN", minlen: 5, name: "rubyfile", parser: "parse_cmd_common"},
	{flags: "NEEDARG|FILE1", minlen: 4, name: "rundo", parser: "parse_cmd_common"},
	{flags: "BANG|NEEDARG|FILES|TRLBAR|SBOXOK|CMDWIN", minlen: 2, name: "runtime", parser: "parse_cmd_common"},
	{flags: "BANG|FILE1|TRLBAR|CMDWIN", minlen: 2, name: "rviminfo", parser: "parse_cmd_common"},
	{flags: "RANGE|WHOLEFOLD|EXTRA|CMDWIN", minlen: 1, name: "substitute", parser: "parse_cmd_common"},
	{flags: "EXTRA|RANGE|NOTADR|COUNT|BANG|EDITCMD|ARGOPT|TRLBAR", minlen: 2, name: "sNext", parser: "parse_cmd_common"},
	{flags: "NEEDARG|EXTRA|NOTRLCOM", minlen: 3, name: "sandbox", parser: "parse_cmd_common"},
	{flags: "BANG|RANGE|NOTADR|COUNT|EXTRA|EDITCMD|ARGOPT|TRLBAR", minlen: 2, name: "sargument", parser: "parse_cmd_common"},
	{flags: "BANG|RANGE|NOTADR|COUNT|TRLBAR", minlen: 3, name: "sall", parser: "parse_cmd_common"},
	{flags: "BANG|DFLALL|FILE1|ARGOPT|CMDWIN|TRLBAR", minlen: 3, name: "saveas", parser: "parse_cmd_common"},
	{flags: "BANG|RANGE|NOTADR|BUFNAME|BUFUNL|COUNT|EXTRA|TRLBAR", minlen: 2, name: "sbuffer", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|COUNT|TRLBAR", minlen: 3, name: "sbNext", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|COUNT|TRLBAR", minlen: 3, name: "sball", parser: "parse_cmd_common"},
	{flags: "TRLBAR", minlen: 3, name: "sbfirst", parser: "parse_cmd_common"},
	{flags: "TRLBAR", minlen: 3, name: "sblast", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|COUNT|TRLBAR", minlen: 3, name: "sbmodified", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|COUNT|TRLBAR", minlen: 3, name: "sbnext", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|COUNT|TRLBAR", minlen: 3, name: "sbprevious", parser: "parse_cmd_common"},
	{flags: "TRLBAR", minlen: 3, name: "sbrewind", parser: "parse_cmd_common"},
	{flags: "TRLBAR|CMDWIN", minlen: 3, name: "scriptnames", parser: "parse_cmd_common"},
	{flags: "WORD1|TRLBAR|CMDWIN", minlen: 7, name: "scriptencoding", parser: "parse_cmd_common"},
	{flags: "EXTRA|NOTRLCOM", minlen: 3, name: "scscope", parser: "parse_cmd_common"},
	{flags: "TRLBAR|EXTRA|CMDWIN|SBOXOK", minlen: 2, name: "set", parser: "parse_cmd_common"},
	{flags: "TRLBAR|EXTRA|NEEDARG|CMDWIN", minlen: 4, name: "setfiletype", parser: "parse_cmd_common"},
	{flags: "TRLBAR|EXTRA|CMDWIN|SBOXOK", minlen: 4, name: "setglobal", parser: "parse_cmd_common"},
	{flags: "TRLBAR|EXTRA|CMDWIN|SBOXOK", minlen: 4, name: "setlocal", parser: "parse_cmd_common"},
	{flags: "BANG|FILE1|RANGE|NOTADR|EDITCMD|ARGOPT|TRLBAR", minlen: 2, name: "sfind", parser: "parse_cmd_common"},
	{flags: "EXTRA|BANG|EDITCMD|ARGOPT|TRLBAR", minlen: 4, name: "sfirst", parser: "parse_cmd_common"},
	{flags: "TRLBAR|CMDWIN", minlen: 2, name: "shell", parser: "parse_cmd_common"},
	{flags: "NEEDARG|WORD1|TRLBAR|CMDWIN", minlen: 3, name: "simalt", parser: "parse_cmd_common"},
	{flags: "NEEDARG|RANGE|NOTADR|EXTRA|CMDWIN", minlen: 3, name: "sign", parser: "parse_cmd_common"},
	{flags: "NEEDARG|EXTRA|BANG|NOTRLCOM|SBOXOK|CMDWIN", minlen: 3, name: "silent", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|COUNT|EXTRA|TRLBAR|CMDWIN", minlen: 2, name: "sleep", parser: "parse_cmd_common"},
	{flags: "EXTRA|BANG|EDITCMD|ARGOPT|TRLBAR", minlen: 3, name: "slast", parser: "parse_cmd_common"},
	{flags: "RANGE|WHOLEFOLD|EXTRA|CMDWIN", minlen: 2, name: "smagic", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 4, name: "smap", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|CMDWIN", minlen: 5, name: "smapclear", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|ZEROR|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 3, name: "smenu", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|BANG|FILES|EDITCMD|ARGOPT|TRLBAR", minlen: 2, name: "snext", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR", minlen: 3, name: "sniff", parser: "parse_cmd_common"},
	{flags: "RANGE|WHOLEFOLD|EXTRA|CMDWIN", minlen: 3, name: "snomagic", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 4, name: "snoremap", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|ZEROR|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 7, name: "snoremenu", parser: "parse_cmd_common"},
	{flags: "RANGE|DFLALL|WHOLEFOLD|BANG|EXTRA|NOTRLCOM|MODIFY", minlen: 3, name: "sort", parser: "parse_cmd_common"},
	{flags: "BANG|FILE1|TRLBAR|SBOXOK|CMDWIN", minlen: 2, name: "source", parser: "parse_cmd_common"},
	{flags: "BANG|TRLBAR", minlen: 6, name: "spelldump", parser: "parse_cmd_common"},
	{flags: "BANG|RANGE|NOTADR|NEEDARG|EXTRA|TRLBAR", minlen: 3, name: "spellgood", parser: "parse_cmd_common"},
	{flags: "TRLBAR", minlen: 6, name: "spellinfo", parser: "parse_cmd_common"},
	{flags: "TRLBAR", minlen: 6, name: "spellrepall", parser: "parse_cmd_common"},
	{flags: "BANG|RANGE|NOTADR|NEEDARG|EXTRA|TRLBAR", minlen: 6, name: "spellundo", parser: "parse_cmd_common"},
	{flags: "BANG|RANGE|NOTADR|NEEDARG|EXTRA|TRLBAR", minlen: 6, name: "spellwrong", parser: "parse_cmd_common"},
	{flags: "BANG|FILE1|RANGE|NOTADR|EDITCMD|ARGOPT|TRLBAR", minlen: 2, name: "split", parser: "parse_cmd_common"},
	{flags: "EXTRA|RANGE|NOTADR|COUNT|BANG|EDITCMD|ARGOPT|TRLBAR", minlen: 3, name: "sprevious", parser: "parse_cmd_common"},
	{flags: "EXTRA|BANG|EDITCMD|ARGOPT|TRLBAR", minlen: 3, name: "srewind", parser: "parse_cmd_common"},
	{flags: "TRLBAR|BANG|CMDWIN", minlen: 2, name: "stop", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|BANG|WORD1|TRLBAR|ZEROR", minlen: 3, name: "stag", parser: "parse_cmd_common"},
	{flags: "BANG|TRLBAR|CMDWIN", minlen: 4, name: "startinsert", parser: "parse_cmd_common"},
	{flags: "BANG|TRLBAR|CMDWIN", minlen: 6, name: "startgreplace", parser: "parse_cmd_common"},
	{flags: "BANG|TRLBAR|CMDWIN", minlen: 6, name: "startreplace", parser: "parse_cmd_common"},
	{flags: "BANG|TRLBAR|CMDWIN", minlen: 5, name: "stopinsert", parser: "parse_cmd_common"},
	{flags: "BANG|TRLBAR|WORD1", minlen: 3, name: "stjump", parser: "parse_cmd_common"},
	{flags: "BANG|TRLBAR|WORD1", minlen: 3, name: "stselect", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|COUNT|TRLBAR", minlen: 3, name: "sunhide", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 4, name: "sunmap", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 5, name: "sunmenu", parser: "parse_cmd_common"},
	{flags: "TRLBAR|BANG|CMDWIN", minlen: 3, name: "suspend", parser: "parse_cmd_common"},
	{flags: "BANG|FILE1|RANGE|NOTADR|EDITCMD|ARGOPT|TRLBAR", minlen: 2, name: "sview", parser: "parse_cmd_common"},
	{flags: "TRLBAR|CMDWIN", minlen: 2, name: "swapname", parser: "parse_cmd_common"},
	{flags: "EXTRA|NOTRLCOM|CMDWIN", minlen: 2, name: "syntax", parser: "parse_cmd_syntax"},
	{flags: "NEEDARG|WORD1|TRLBAR|CMDWIN", minlen: 5, name: "syntime", parser: "parse_cmd_common"},
	{flags: "TRLBAR", minlen: 4, name: "syncbind", parser: "parse_cmd_common"},
	{flags: "RANGE|WHOLEFOLD|EXTRA|TRLBAR|CMDWIN|MODIFY", minlen: 1, name: "t", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|BANG|TRLBAR|ZEROR", minlen: 2, name: "tNext", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|COUNT|TRLBAR", minlen: 4, name: "tabNext", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|COUNT|BANG|TRLBAR|CMDWIN", minlen: 4, name: "tabclose", parser: "parse_cmd_common"},
	{flags: "NEEDARG|EXTRA|NOTRLCOM", minlen: 4, name: "tabdo", parser: "parse_cmd_common"},
	{flags: "BANG|FILE1|RANGE|NOTADR|ZEROR|EDITCMD|ARGOPT|TRLBAR", minlen: 4, name: "tabedit", parser: "parse_cmd_common"},
	{flags: "BANG|FILE1|RANGE|NOTADR|ZEROR|EDITCMD|ARGOPT|NEEDARG|TRLBAR", minlen: 4, name: "tabfind", parser: "parse_cmd_common"},
	{flags: "TRLBAR", minlen: 6, name: "tabfirst", parser: "parse_cmd_common"},
	{flags: "TRLBAR", minlen: 4, name: "tablast", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|ZEROR|EXTRA|NOSPC|TRLBAR", minlen: 4, name: "tabmove", parser: "parse_cmd_common"},
	{flags: "BANG|FILE1|RANGE|NOTADR|ZEROR|EDITCMD|ARGOPT|TRLBAR", minlen: 6, name: "tabnew", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|COUNT|TRLBAR", minlen: 4, name: "tabnext", parser: "parse_cmd_common"},
	{flags: "BANG|TRLBAR|CMDWIN", minlen: 4, name: "tabonly", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|COUNT|TRLBAR", minlen: 4, name: "tabprevious", parser: "parse_cmd_common"},
	{flags: "TRLBAR", minlen: 4, name: "tabrewind", parser: "parse_cmd_common"},
	{flags: "TRLBAR|CMDWIN", minlen: 4, name: "tabs", parser: "parse_cmd_common"},
	{flags: "NEEDARG|EXTRA|NOTRLCOM", minlen: 3, name: "tab", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|BANG|WORD1|TRLBAR|ZEROR", minlen: 2, name: "tag", parser: "parse_cmd_common"},
	{flags: "TRLBAR|CMDWIN", minlen: 4, name: "tags", parser: "parse_cmd_common"},
	{flags: "RANGE|EXTRA|NEEDARG|CMDWIN", minlen: 2, name: "tcl", parser: "parse_cmd_tcl"},
	{flags: "RANGE|DFLALL|EXTRA|NEEDARG|CMDWIN", minlen: 4, name: "tcldo", parser: "parse_cmd_common"},
	{flags: "RANGE|FILE1|NEEDARG|CMDWIN", minlen: 4, name: "tclfile", parser: "parse_cmd_common"},
	{flags: "NEEDARG|EXTRA|TRLBAR|NOTRLCOM|CMDWIN", minlen: 2, name: "tearoff", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|BANG|TRLBAR|ZEROR", minlen: 2, name: "tfirst", parser: "parse_cmd_common"},
	{flags: "EXTRA|NEEDARG|SBOXOK|CMDWIN", minlen: 2, name: "throw", parser: "parse_cmd_throw"},
	{flags: "BANG|TRLBAR|WORD1", minlen: 2, name: "tjump", parser: "parse_cmd_common"},
	{flags: "BANG|TRLBAR", minlen: 2, name: "tlast", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|ZEROR|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 2, name: "tmenu", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|BANG|TRLBAR|ZEROR", minlen: 2, name: "tnext", parser: "parse_cmd_common"},
	{flags: "NEEDARG|EXTRA|NOTRLCOM", minlen: 2, name: "topleft", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|BANG|TRLBAR|ZEROR", minlen: 2, name: "tprevious", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|BANG|TRLBAR|ZEROR", minlen: 2, name: "trewind", parser: "parse_cmd_common"},
	{flags: "TRLBAR|SBOXOK|CMDWIN", minlen: 3, name: "try", parser: "parse_cmd_try"},
	{flags: "BANG|TRLBAR|WORD1", minlen: 2, name: "tselect", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 2, name: "tunmenu", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|COUNT|ZEROR|TRLBAR|CMDWIN", minlen: 1, name: "undo", parser: "parse_cmd_common"},
	{flags: "TRLBAR|CMDWIN", minlen: 5, name: "undojoin", parser: "parse_cmd_common"},
	{flags: "TRLBAR|CMDWIN", minlen: 5, name: "undolist", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 3, name: "unabbreviate", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|COUNT|TRLBAR", minlen: 3, name: "unhide", parser: "parse_cmd_common"},
	{flags: "BANG|EXTRA|NEEDARG|SBOXOK|CMDWIN", minlen: 3, name: "unlet", parser: "parse_cmd_unlet"},
	{flags: "BANG|EXTRA|NEEDARG|SBOXOK|CMDWIN", minlen: 4, name: "unlockvar", parser: "parse_cmd_unlockvar"},
	{flags: "BANG|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 3, name: "unmap", parser: "parse_cmd_common"},
	{flags: "BANG|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 4, name: "unmenu", parser: "parse_cmd_common"},
	{flags: "NEEDARG|EXTRA|NOTRLCOM|SBOXOK|CMDWIN", minlen: 3, name: "unsilent", parser: "parse_cmd_common"},
	{flags: "RANGE|WHOLEFOLD|BANG|FILE1|ARGOPT|DFLALL|TRLBAR", minlen: 2, name: "update", parser: "parse_cmd_common"},
	{flags: "RANGE|WHOLEFOLD|EXTRA|DFLALL|CMDWIN", minlen: 1, name: "vglobal", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|CMDWIN", minlen: 2, name: "version", parser: "parse_cmd_common"},
	{flags: "NEEDARG|RANGE|NOTADR|EXTRA|NOTRLCOM|SBOXOK|CMDWIN", minlen: 4, name: "verbose", parser: "parse_cmd_common"},
	{flags: "NEEDARG|EXTRA|NOTRLCOM", minlen: 4, name: "vertical", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|BANG|NEEDARG|EXTRA|NOTRLCOM|TRLBAR|XFILE", minlen: 3, name: "vimgrep", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|BANG|NEEDARG|EXTRA|NOTRLCOM|TRLBAR|XFILE", minlen: 8, name: "vimgrepadd", parser: "parse_cmd_common"},
	{flags: "BANG|FILE1|EDITCMD|ARGOPT|TRLBAR", minlen: 2, name: "visual", parser: "parse_cmd_common"},
	{flags: "TRLBAR", minlen: 3, name: "viusage", parser: "parse_cmd_common"},
	{flags: "BANG|FILE1|EDITCMD|ARGOPT|TRLBAR", minlen: 3, name: "view", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 2, name: "vmap", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|CMDWIN", minlen: 5, name: "vmapclear", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|ZEROR|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 3, name: "vmenu", parser: "parse_cmd_common"},
	{flags: "BANG|FILE1|RANGE|NOTADR|EDITCMD|ARGOPT|TRLBAR", minlen: 3, name: "vnew", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 2, name: "vnoremap", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|ZEROR|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 7, name: "vnoremenu", parser: "parse_cmd_common"},
	{flags: "BANG|FILE1|RANGE|NOTADR|EDITCMD|ARGOPT|TRLBAR", minlen: 2, name: "vsplit", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 2, name: "vunmap", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 5, name: "vunmenu", parser: "parse_cmd_common"},
	{flags: "BANG|NEEDARG|EXTRA|NOTRLCOM", minlen: 5, name: "windo", parser: "parse_cmd_common"},
	{flags: "RANGE|WHOLEFOLD|BANG|FILE1|ARGOPT|DFLALL|TRLBAR|CMDWIN", minlen: 1, name: "write", parser: "parse_cmd_common"},
	{flags: "RANGE|WHOLEFOLD|NOTADR|BANG|FILE1|ARGOPT|TRLBAR", minlen: 2, name: "wNext", parser: "parse_cmd_common"},
	{flags: "BANG|TRLBAR|CMDWIN", minlen: 2, name: "wall", parser: "parse_cmd_common"},
	{flags: "EXTRA|NOTRLCOM|SBOXOK|CMDWIN", minlen: 2, name: "while", parser: "parse_cmd_while"},
	{flags: "EXTRA|NEEDARG|TRLBAR", minlen: 2, name: "winsize", parser: "parse_cmd_common"},
	{flags: "NEEDARG|WORD1|RANGE|NOTADR", minlen: 4, name: "wincmd", parser: "parse_wincmd"},
	{flags: "EXTRA|TRLBAR|CMDWIN", minlen: 4, name: "winpos", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|BANG|FILE1|ARGOPT|TRLBAR", minlen: 2, name: "wnext", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|BANG|FILE1|ARGOPT|TRLBAR", minlen: 2, name: "wprevious", parser: "parse_cmd_common"},
	{flags: "RANGE|WHOLEFOLD|BANG|FILE1|ARGOPT|DFLALL|TRLBAR", minlen: 2, name: "wq", parser: "parse_cmd_common"},
	{flags: "BANG|FILE1|ARGOPT|DFLALL|TRLBAR", minlen: 3, name: "wqall", parser: "parse_cmd_common"},
	{flags: "EXTRA|NOTADR|NEEDARG", minlen: 2, name: "wsverb", parser: "parse_cmd_common"},
	{flags: "BANG|NEEDARG|FILE1", minlen: 2, name: "wundo", parser: "parse_cmd_common"},
	{flags: "BANG|FILE1|TRLBAR|CMDWIN", minlen: 2, name: "wviminfo", parser: "parse_cmd_common"},
	{flags: "RANGE|WHOLEFOLD|BANG|FILE1|ARGOPT|DFLALL|TRLBAR|CMDWIN", minlen: 1, name: "xit", parser: "parse_cmd_common"},
	{flags: "BANG|TRLBAR", minlen: 2, name: "xall", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|CMDWIN", minlen: 5, name: "xmapclear", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 2, name: "xmap", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|ZEROR|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 3, name: "xmenu", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 2, name: "xnoremap", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|ZEROR|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 7, name: "xnoremenu", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 2, name: "xunmap", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 5, name: "xunmenu", parser: "parse_cmd_common"},
	{flags: "RANGE|WHOLEFOLD|REGSTR|COUNT|TRLBAR|CMDWIN", minlen: 1, name: "yank", parser: "parse_cmd_common"},
	{flags: "RANGE|WHOLEFOLD|EXTRA|EXFLAGS|TRLBAR|CMDWIN", minlen: 1, name: "z", parser: "parse_cmd_common"},
	{flags: "RANGE|WHOLEFOLD|BANG|FILES|CMDWIN", minlen: 1, name: "!", parser: "parse_cmd_common"},
	{flags: "RANGE|WHOLEFOLD|COUNT|EXFLAGS|TRLBAR|CMDWIN", minlen: 1, name: "#", parser: "parse_cmd_common"},
	{flags: "RANGE|WHOLEFOLD|EXTRA|CMDWIN|MODIFY", minlen: 1, name: "&", parser: "parse_cmd_common"},
	{flags: "RANGE|WHOLEFOLD|EXTRA|TRLBAR|CMDWIN", minlen: 1, name: "*", parser: "parse_cmd_common"},
	{flags: "RANGE|WHOLEFOLD|COUNT|EXFLAGS|TRLBAR|CMDWIN|MODIFY", minlen: 1, name: "<", parser: "parse_cmd_common"},
	{flags: "RANGE|TRLBAR|DFLALL|EXFLAGS|CMDWIN", minlen: 1, name: "=", parser: "parse_cmd_common"},
	{flags: "RANGE|WHOLEFOLD|COUNT|EXFLAGS|TRLBAR|CMDWIN|MODIFY", minlen: 1, name: ">", parser: "parse_cmd_common"},
	{flags: "RANGE|WHOLEFOLD|EXTRA|TRLBAR|CMDWIN", minlen: 1, name: "@", parser: "parse_cmd_common"},
	{flags: "EXTRA|RANGE|NOTADR|COUNT|BANG|EDITCMD|ARGOPT|TRLBAR", minlen: 1, name: "Next", parser: "parse_cmd_common"},
	{flags: "RANGE|WHOLEFOLD|COUNT|EXFLAGS|TRLBAR|CMDWIN", minlen: 1, name: "Print", parser: "parse_cmd_common"},
	{flags: "TRLBAR", minlen: 1, name: "X", parser: "parse_cmd_common"},
	{flags: "RANGE|WHOLEFOLD|EXTRA|CMDWIN|MODIFY", minlen: 1, name: "~", parser: "parse_cmd_common"},
	{flags: "TRLBAR", minlen: 3, name: "cbottom", parser: "parse_cmd_common"},
	{flags: "BANG|NEEDARG|EXTRA|NOTRLCOM|RANGE|NOTADR|DFLALL", minlen: 3, name: "cdo", parser: "parse_cmd_common"},
	{flags: "BANG|NEEDARG|EXTRA|NOTRLCOM|RANGE|NOTADR|DFLALL", minlen: 3, name: "cfdo", parser: "parse_cmd_common"},
	{flags: "TRLBAR", minlen: 3, name: "chistory", parser: "parse_cmd_common"},
	{flags: "TRLBAR|CMDWIN", minlen: 3, name: "clearjumps", parser: "parse_cmd_common"},
	{flags: "BANG|NEEDARG|EXTRA|NOTRLCOM", minlen: 4, name: "filter", parser: "parse_cmd_common"},
	{flags: "RANGE|NOTADR|COUNT|TRLBAR", minlen: 5, name: "helpclose", parser: "parse_cmd_common"},
	{flags: "TRLBAR", minlen: 3, name: "lbottom", parser: "parse_cmd_common"},
	{flags: "BANG|NEEDARG|EXTRA|NOTRLCOM|RANGE|NOTADR|DFLALL", minlen: 2, name: "ldo", parser: "parse_cmd_common"},
	{flags: "BANG|NEEDARG|EXTRA|NOTRLCOM|RANGE|NOTADR|DFLALL", minlen: 3, name: "lfdo", parser: "parse_cmd_common"},
	{flags: "TRLBAR", minlen: 3, name: "lhistory", parser: "parse_cmd_common"},
	{flags: "BANG|EXTRA|TRLBAR|CMDWIN", minlen: 3, name: "llist", parser: "parse_cmd_common"},
	{flags: "NEEDARG|EXTRA|NOTRLCOM", minlen: 3, name: "noswapfile", parser: "parse_cmd_common"},
	{flags: "BANG|FILE1|NEEDARG|TRLBAR|SBOXOK|CMDWIN", minlen: 2, name: "packadd", parser: "parse_cmd_common"},
	{flags: "BANG|TRLBAR|SBOXOK|CMDWIN", minlen: 5, name: "packloadall", parser: "parse_cmd_common"},
	{flags: "TRLBAR|CMDWIN|SBOXOK", minlen: 3, name: "smile", parser: "parse_cmd_common"},
	{flags: "RANGE|EXTRA|NEEDARG|CMDWIN", minlen: 3, name: "pyx", parser: "parse_cmd_common"},
	{flags: "RANGE|DFLALL|EXTRA|NEEDARG|CMDWIN", minlen: 4, name: "pyxdo", parser: "parse_cmd_common"},
	{flags: "RANGE|EXTRA|NEEDARG|CMDWIN", minlen: 7, name: "pythonx", parser: "parse_cmd_common"},
	{flags: "RANGE|FILE1|NEEDARG|CMDWIN", minlen: 4, name: "pyxfile", parser: "parse_cmd_common"},
	{flags: "RANGE|BANG|FILES|CMDWIN", minlen: 3, name: "terminal", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 3, name: "tmap", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|CMDWIN", minlen: 5, name: "tmapclear", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 3, name: "tnoremap", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 5, name: "tunmap", parser: "parse_cmd_common"},
	{flags: "RANGE|COUNT|TRLBAR", minlen: 4, name: "cabove", parser: "parse_cmd_common"},
	{flags: "RANGE|COUNT|TRLBAR", minlen: 3, name: "cafter", parser: "parse_cmd_common"},
	{flags: "RANGE|COUNT|TRLBAR", minlen: 3, name: "cbefore", parser: "parse_cmd_common"},
	{flags: "RANGE|COUNT|TRLBAR", minlen: 4, name: "cbelow", parser: "parse_cmd_common"},
	{flags: "EXTRA|NOTRLCOM|SBOXOK|CMDWIN", minlen: 4, name: "const", parser: "parse_cmd_common"},
	{flags: "RANGE|COUNT|TRLBAR", minlen: 3, name: "labove", parser: "parse_cmd_common"},
	{flags: "RANGE|COUNT|TRLBAR", minlen: 3, name: "lafter", parser: "parse_cmd_common"},
	{flags: "RANGE|COUNT|TRLBAR", minlen: 3, name: "lbefore", parser: "parse_cmd_common"},
	{flags: "RANGE|COUNT|TRLBAR", minlen: 4, name: "lbelow", parser: "parse_cmd_common"},
	{flags: "TRLBAR|CMDWIN", minlen: 7, name: "redrawtabline", parser: "parse_cmd_common"},
	{flags: "WORD1|TRLBAR|CMDWIN", minlen: 7, name: "scriptversion", parser: "parse_cmd_common"},
	{flags: "BANG|FILE1|TRLBAR|CMDWIN", minlen: 2, name: "tcd", parser: "parse_cmd_common"},
	{flags: "BANG|FILE1|TRLBAR|CMDWIN", minlen: 3, name: "tchdir", parser: "parse_cmd_common"},
	{flags: "RANGE|ZEROR|EXTRA|TRLBAR|NOTRLCOM|CTRLV|CMDWIN", minlen: 3, name: "tlmenu", parser: "parse_cmd_common"},
	{flags: "RANGE|ZEROR|EXTRA|TRLBAR|NOTRLCOM|CTRLV|CMDWIN", minlen: 3, name: "tlnoremenu", parser: "parse_cmd_common"},
	{flags: "RANGE|ZEROR|EXTRA|TRLBAR|NOTRLCOM|CTRLV|CMDWIN", minlen: 3, name: "tlunmenu", parser: "parse_cmd_common"},
	{flags: "EXTRA|TRLBAR|CMDWIN", minlen: 2, name: "xrestore", parser: "parse_cmd_common"},
	{flags: "EXTRA|BANG|SBOXOK|CMDWIN", minlen: 3, name: "def", parser: "parse_cmd_common"},
	{flags: "EXTRA|NEEDARG|TRLBAR|CMDWIN", minlen: 4, name: "disassemble", parser: "parse_cmd_common"},
	{flags: "TRLBAR|CMDWIN", minlen: 4, name: "enddef", parser: "parse_cmd_common"},
	{flags: "EXTRA|NOTRLCOM", minlen: 3, name: "export", parser: "parse_cmd_common"},
	{flags: "EXTRA|NOTRLCOM", minlen: 3, name: "import", parser: "parse_cmd_common"},
	{flags: "BANG|RANGE|NEEDARG|EXTRA|TRLBAR", minlen: 7, name: "spellrare", parser: "parse_cmd_common"},
	{flags: "", minlen: 4, name: "vim9script", parser: "parse_cmd_common"},
}
