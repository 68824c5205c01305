#!/usr/bin/env python3
# writes contracts/go_total.vc (C01)
PARSERS = sorted(set(l.rstrip('\n').split('\t')[4] for l in open('/verif/contracts/commands.tsv'))) + ['parse_cmd_usercmd']
out = '''// C01: nothing the parser does can fail but by a syntax error.  Generated by
// tools/gen_total.py.
package go

// the reader stays on its text; its last character ends a line
inv [C01] StringReader r: 0 <= r.i && r.i <= len(r.buf)
inv [C01] StringReader r: len(r.pos) == len(r.buf) + 1
inv [C01] StringReader r: len(r.buf) > 0 ==> r.buf[len(r.buf) - 1] == "<EOL>"
inv [C01] ExprTokenizer t: t.reader != nil
inv [C01] ExprParser p: p.reader != nil && p.tokenizer != nil && p.tokenizer.reader == p.reader
inv [C01] LvalueParser p: p.ExprParser != nil
inv [C01] ExprToken t: t.pos != nil
inv [C01] VimLParser p: len(p.context) > 0 ==> p.reader != nil
inv [C01] Cmd c: c.parser in set(%s)
rows [C01] builtin_commands neovim_additional_commands neovim_removed_commands: parser in %s
frozen Cmd.parser

// the parts of a block end with its own kind of end
inv [C01] VimNode n: n.endfunction != nil ==> n.endfunction.type_ == NODE_ENDFUNCTION
inv [C01] VimNode n: n.endif != nil ==> n.endif.type_ == NODE_ENDIF
inv [C01] VimNode n: n.endwhile != nil ==> n.endwhile.type_ == NODE_ENDWHILE
inv [C01] VimNode n: n.endfor != nil ==> n.endfor.type_ == NODE_ENDFOR
inv [C01] VimNode n: n.endtry != nil ==> n.endtry.type_ == NODE_ENDTRY
inv [C01] VimNode n: n.type_ in set(NODE_IDENTIFIER, NODE_CURLYNAMEPART) ==> tagis(n.value, string) && as(n.value, string) != ""
inv [C01] ExprToken t: t.type_ in set(TOKEN_IDENTIFIER, TOKEN_DOTDOTDOT) ==> t.value != ""

// A block is done when it leaves the open ones: then it has its end, and the
// blocks in it are done.
ghost VimNode.done bool
grows VimNode.done
spec isblk(t int) bool = opener(t) || isbranch(t) || t == NODE_TOPLEVEL
spec dn(b *VimNode) bool = b != nil && isblk(b.type_) ==> b.done
spec ended(n *VimNode) bool = (n.type_ == NODE_IF ==> n.endif != nil) && (n.type_ == NODE_WHILE ==> n.endwhile != nil) && (n.type_ == NODE_FOR ==> n.endfor != nil) && (n.type_ == NODE_TRY ==> n.endtry != nil) && (n.type_ == NODE_FUNCTION ==> n.endfunction != nil)
inv [C01] VimNode n: n.done ==> ended(n)
inv [C01] VimNode n: n.done ==> (forall i int :: {n.body[i]} 0 <= i && i < len(n.body) ==> dn(n.body[i]))
inv [C01] VimNode n: n.done ==> (forall i int :: {n.elseif[i]} 0 <= i && i < len(n.elseif) ==> dn(n.elseif[i]))
inv [C01] VimNode n: n.done ==> (forall i int :: {n.catch[i]} 0 <= i && i < len(n.catch) ==> dn(n.catch[i]))
inv [C01] VimNode n: n.done ==> dn(n.else_) && dn(n.finally)
// the blocks in the open ones are done, but for the next open one
spec dn1(p *VimLParser, k int, b *VimNode) bool = b == nil || isalloc(b) && (dn(b) || k > 0 && b == p.context[k - 1])
spec ctx1(p *VimLParser) bool = forall k int :: {p.context[k]} 0 <= k && k < len(p.context) ==> !p.context[k].done && dn1(p, k, p.context[k].else_) && dn1(p, k, p.context[k].finally)
spec ctx2(p *VimLParser) bool = forall k int, i int :: {p.context[k].body[i]} 0 <= k && k < len(p.context) && 0 <= i && i < len(p.context[k].body) ==> dn1(p, k, p.context[k].body[i])
spec ctx3(p *VimLParser) bool = forall k int, i int :: {p.context[k].elseif[i]} 0 <= k && k < len(p.context) && 0 <= i && i < len(p.context[k].elseif) ==> dn1(p, k, p.context[k].elseif[i])
spec ctx4(p *VimLParser) bool = forall k int, i int :: {p.context[k].catch[i]} 0 <= k && k < len(p.context) && 0 <= i && i < len(p.context[k].catch) ==> dn1(p, k, p.context[k].catch[i])

inv [C01] lhs l: l.left != nil ==> isexpr(l.left.type_)
inv [C01] lhs l: l.rest != nil ==> isexpr(l.rest.type_)
inv [C01] lhs l: forall i int :: {l.list[i]} 0 <= i && i < len(l.list) ==> l.list[i] != nil && isexpr(l.list[i].type_)
inv [C01] ExprTokenizer t: forall k int :: {has(t.cache, k)} has(t.cache, k) ==> len(t.cache[k]) == 2 && tagis(t.cache[k][0], int) && 0 <= as(t.cache[k][0], int) && as(t.cache[k][0], int) <= len(t.reader.buf) && tagis(t.cache[k][1], *ExprToken)

spec onp(r *StringReader, q *pos) bool = q != nil && 0 <= q.i && q.i <= len(r.buf)

// texts of digits only
ufun alldig(s string) bool
axiom alldig_0: alldig("")
axiom alldig_s: forall s string, c string :: {alldig(s), s + c} alldig(s) && rx(c, "^[0-9]$") ==> alldig(s + c)

extern strconv.ParseInt(s, base, bits) -> r, err
  modifies nothing
  ensures tag(err) == 0 || tagis(err, *strconv.NumError) && payload(err) != 0
  ensures tag(err) != 0 && alldig(s) && s != "" && base == 10 ==> as(err, *strconv.NumError).Err == strconv.ErrRange
''' % (', '.join('"%s"' % x for x in PARSERS), ' '.join('"%s"' % x for x in PARSERS))
def func(name, body, params='self'):
    global out
    out += '\nfunc %s(%s)\n%s' % (name, params, body)
func('NewStringReader', '''  loopcand o *StringReader : len(o.pos) == len(o.buf)
  loopcand o *StringReader : len(o.buf) > 0 ==> o.buf[len(o.buf) - 1] == "<EOL>"
  loopcand o *StringReader : 0 <= o.i && o.i <= len(o.buf)
''', 'lines) -> r(').__class__
out = out.replace('(lines) -> r()', '(lines) -> r')
func('VimLParser.pop_context', '''  modifies any(VimNode.done)
  requires [C01] len(self.context) >= 1
  requires [C01] ended(self.context[0]) && dn(self.context[0].else_) && dn(self.context[0].finally)
  requires [C01] forall i int :: {self.context[0].body[i]} 0 <= i && i < len(self.context[0].body) ==> dn(self.context[0].body[i])
  requires [C01] forall i int :: {self.context[0].elseif[i]} 0 <= i && i < len(self.context[0].elseif) ==> dn(self.context[0].elseif[i])
  requires [C01] forall i int :: {self.context[0].catch[i]} 0 <= i && i < len(self.context[0].catch) ==> dn(self.context[0].catch[i])
  ensures [C01 C08] shifted(self.context, old(self.context), 1)
  summary forall n *VimNode :: {n.done} n.done == (old(n.done) || n == old(self.context[0]))
''')
CTX = ''.join('  requires [C01] ctx%d(self)\n  ensures [C01] ctx%d(self)\n' % (k, k) for k in (1, 2, 3, 4))
POPS = 'catch else elseif endfor endfunction endif endtry endwhile finally'.split()
DONE = '  modifies any(VimNode.done)\n'
R = '  requires [C01] len(self.context) >= 1\n'
LP = R + '  requires [C01] self.ea != nil\n'
CP = LP + '  requires [C01] onp(self.reader, self.ea.cmdpos) && onp(self.reader, self.ea.linepos)\n'
FULL = CP + '  requires [C01] self.ea.cmd != nil && onp(self.reader, self.ea.argpos)\n'
full = """append break call catch common const continue delfunction echo echoerr echohl echomsg echon else elseif endfor endfunction endif
endtry endwhile eval execute finally finish for function if insert let loadkeymap lockvar lua mzscheme perl python python3 return
ruby syntax tcl throw try unlet unlockvar usercmd while""".split()
for c in full:
    func('VimLParser.parse_cmd_' + c, (DONE if c in POPS else '') + FULL + CTX)
func('VimLParser.parse_wincmd', FULL + CTX)
func('VimLParser._parse_command', DONE + FULL + CTX + '  requires [C01] parser == self.ea.cmd.parser\n', 'self, parser')
func('VimLParser.parse_cmd_modifier_range', CP + CTX)
func('VimLParser.parse_command', DONE + LP + CTX + '  requires self.ea.cmd == nil\n  requires [C01] onp(self.reader, self.ea.linepos)\n  ensures [C01] self.ea == old(self.ea) && self.reader == old(self.reader)\n')
func('VimLParser.parse_one_cmd', DONE + R + CTX)
for f in 'command_modifiers range argopt argcmd'.split():
    func('VimLParser.parse_' + f, LP)
for f in ['parse_comment', 'parse_trail', 'skip_vimgrep_pat', 'find_command']:
    func('VimLParser.' + f, LP + (CTX if f in ('parse_comment', 'parse_trail') else ''))
func('VimLParser.separate_nextcmd', FULL + '  ensures [C01] onp(self.reader, r)\n  loopcand q *pos : onp(self.reader, q)\n')
EX = '  ensures [C01] r != nil && isexpr(r.type_)\n'
LST = '  ensures [C01] forall i int :: {r[i]} 0 <= i && i < len(r) ==> r[i] != nil && isalloc(r[i]) && isexpr(r[i].type_)\n  loopcand l []*VimNode : forall i int :: {l[i]} 0 <= i && i < len(l) ==> l[i] != nil && isalloc(l[i]) && isexpr(l[i].type_)\n'
for f in 'lvalue_func lvalue constlvalue'.split():
    func('VimLParser.parse_' + f, R + EX)
for f in 'exprlist lvaluelist'.split():
    func('VimLParser.parse_' + f, R + LST)
for f in 'letlhs constlhs'.split():
    func('VimLParser.parse_' + f, R + '  ensures [C01] r != nil\n')
L = '  loopcand n *VimNode : n != nil && isexpr(n.type_)\n'
func('newAstNode', '  requires [C01] n != nil && isblk(n.type_) ==> n.done\n', 'n, fn) -> r(')
func('newExprNode', '  ensures [C01] tag(r) != 0 ==> payload(r) != 0\n', 'n, fn) -> r(')
out = out.replace('newExprNode(n, fn) -> r()', 'newExprNode(n, fn) -> r')
func('ExprParser.Parse', '  ensures [C01] tag(r) != 0 && payload(r) != 0\n', 'p) -> r(')
out = out.replace('(p) -> r()', '(p) -> r')
func('newBody', '  requires [C01] forall i int :: {n.body[i]} 0 <= i && i < len(n.body) ==> dn(n.body[i])\n', 'n, fn) -> l(')
out = out.replace('(n, fn) -> l()', '(n, fn) -> l')
func('viml_range', '''  modifies nothing
  ensures [C01] forall k int :: {r[k]} 0 <= k && k < len(r) ==> r[k] == start + k
  loopcand l []int, i int : forall k int :: {l[k]} 0 <= k && k < len(l) ==> l[k] == start + k
  loopcand l []int, i int : i == start + len(l)
''', 'start, end) -> r(')
out = out.replace('newAstNode(n, fn) -> r()', 'newAstNode(n, fn) -> r')
out = out.replace('viml_range(start, end) -> r()', 'viml_range(start, end) -> r')
func('VimLParser.parse', DONE + '  requires [C01] reader != nil\n  ensures [C01] n.done && n.type_ == NODE_TOPLEVEL\n'+''.join('  loopcand : ctx%d(p)\n' % k for k in (1, 2, 3, 4)), 'p, reader')
func('VimLParser.Parse', DONE + '  requires [C01] reader != nil\n  ensures [C01] tagis(r, *ast.File) && payload(r) != 0\n', 'p, reader, fn')
for k in range(1, 10):
    func('ExprParser.parse_expr%d' % k, EX + (L if k in (2, 3, 5, 6, 8) else ''))
func('ExprParser.parse', '  ensures [C01] n != nil && isexpr(n.type_)\n')
func('ExprParser.parse_identifier', EX)
for f in 'parse parse_lv8 parse_lv9'.split():
    func('LvalueParser.' + f, EX + (L if f == 'parse_lv8' else ''))
for f in 'dot concat'.split():
    func('ExprParser.parse_' + f, '  requires [C01] token != nil && left != nil && isexpr(left.type_)\n  ensures [C01] r != nil ==> isexpr(r.type_)\n', 'self, token, left')
func('ExprParser.parse_rlist', LST)
func('ExprParser.parse_curly_parts', '  ensures [C01] forall i int :: {r[i]} 0 <= i && i < len(r) ==> r[i] != nil && isalloc(r[i]) && r[i].type_ in set(NODE_CURLYNAMEPART, NODE_CURLYNAMEEXPR)\n  loopcand l []*VimNode : forall i int :: {l[i]} 0 <= i && i < len(l) ==> l[i] != nil && isalloc(l[i]) && l[i].type_ in set(NODE_CURLYNAMEPART, NODE_CURLYNAMEEXPR)\n')
for f in 'get get2 peek'.split():
    func('ExprTokenizer.' + f, '  ensures [C01] r != nil\n')
func('ExprTokenizer.parse_dict_literal_key', EX)
WORD = '''  ensures [C01] r == "" && old(self.i) < len(self.buf) ==> !rx(self.buf[old(self.i)], "%s")
  loopcand s string : s != "" || self.i == old(self.i)
'''
func('StringReader.read_word', WORD % '^[0-9A-Za-z_]$')
func('StringReader.read_name', WORD % '^[0-9A-Za-z_:#]$')
func('StringReader.read_digit', WORD % '^[0-9]$' + '  ensures [C01] alldig(r)\n  loopcand s string : alldig(s)\n')
func('VimLParser.parse_heredoc', CP + CTX + '  ensures [C01] r != nil && r.type_ == NODE_HEREDOC\n')
func('viml_split', '''  modifies nothing
  requires [C01] sep == "\\\\zs"
  ensures [C01] s != "" ==> len(r) > 0
  loopcand l []string : len(l) > 0 || $iter == 0
''', 's, sep) -> r(')
out = out.replace('viml_split(s, sep) -> r()', 'viml_split(s, sep) -> r')
func('VimLParser.parse_pattern', R, 'self, delimiter')
import re, glob
# the results as the other contracts name them
res = {}
for fn in ('go_parser.vc', 'go_find.vc', 'go_token.vc', 'go_block.vc'):
    for m in re.finditer(r'^func (\S+)\((.*?)\)( -> .*)?$', open('/verif/contracts/' + fn).read(), re.M):
        res[m.group(1)] = m.group(3) or res.get(m.group(1), '')
out = re.sub(r'^func (\S+)\((.*?)\)$', lambda m: m.group(0) + res.get(m.group(1), ''), out, flags=re.M)
# whatever a function of the parser fails with is a syntax error
names, heads = {}, {}
for fn in sorted(glob.glob('/verif/contracts/go_*.vc')):
    text = out if fn.endswith('go_total.vc') else open(fn).read()
    for m in re.finditer(r'^func (\S+?)(\(.*)$', text, re.M):
        names[m.group(1)] = m.group(2)
for n in sorted(names):
    out += '\nfunc %s%s\n  panics [C01] e: tagis(e, *ParseError) && payload(e) != 0\n' % (n, names[n])
open('/verif/contracts/go_total.vc', 'w').write(out)
