#!/usr/bin/env python3
# writes contracts/go_block.vc (C08)
import re
src = open('/repo/go/vimlparser.go').read() if False else None
FIELDS = ['body', 'elseif', 'else_', 'endif', 'endwhile', 'endfor', 'endtry', 'endfunction', 'catch', 'finally']
out = '''// C08: which construct is open, what each command does to it.  Generated by
// tools/gen_block.py.  The constructs and branches open at a point are
// VimLParser.context, the innermost first and the script itself last.
package go
frozen VimNode.type_

spec opener(t int) bool = t in set(NODE_IF, NODE_WHILE, NODE_FOR, NODE_TRY, NODE_FUNCTION)
spec branchof(t int, m int) bool = m == NODE_IF && (t == NODE_ELSEIF || t == NODE_ELSE) || m == NODE_TRY && (t == NODE_CATCH || t == NODE_FINALLY)
spec isbranch(t int) bool = t in set(NODE_ELSEIF, NODE_ELSE, NODE_CATCH, NODE_FINALLY)

// Only the last is the script; a branch stands directly on its construct.
inv [C08] VimLParser p: forall k int :: {p.context[k]} 0 <= k && k < len(p.context) ==> p.context[k] != nil && isalloc(p.context[k]) && ite(k + 1 == len(p.context), p.context[k].type_ == NODE_TOPLEVEL, opener(p.context[k].type_) || isbranch(p.context[k].type_))
inv [C08] VimLParser p: forall k int, j int :: {p.context[k], p.context[j]} 0 <= k && j == k + 1 && j < len(p.context) && isbranch(p.context[k].type_) ==> branchof(p.context[k].type_, p.context[j].type_)
inv [C08] VimLParser p: forall k int, j int :: {p.context[k], p.context[j]} 0 <= k && k < j && j < len(p.context) ==> p.context[k] != p.context[j]

// c1 is c0 without its first d (with -d more in front)
spec shifted(c1 []*VimNode, c0 []*VimNode, d int) bool = len(c1) == len(c0) - d && (forall k int :: {c1[k]} 0 <= k && 0 <= k + d && k < len(c1) ==> c1[k] == c0[k + d])
// the same but for the first, which is new
spec pushed(c1 []*VimNode, c0 []*VimNode, d int) bool = len(c1) == len(c0) - d && (forall k int :: {c1[k]} 1 <= k && 0 <= k + d && k < len(c1) ==> c1[k] == c0[k + d])
// b1 is b0 with at most n more at the end
spec longer(b1 []*VimNode, b0 []*VimNode, n int) bool = len(b0) <= len(b1) && len(b1) <= len(b0) + n && (forall k int :: {b1[k]} 0 <= k && k < len(b0) ==> b1[k] == b0[k])
spec plus(b1 []*VimNode, b0 []*VimNode) bool = longer(b1, b0, 1) && len(b1) == len(b0) + 1 && b1[len(b0)] != nil
spec empty(n *VimNode) bool = n != nil && len(n.body) == 0 && len(n.elseif) == 0 && len(n.catch) == 0 && n.else_ == nil && n.finally == nil && n.endif == nil && n.endwhile == nil && n.endfor == nil && n.endtry == nil && n.endfunction == nil
// the construct a branch or an end of it belongs to: the innermost, or the one its branch stands on
spec base(c []*VimNode, d int) *VimNode = c[d]
spec mains(c []*VimNode) int = ite(isbranch(c[0].type_), 1, 0)
'''
def frame(c):
    """c: field -> condition on n under which the field may have changed"""
    r = []
    for f in FIELDS:
        cond = c.get(f)
        g = 'old(isalloc(n))' + (' && !(%s)' % cond if cond else '')
        r.append('(forall n *VimNode :: {n.%s} %s ==> n.%s == old(n.%s))' % (f, g, f, f))
    return ' && '.join(r)
def fr(**c):
    return '\n'.join('  ensures [C08] ' + x for x in frame(c).split(' && (forall')) .replace('ensures [C08] n ', 'ensures [C08] (forall n ')
def frames(**c):
    r = []
    for f in FIELDS:
        cond = c.get(f)
        g = 'old(isalloc(n))' + (' && !(%s)' % cond if cond else '')
        r.append('  ensures [C08] forall n *VimNode :: {n.%s} %s ==> n.%s == old(n.%s)' % (f, g, f, f))
    return '\n'.join(r) + '\n'
def func(name, body, params='self'):
    global out
    out += '\nfunc VimLParser.%s(%s)\n%s' % (name, params, body)
TOP = '(n == old(self.context[0]))'
REQ = '  requires [C08] len(self.context) >= 1\n'
SAME = '  ensures [C08] shifted(self.context, old(self.context), 0)\n'
# commands that add exactly one statement
def added(*ts):
    return ('let(b, self.context[0].body, let(b0, old(self.context[0].body), longer(b, b0, 1) && len(b) == len(b0) + 1 && b[len(b0)] != nil && b[len(b0)].type_ in set(%s)))' % ', '.join('NODE_' + t for t in ts))
def ADD(*ts):
    return REQ + SAME + '  ensures [C08] ' + added(*ts) + '\n' + frames(body=TOP)
adders = {'comment': 'COMMENT', 'cmd_call': 'EXCALL EXCMD', 'cmd_const': 'CONST EXCMD'}
for x in """cmd_modifier_range cmd_common cmd_append cmd_insert cmd_loadkeymap cmd_lua cmd_mzscheme cmd_perl cmd_python cmd_python3
cmd_ruby cmd_tcl cmd_finish cmd_usercmd wincmd cmd_syntax""".split():
    adders[x] = 'EXCMD'
for x in 'delfunction return unlet lockvar unlockvar continue break throw eval echo echon echohl echomsg echoerr execute'.split():
    adders['cmd_' + x] = x.upper()
for a in adders:
    func('parse_' + a, ADD(*adders[a].split()))
# openers
def opened(t):
    return ('pushed(self.context, old(self.context), 0 - 1) && self.context[0].type_ == %s && fresh(self.context[0]) && empty(self.context[0]) && '
            'plus(self.context[1].body, old(self.context[0].body)) && self.context[1].body[len(self.context[1].body) - 1] == self.context[0]' % t)
for c, t in (('if', 'NODE_IF'), ('while', 'NODE_WHILE'), ('for', 'NODE_FOR'), ('try', 'NODE_TRY')):
    func('parse_cmd_' + c, REQ + '  ensures [C08] ' + opened(t) + '\n' + frames(body=TOP))
func('parse_cmd_function', REQ + '  ensures [C08] shifted(self.context, old(self.context), 0) && ' + added('EXCMD') + ' || ' + opened('NODE_FUNCTION') + '\n' + frames(body=TOP))
# branches
BASE = '(n == old(self.context[mains(self.context)]))'
def branch(name, t, field, allowed, many, panics):
    b = REQ
    ok = 'old(self.context[0].type_) in set(%s)' % ', '.join(allowed)
    b += '  ensures [C08] %s\n' % ok
    if panics:
        b += '  panics e: !(%s)\n' % ok
    b += '  ensures [C08] pushed(self.context, old(self.context), old(mains(self.context)) - 1) && self.context[0].type_ == %s && fresh(self.context[0]) && empty(self.context[0])\n' % t
    if many:
        b += '  ensures [C08] plus(self.context[1].%s, old(self.context[mains(self.context)].%s)) && self.context[1].%s[len(self.context[1].%s) - 1] == self.context[0]\n' % (field, field, field, field)
    else:
        b += '  ensures [C08] self.context[1].%s == self.context[0]\n' % field
    func(name, b + frames(**{field: BASE}))
branch('parse_cmd_elseif', 'NODE_ELSEIF', 'elseif', ['NODE_IF', 'NODE_ELSEIF'], True, False)
branch('parse_cmd_else', 'NODE_ELSE', 'else_', ['NODE_IF', 'NODE_ELSEIF'], False, True)
branch('parse_cmd_catch', 'NODE_CATCH', 'catch', ['NODE_TRY', 'NODE_CATCH'], True, False)
branch('parse_cmd_finally', 'NODE_FINALLY', 'finally', ['NODE_TRY', 'NODE_CATCH'], False, True)
# ends
def end(name, t, field, allowed):
    ok = 'old(self.context[0].type_) in set(%s)' % ', '.join(allowed)
    b = REQ + '  ensures [C08] %s\n  panics e: !(%s)\n' % (ok, ok)
    b += '  ensures [C08] shifted(self.context, old(self.context), old(mains(self.context)) + 1) && old(self.context[mains(self.context)].type_) == %s\n' % allowed[0]
    b += '  ensures [C08] let(m, old(self.context[mains(self.context)]), m.%s != nil && m.%s.type_ == %s && fresh(m.%s))\n' % (field, field, t, field)
    func(name, b + frames(**{field: BASE}))
end('parse_cmd_endif', 'NODE_ENDIF', 'endif', ['NODE_IF', 'NODE_ELSEIF', 'NODE_ELSE'])
end('parse_cmd_endwhile', 'NODE_ENDWHILE', 'endwhile', ['NODE_WHILE'])
end('parse_cmd_endfor', 'NODE_ENDFOR', 'endfor', ['NODE_FOR'])
end('parse_cmd_endtry', 'NODE_ENDTRY', 'endtry', ['NODE_TRY', 'NODE_CATCH', 'NODE_FINALLY'])
end('parse_cmd_endfunction', 'NODE_ENDFUNCTION', 'endfunction', ['NODE_FUNCTION'])

func('parse_heredoc', REQ + SAME + '  ensures [C08] longer(self.context[0].body, old(self.context[0].body), 1)\n' + frames(body=TOP))
func('parse_cmd_let', REQ + SAME + '  ensures [C08] let(b, self.context[0].body, let(b0, old(self.context[0].body), longer(b, b0, 2) && len(b) > len(b0) && b[len(b0)].type_ in set(NODE_LET, NODE_EXCMD)))\n' + frames(body=TOP))

# one command: nothing, a statement, a construct opened, a branch, an end; the
# comment after it belongs to what is open then
out += """
// one step: c0, b0 the open constructs and the statements of the innermost
// before, c1, b1 (the statements of the same one) after
spec stepped(c1 []*VimNode, c0 []*VimNode, b1 []*VimNode, b0 []*VimNode, m int, extra int) bool =
  shifted(c1, c0, 0) && longer(b1, b0, 2 + extra) ||
  pushed(c1, c0, 0 - 1) && opener(c1[0].type_) && len(b1) == len(b0) + 1 && longer(b1, b0, 1) && b1[len(b0)] == c1[0] && len(c1[0].body) <= extra ||
  pushed(c1, c0, m - 1) && isbranch(c1[0].type_) && branchof(c1[0].type_, c1[1].type_) && (m == 0 ==> len(b1) == len(b0)) && longer(b1, b0, 0) && len(c1[0].body) <= extra ||
  shifted(c1, c0, m + 1) && longer(b1, b0, 0)
"""
def stepf(x):
    top = 'n == old(self.context[0]) || n == self.context[0]' if x else TOP
    return (REQ + '  ensures [C08] len(self.context) >= 1\n  ensures [C08] let(t, old(self.context[0]), stepped(self.context, old(self.context), t.body, old(t.body), old(mains(self.context)), %d))\n' % x
      + '  ensures [C08] forall n *VimNode :: {n.body} old(isalloc(n)) && !(%s) ==> n.body == old(n.body)\n' % top)
func('_parse_command', stepf(0), 'self, parser')
func('parse_command', '  modifies $cmd, $cmdat\n' + stepf(0))
func('parse_one_cmd', '  modifies $cmd, $cmdat\n' + stepf(1))
func('parse_trail', REQ + SAME + '  ensures [C08] longer(self.context[0].body, old(self.context[0].body), 1)\n' + frames(body=TOP))
func('parse', '''  modifies $cmd, $cmdat
  requires [C08] len(p.context) == 0
  ensures [C08] len(p.context) == 0 && n != nil && fresh(n) && n.type_ == NODE_TOPLEVEL
  loopcand : len(p.context) >= 1 && p.context[len(p.context) - 1] == loopold(p.context[len(p.context) - 1])
''', 'p, reader')
func('Parse', '  modifies $cmd, $cmdat\n  requires [C08] len(p.context) == 0\n', 'p, reader, fn')
out = out.replace('func VimLParser.parse(p, reader)', 'func VimLParser.parse(p, reader) -> n').replace('func VimLParser.Parse(p, reader, fn)', 'func VimLParser.Parse(p, reader, fn) -> r')
open('/verif/contracts/go_block.vc', 'w').write(out)
