#!/usr/bin/env python3
# C02: every place named by the parser comes from its reader.  Mirrors the
# functions of go_total.vc.
import re, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(here + '/contracts/go_total.vc').read()
out = '''// C02: every place the parser names is one of its reader.  Generated by
// tools/gen_place.py.
package go

inv [only C02] ExprTokenizer t: forall k int :: {has(t.cache, k)} has(t.cache, k) ==> len(t.cache[k]) == 2 && tagis(t.cache[k][1], *ExprToken) && as(t.cache[k][1], *ExprToken) != nil && at(t.reader, as(t.cache[k][1], *ExprToken).pos)
spec at(r *StringReader, q *pos) bool = q != nil && q.rd == r
spec tokat(r *StringReader, t *ExprToken) bool = t != nil && at(r, t.pos)
spec real(l []string, e any) bool = tagis(e, *ParseError) && payload(e) != 0 && validp(l, as(e, *ParseError).Line, as(e, *ParseError).Column, as(e, *ParseError).Offset)

gvar $lines []string
func NewStringReader(lines) -> r
  modifies $lines
  summary $lines == lines
'''
funcs = {}
cur = None
for l in src.split('\n'):
    m = re.match(r'func ([\w.]+)\((.*?)\)(.*)$', l)
    if m:
        cur = (m.group(1), m.group(2), m.group(3))
        funcs.setdefault(cur, [])
    elif l.startswith("extern"):
        cur = None
    elif cur and l.strip().startswith(('requires', 'ensures', 'loopcand', 'panics', 'nopanic')):
        funcs[cur].append(l)
LISTS = {'VimLParser.parse_exprlist', 'VimLParser.parse_lvaluelist', 'ExprParser.parse_rlist', 'ExprParser.parse_curly_parts'}
def emit(name, par, res, cl):
    global out
    body = ''
    seen = set()
    def add(c):
        nonlocal body
        if c not in seen:
            seen.add(c)
            body += '  ' + c + '\n'
    rd = {'StringReader': 'self', 'VimLParser': 'self.reader', 'ExprParser': 'self.reader', 'LvalueParser': 'self.reader', 'ExprTokenizer': 'self.reader'}.get(name.split('.')[0])
    if par.startswith('p') and rd:
        rd = 'reader' if 'reader' in par else 'p.reader'
    for l in cl:
        for q in re.findall(r'onp\(self\.reader, self\.ea\.\w+\)', l):
            if 'requires' in l:
                add('requires [only C02] ' + q.replace('onp', 'at'))
    if '.check_missing_' in name:
        add('requires [only C02] at(self.reader, pos)')
    if any('panics' in l for l in cl):
        if rd:
            add('panics [only C02] e: real(%s.lines, e)' % rd)
        else:
            add('panics [only C02] e: false')
    short = name.split('.')[-1]
    if name.startswith('ExprTokenizer.') and short in ('get', 'get2', 'peek'):
        add('ensures [only C02] tokat(self.reader, r)')
    if name in LISTS:
        pass
    elif name.startswith(('ExprParser.parse', 'LvalueParser.parse')) or re.match(r'VimLParser.parse_(lvalue|lvalue_func|constlvalue|expr)$', name) or short == 'parse_dict_literal_key':
        v = 'n' if '-> n' in res else 'r'
        maybe = 'r == nil || ' if short in ('parse_dot', 'parse_concat') else ''
        add('ensures [only C02] %sat(%s, %s.pos)' % (maybe, rd, v))
        if short in ('parse_dot', 'parse_concat'):
            add('requires [only C02] tokat(self.reader, token) && at(self.reader, left.pos)')
        add('loopcand [only C02] n *VimNode : at(%s, n.pos)' % rd)
        add('loopcand [only C02] t *ExprToken : tokat(%s, t)' % rd)
    if name.startswith(('ExprParser.parse', 'LvalueParser.parse', 'ExprTokenizer.')):
        add('ensures [only C02] forall n *VimNode :: {n.pos} old(isalloc(n)) ==> n.pos == old(n.pos)')
        add('loopcand [only C02] forall n *VimNode :: {n.pos} old(isalloc(n)) ==> n.pos == old(n.pos)'.replace('loopcand [only C02] ', 'loopcand [only C02] : '))
    if name == 'VimLParser.separate_nextcmd':
        add('ensures [only C02] at(self.reader, r)')
        add('loopcand [only C02] q *pos : at(self.reader, q)')
    if body:
        out += '\nfunc %s(%s)%s\n%s' % (name, par, res, body)
merged = {}
for (n, p, r), cl in funcs.items():
    k = n
    if k not in merged:
        merged[k] = [p, r, []]
    if '->' in r:
        merged[k][1] = r
    merged[k][0] = p
    merged[k][2] += cl
for n, (p, r, cl) in merged.items():
    emit(n, p, r, cl)
open(here + '/contracts/go_place.vc', 'w').write(out)
