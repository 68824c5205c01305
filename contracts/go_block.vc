// C08: which construct is open, what each command does to it.  Generated by
// tools/gen_block.py.  The constructs and branches open at a point are
// VimLParser.context, the innermost first and the script itself last.
package go
frozen VimNode.type_

spec opener(t int) bool = t in set(NODE_IF, NODE_WHILE, NODE_FOR, NODE_TRY, NODE_FUNCTION)
spec branchof(t int, m int) bool = m == NODE_IF && (t == NODE_ELSEIF || t == NODE_ELSE) || m == NODE_TRY && (t == NODE_CATCH || t == NODE_FINALLY)
spec isbranch(t int) bool = t in set(NODE_ELSEIF, NODE_ELSE, NODE_CATCH, NODE_FINALLY)

// Only the last is the script; a branch stands directly on its construct.
inv [C08] VimLParser p: forall k int :: {p.context[k]} 0 <= k && k < len(p.context) ==> p.context[k] != nil && isalloc(p.context[k]) && ite(k + 1 == len(p.context), p.context[k].type_ == NODE_TOPLEVEL, opener(p.context[k].type_) || isbranch(p.context[k].type_))
inv [C08] VimLParser p: forall k int, j int :: {p.context[k], p.context[j]} 0 <= k && j == k + 1 && j < len(p.context) && isbranch(p.context[k].type_) ==> branchof(p.context[k].type_, p.context[j].type_)
inv [C08] VimLParser p: forall k int, j int :: {p.context[k], p.context[j]} 0 <= k && k < j && j < len(p.context) ==> p.context[k] != p.context[j]

// c1 is c0 without its first d (with -d more in front)
spec shifted(c1 []*VimNode, c0 []*VimNode, d int) bool = len(c1) == len(c0) - d && (forall k int :: {c1[k]} 0 <= k && 0 <= k + d && k < len(c1) ==> c1[k] == c0[k + d])
// the same but for the first, which is new
spec pushed(c1 []*VimNode, c0 []*VimNode, d int) bool = len(c1) == len(c0) - d && (forall k int :: {c1[k]} 1 <= k && 0 <= k + d && k < len(c1) ==> c1[k] == c0[k + d])
// b1 is b0 with at most n more at the end
spec longer(b1 []*VimNode, b0 []*VimNode, n int) bool = len(b0) <= len(b1) && len(b1) <= len(b0) + n && (forall k int :: {b1[k]} 0 <= k && k < len(b0) ==> b1[k] == b0[k])
spec plus(b1 []*VimNode, b0 []*VimNode) bool = longer(b1, b0, 1) && len(b1) == len(b0) + 1 && b1[len(b0)] != nil
spec empty(n *VimNode) bool = n != nil && len(n.body) == 0 && len(n.elseif) == 0 && len(n.catch) == 0 && n.else_ == nil && n.finally == nil && n.endif == nil && n.endwhile == nil && n.endfor == nil && n.endtry == nil && n.endfunction == nil
// the construct a branch or an end of it belongs to: the innermost, or the one its branch stands on
spec base(c []*VimNode, d int) *VimNode = c[d]
spec mains(c []*VimNode) int = ite(isbranch(c[0].type_), 1, 0)

func VimLParser.parse_comment(self)
  requires [C08] len(self.context) >= 1
  ensures [C08] shifted(self.context, old(self.context), 0)
  ensures [C08] let(b, self.context[0].body, let(b0, old(self.context[0].body), longer(b, b0, 1) && len(b) == len(b0) + 1 && b[len(b0)] != nil && b[len(b0)].type_ in set(NODE_COMMENT)))
  ensures [C08] forall n *VimNode :: {n.body} old(isalloc(n)) && !((n == old(self.context[0]))) ==> n.body == old(n.body)
  ensures [C08] forall n *VimNode :: {n.elseif} old(isalloc(n)) ==> n.elseif == old(n.elseif)
  ensures [C08] forall n *VimNode :: {n.else_} old(isalloc(n)) ==> n.else_ == old(n.else_)
  ensures [C08] forall n *VimNode :: {n.endif} old(isalloc(n)) ==> n.endif == old(n.endif)
  ensures [C08] forall n *VimNode :: {n.endwhile} old(isalloc(n)) ==> n.endwhile == old(n.endwhile)
  ensures [C08] forall n *VimNode :: {n.endfor} old(isalloc(n)) ==> n.endfor == old(n.endfor)
  ensures [C08] forall n *VimNode :: {n.endtry} old(isalloc(n)) ==> n.endtry == old(n.endtry)
  ensures [C08] forall n *VimNode :: {n.endfunction} old(isalloc(n)) ==> n.endfunction == old(n.endfunction)
  ensures [C08] forall n *VimNode :: {n.catch} old(isalloc(n)) ==> n.catch == old(n.catch)
  ensures [C08] forall n *VimNode :: {n.finally} old(isalloc(n)) ==> n.finally == old(n.finally)

func VimLParser.parse_cmd_call(self)
  requires [C08] len(self.context) >= 1
  ensures [C08] shifted(self.context, old(self.context), 0)
  ensures [C08] let(b, self.context[0].body, let(b0, old(self.context[0].body), longer(b, b0, 1) && len(b) == len(b0) + 1 && b[len(b0)] != nil && b[len(b0)].type_ in set(NODE_EXCALL, NODE_EXCMD)))
  ensures [C08] forall n *VimNode :: {n.body} old(isalloc(n)) && !((n == old(self.context[0]))) ==> n.body == old(n.body)
  ensures [C08] forall n *VimNode :: {n.elseif} old(isalloc(n)) ==> n.elseif == old(n.elseif)
  ensures [C08] forall n *VimNode :: {n.else_} old(isalloc(n)) ==> n.else_ == old(n.else_)
  ensures [C08] forall n *VimNode :: {n.endif} old(isalloc(n)) ==> n.endif == old(n.endif)
  ensures [C08] forall n *VimNode :: {n.endwhile} old(isalloc(n)) ==> n.endwhile == old(n.endwhile)
  ensures [C08] forall n *VimNode :: {n.endfor} old(isalloc(n)) ==> n.endfor == old(n.endfor)
  ensures [C08] forall n *VimNode :: {n.endtry} old(isalloc(n)) ==> n.endtry == old(n.endtry)
  ensures [C08] forall n *VimNode :: {n.endfunction} old(isalloc(n)) ==> n.endfunction == old(n.endfunction)
  ensures [C08] forall n *VimNode :: {n.catch} old(isalloc(n)) ==> n.catch == old(n.catch)
  ensures [C08] forall n *VimNode :: {n.finally} old(isalloc(n)) ==> n.finally == old(n.finally)

func VimLParser.parse_cmd_const(self)
  requires [C08] len(self.context) >= 1
  ensures [C08] shifted(self.context, old(self.context), 0)
  ensures [C08] let(b, self.context[0].body, let(b0, old(self.context[0].body), longer(b, b0, 1) && len(b) == len(b0) + 1 && b[len(b0)] != nil && b[len(b0)].type_ in set(NODE_CONST, NODE_EXCMD)))
  ensures [C08] forall n *VimNode :: {n.body} old(isalloc(n)) && !((n == old(self.context[0]))) ==> n.body == old(n.body)
  ensures [C08] forall n *VimNode :: {n.elseif} old(isalloc(n)) ==> n.elseif == old(n.elseif)
  ensures [C08] forall n *VimNode :: {n.else_} old(isalloc(n)) ==> n.else_ == old(n.else_)
  ensures [C08] forall n *VimNode :: {n.endif} old(isalloc(n)) ==> n.endif == old(n.endif)
  ensures [C08] forall n *VimNode :: {n.endwhile} old(isalloc(n)) ==> n.endwhile == old(n.endwhile)
  ensures [C08] forall n *VimNode :: {n.endfor} old(isalloc(n)) ==> n.endfor == old(n.endfor)
  ensures [C08] forall n *VimNode :: {n.endtry} old(isalloc(n)) ==> n.endtry == old(n.endtry)
  ensures [C08] forall n *VimNode :: {n.endfunction} old(isalloc(n)) ==> n.endfunction == old(n.endfunction)
  ensures [C08] forall n *VimNode :: {n.catch} old(isalloc(n)) ==> n.catch == old(n.catch)
  ensures [C08] forall n *VimNode :: {n.finally} old(isalloc(n)) ==> n.finally == old(n.finally)

func VimLParser.parse_cmd_modifier_range(self)
  requires [C08] len(self.context) >= 1
  ensures [C08] shifted(self.context, old(self.context), 0)
  ensures [C08] let(b, self.context[0].body, let(b0, old(self.context[0].body), longer(b, b0, 1) && len(b) == len(b0) + 1 && b[len(b0)] != nil && b[len(b0)].type_ in set(NODE_EXCMD)))
  ensures [C08] forall n *VimNode :: {n.body} old(isalloc(n)) && !((n == old(self.context[0]))) ==> n.body == old(n.body)
  ensures [C08] forall n *VimNode :: {n.elseif} old(isalloc(n)) ==> n.elseif == old(n.elseif)
  ensures [C08] forall n *VimNode :: {n.else_} old(isalloc(n)) ==> n.else_ == old(n.else_)
  ensures [C08] forall n *VimNode :: {n.endif} old(isalloc(n)) ==> n.endif == old(n.endif)
  ensures [C08] forall n *VimNode :: {n.endwhile} old(isalloc(n)) ==> n.endwhile == old(n.endwhile)
  ensures [C08] forall n *VimNode :: {n.endfor} old(isalloc(n)) ==> n.endfor == old(n.endfor)
  ensures [C08] forall n *VimNode :: {n.endtry} old(isalloc(n)) ==> n.endtry == old(n.endtry)
  ensures [C08] forall n *VimNode :: {n.endfunction} old(isalloc(n)) ==> n.endfunction == old(n.endfunction)
  ensures [C08] forall n *VimNode :: {n.catch} old(isalloc(n)) ==> n.catch == old(n.catch)
  ensures [C08] forall n *VimNode :: {n.finally} old(isalloc(n)) ==> n.finally == old(n.finally)

func VimLParser.parse_cmd_common(self)
  requires [C08] len(self.context) >= 1
  ensures [C08] shifted(self.context, old(self.context), 0)
  ensures [C08] let(b, self.context[0].body, let(b0, old(self.context[0].body), longer(b, b0, 1) && len(b) == len(b0) + 1 && b[len(b0)] != nil && b[len(b0)].type_ in set(NODE_EXCMD)))
  ensures [C08] forall n *VimNode :: {n.body} old(isalloc(n)) && !((n == old(self.context[0]))) ==> n.body == old(n.body)
  ensures [C08] forall n *VimNode :: {n.elseif} old(isalloc(n)) ==> n.elseif == old(n.elseif)
  ensures [C08] forall n *VimNode :: {n.else_} old(isalloc(n)) ==> n.else_ == old(n.else_)
  ensures [C08] forall n *VimNode :: {n.endif} old(isalloc(n)) ==> n.endif == old(n.endif)
  ensures [C08] forall n *VimNode :: {n.endwhile} old(isalloc(n)) ==> n.endwhile == old(n.endwhile)
  ensures [C08] forall n *VimNode :: {n.endfor} old(isalloc(n)) ==> n.endfor == old(n.endfor)
  ensures [C08] forall n *VimNode :: {n.endtry} old(isalloc(n)) ==> n.endtry == old(n.endtry)
  ensures [C08] forall n *VimNode :: {n.endfunction} old(isalloc(n)) ==> n.endfunction == old(n.endfunction)
  ensures [C08] forall n *VimNode :: {n.catch} old(isalloc(n)) ==> n.catch == old(n.catch)
  ensures [C08] forall n *VimNode :: {n.finally} old(isalloc(n)) ==> n.finally == old(n.finally)

func VimLParser.parse_cmd_append(self)
  requires [C08] len(self.context) >= 1
  ensures [C08] shifted(self.context, old(self.context), 0)
  ensures [C08] let(b, self.context[0].body, let(b0, old(self.context[0].body), longer(b, b0, 1) && len(b) == len(b0) + 1 && b[len(b0)] != nil && b[len(b0)].type_ in set(NODE_EXCMD)))
  ensures [C08] forall n *VimNode :: {n.body} old(isalloc(n)) && !((n == old(self.context[0]))) ==> n.body == old(n.body)
  ensures [C08] forall n *VimNode :: {n.elseif} old(isalloc(n)) ==> n.elseif == old(n.elseif)
  ensures [C08] forall n *VimNode :: {n.else_} old(isalloc(n)) ==> n.else_ == old(n.else_)
  ensures [C08] forall n *VimNode :: {n.endif} old(isalloc(n)) ==> n.endif == old(n.endif)
  ensures [C08] forall n *VimNode :: {n.endwhile} old(isalloc(n)) ==> n.endwhile == old(n.endwhile)
  ensures [C08] forall n *VimNode :: {n.endfor} old(isalloc(n)) ==> n.endfor == old(n.endfor)
  ensures [C08] forall n *VimNode :: {n.endtry} old(isalloc(n)) ==> n.endtry == old(n.endtry)
  ensures [C08] forall n *VimNode :: {n.endfunction} old(isalloc(n)) ==> n.endfunction == old(n.endfunction)
  ensures [C08] forall n *VimNode :: {n.catch} old(isalloc(n)) ==> n.catch == old(n.catch)
  ensures [C08] forall n *VimNode :: {n.finally} old(isalloc(n)) ==> n.finally == old(n.finally)

func VimLParser.parse_cmd_insert(self)
  requires [C08] len(self.context) >= 1
  ensures [C08] shifted(self.context, old(self.context), 0)
  ensures [C08] let(b, self.context[0].body, let(b0, old(self.context[0].body), longer(b, b0, 1) && len(b) == len(b0) + 1 && b[len(b0)] != nil && b[len(b0)].type_ in set(NODE_EXCMD)))
  ensures [C08] forall n *VimNode :: {n.body} old(isalloc(n)) && !((n == old(self.context[0]))) ==> n.body == old(n.body)
  ensures [C08] forall n *VimNode :: {n.elseif} old(isalloc(n)) ==> n.elseif == old(n.elseif)
  ensures [C08] forall n *VimNode :: {n.else_} old(isalloc(n)) ==> n.else_ == old(n.else_)
  ensures [C08] forall n *VimNode :: {n.endif} old(isalloc(n)) ==> n.endif == old(n.endif)
  ensures [C08] forall n *VimNode :: {n.endwhile} old(isalloc(n)) ==> n.endwhile == old(n.endwhile)
  ensures [C08] forall n *VimNode :: {n.endfor} old(isalloc(n)) ==> n.endfor == old(n.endfor)
  ensures [C08] forall n *VimNode :: {n.endtry} old(isalloc(n)) ==> n.endtry == old(n.endtry)
  ensures [C08] forall n *VimNode :: {n.endfunction} old(isalloc(n)) ==> n.endfunction == old(n.endfunction)
  ensures [C08] forall n *VimNode :: {n.catch} old(isalloc(n)) ==> n.catch == old(n.catch)
  ensures [C08] forall n *VimNode :: {n.finally} old(isalloc(n)) ==> n.finally == old(n.finally)

func VimLParser.parse_cmd_loadkeymap(self)
  requires [C08] len(self.context) >= 1
  ensures [C08] shifted(self.context, old(self.context), 0)
  ensures [C08] let(b, self.context[0].body, let(b0, old(self.context[0].body), longer(b, b0, 1) && len(b) == len(b0) + 1 && b[len(b0)] != nil && b[len(b0)].type_ in set(NODE_EXCMD)))
  ensures [C08] forall n *VimNode :: {n.body} old(isalloc(n)) && !((n == old(self.context[0]))) ==> n.body == old(n.body)
  ensures [C08] forall n *VimNode :: {n.elseif} old(isalloc(n)) ==> n.elseif == old(n.elseif)
  ensures [C08] forall n *VimNode :: {n.else_} old(isalloc(n)) ==> n.else_ == old(n.else_)
  ensures [C08] forall n *VimNode :: {n.endif} old(isalloc(n)) ==> n.endif == old(n.endif)
  ensures [C08] forall n *VimNode :: {n.endwhile} old(isalloc(n)) ==> n.endwhile == old(n.endwhile)
  ensures [C08] forall n *VimNode :: {n.endfor} old(isalloc(n)) ==> n.endfor == old(n.endfor)
  ensures [C08] forall n *VimNode :: {n.endtry} old(isalloc(n)) ==> n.endtry == old(n.endtry)
  ensures [C08] forall n *VimNode :: {n.endfunction} old(isalloc(n)) ==> n.endfunction == old(n.endfunction)
  ensures [C08] forall n *VimNode :: {n.catch} old(isalloc(n)) ==> n.catch == old(n.catch)
  ensures [C08] forall n *VimNode :: {n.finally} old(isalloc(n)) ==> n.finally == old(n.finally)

func VimLParser.parse_cmd_lua(self)
  requires [C08] len(self.context) >= 1
  ensures [C08] shifted(self.context, old(self.context), 0)
  ensures [C08] let(b, self.context[0].body, let(b0, old(self.context[0].body), longer(b, b0, 1) && len(b) == len(b0) + 1 && b[len(b0)] != nil && b[len(b0)].type_ in set(NODE_EXCMD)))
  ensures [C08] forall n *VimNode :: {n.body} old(isalloc(n)) && !((n == old(self.context[0]))) ==> n.body == old(n.body)
  ensures [C08] forall n *VimNode :: {n.elseif} old(isalloc(n)) ==> n.elseif == old(n.elseif)
  ensures [C08] forall n *VimNode :: {n.else_} old(isalloc(n)) ==> n.else_ == old(n.else_)
  ensures [C08] forall n *VimNode :: {n.endif} old(isalloc(n)) ==> n.endif == old(n.endif)
  ensures [C08] forall n *VimNode :: {n.endwhile} old(isalloc(n)) ==> n.endwhile == old(n.endwhile)
  ensures [C08] forall n *VimNode :: {n.endfor} old(isalloc(n)) ==> n.endfor == old(n.endfor)
  ensures [C08] forall n *VimNode :: {n.endtry} old(isalloc(n)) ==> n.endtry == old(n.endtry)
  ensures [C08] forall n *VimNode :: {n.endfunction} old(isalloc(n)) ==> n.endfunction == old(n.endfunction)
  ensures [C08] forall n *VimNode :: {n.catch} old(isalloc(n)) ==> n.catch == old(n.catch)
  ensures [C08] forall n *VimNode :: {n.finally} old(isalloc(n)) ==> n.finally == old(n.finally)

func VimLParser.parse_cmd_mzscheme(self)
  requires [C08] len(self.context) >= 1
  ensures [C08] shifted(self.context, old(self.context), 0)
  ensures [C08] let(b, self.context[0].body, let(b0, old(self.context[0].body), longer(b, b0, 1) && len(b) == len(b0) + 1 && b[len(b0)] != nil && b[len(b0)].type_ in set(NODE_EXCMD)))
  ensures [C08] forall n *VimNode :: {n.body} old(isalloc(n)) && !((n == old(self.context[0]))) ==> n.body == old(n.body)
  ensures [C08] forall n *VimNode :: {n.elseif} old(isalloc(n)) ==> n.elseif == old(n.elseif)
  ensures [C08] forall n *VimNode :: {n.else_} old(isalloc(n)) ==> n.else_ == old(n.else_)
  ensures [C08] forall n *VimNode :: {n.endif} old(isalloc(n)) ==> n.endif == old(n.endif)
  ensures [C08] forall n *VimNode :: {n.endwhile} old(isalloc(n)) ==> n.endwhile == old(n.endwhile)
  ensures [C08] forall n *VimNode :: {n.endfor} old(isalloc(n)) ==> n.endfor == old(n.endfor)
  ensures [C08] forall n *VimNode :: {n.endtry} old(isalloc(n)) ==> n.endtry == old(n.endtry)
  ensures [C08] forall n *VimNode :: {n.endfunction} old(isalloc(n)) ==> n.endfunction == old(n.endfunction)
  ensures [C08] forall n *VimNode :: {n.catch} old(isalloc(n)) ==> n.catch == old(n.catch)
  ensures [C08] forall n *VimNode :: {n.finally} old(isalloc(n)) ==> n.finally == old(n.finally)

func VimLParser.parse_cmd_perl(self)
  requires [C08] len(self.context) >= 1
  ensures [C08] shifted(self.context, old(self.context), 0)
  ensures [C08] let(b, self.context[0].body, let(b0, old(self.context[0].body), longer(b, b0, 1) && len(b) == len(b0) + 1 && b[len(b0)] != nil && b[len(b0)].type_ in set(NODE_EXCMD)))
  ensures [C08] forall n *VimNode :: {n.body} old(isalloc(n)) && !((n == old(self.context[0]))) ==> n.body == old(n.body)
  ensures [C08] forall n *VimNode :: {n.elseif} old(isalloc(n)) ==> n.elseif == old(n.elseif)
  ensures [C08] forall n *VimNode :: {n.else_} old(isalloc(n)) ==> n.else_ == old(n.else_)
  ensures [C08] forall n *VimNode :: {n.endif} old(isalloc(n)) ==> n.endif == old(n.endif)
  ensures [C08] forall n *VimNode :: {n.endwhile} old(isalloc(n)) ==> n.endwhile == old(n.endwhile)
  ensures [C08] forall n *VimNode :: {n.endfor} old(isalloc(n)) ==> n.endfor == old(n.endfor)
  ensures [C08] forall n *VimNode :: {n.endtry} old(isalloc(n)) ==> n.endtry == old(n.endtry)
  ensures [C08] forall n *VimNode :: {n.endfunction} old(isalloc(n)) ==> n.endfunction == old(n.endfunction)
  ensures [C08] forall n *VimNode :: {n.catch} old(isalloc(n)) ==> n.catch == old(n.catch)
  ensures [C08] forall n *VimNode :: {n.finally} old(isalloc(n)) ==> n.finally == old(n.finally)

func VimLParser.parse_cmd_python(self)
  requires [C08] len(self.context) >= 1
  ensures [C08] shifted(self.context, old(self.context), 0)
  ensures [C08] let(b, self.context[0].body, let(b0, old(self.context[0].body), longer(b, b0, 1) && len(b) == len(b0) + 1 && b[len(b0)] != nil && b[len(b0)].type_ in set(NODE_EXCMD)))
  ensures [C08] forall n *VimNode :: {n.body} old(isalloc(n)) && !((n == old(self.context[0]))) ==> n.body == old(n.body)
  ensures [C08] forall n *VimNode :: {n.elseif} old(isalloc(n)) ==> n.elseif == old(n.elseif)
  ensures [C08] forall n *VimNode :: {n.else_} old(isalloc(n)) ==> n.else_ == old(n.else_)
  ensures [C08] forall n *VimNode :: {n.endif} old(isalloc(n)) ==> n.endif == old(n.endif)
  ensures [C08] forall n *VimNode :: {n.endwhile} old(isalloc(n)) ==> n.endwhile == old(n.endwhile)
  ensures [C08] forall n *VimNode :: {n.endfor} old(isalloc(n)) ==> n.endfor == old(n.endfor)
  ensures [C08] forall n *VimNode :: {n.endtry} old(isalloc(n)) ==> n.endtry == old(n.endtry)
  ensures [C08] forall n *VimNode :: {n.endfunction} old(isalloc(n)) ==> n.endfunction == old(n.endfunction)
  ensures [C08] forall n *VimNode :: {n.catch} old(isalloc(n)) ==> n.catch == old(n.catch)
  ensures [C08] forall n *VimNode :: {n.finally} old(isalloc(n)) ==> n.finally == old(n.finally)

func VimLParser.parse_cmd_python3(self)
  requires [C08] len(self.context) >= 1
  ensures [C08] shifted(self.context, old(self.context), 0)
  ensures [C08] let(b, self.context[0].body, let(b0, old(self.context[0].body), longer(b, b0, 1) && len(b) == len(b0) + 1 && b[len(b0)] != nil && b[len(b0)].type_ in set(NODE_EXCMD)))
  ensures [C08] forall n *VimNode :: {n.body} old(isalloc(n)) && !((n == old(self.context[0]))) ==> n.body == old(n.body)
  ensures [C08] forall n *VimNode :: {n.elseif} old(isalloc(n)) ==> n.elseif == old(n.elseif)
  ensures [C08] forall n *VimNode :: {n.else_} old(isalloc(n)) ==> n.else_ == old(n.else_)
  ensures [C08] forall n *VimNode :: {n.endif} old(isalloc(n)) ==> n.endif == old(n.endif)
  ensures [C08] forall n *VimNode :: {n.endwhile} old(isalloc(n)) ==> n.endwhile == old(n.endwhile)
  ensures [C08] forall n *VimNode :: {n.endfor} old(isalloc(n)) ==> n.endfor == old(n.endfor)
  ensures [C08] forall n *VimNode :: {n.endtry} old(isalloc(n)) ==> n.endtry == old(n.endtry)
  ensures [C08] forall n *VimNode :: {n.endfunction} old(isalloc(n)) ==> n.endfunction == old(n.endfunction)
  ensures [C08] forall n *VimNode :: {n.catch} old(isalloc(n)) ==> n.catch == old(n.catch)
  ensures [C08] forall n *VimNode :: {n.finally} old(isalloc(n)) ==> n.finally == old(n.finally)

func VimLParser.parse_cmd_ruby(self)
  requires [C08] len(self.context) >= 1
  ensures [C08] shifted(self.context, old(self.context), 0)
  ensures [C08] let(b, self.context[0].body, let(b0, old(self.context[0].body), longer(b, b0, 1) && len(b) == len(b0) + 1 && b[len(b0)] != nil && b[len(b0)].type_ in set(NODE_EXCMD)))
  ensures [C08] forall n *VimNode :: {n.body} old(isalloc(n)) && !((n == old(self.context[0]))) ==> n.body == old(n.body)
  ensures [C08] forall n *VimNode :: {n.elseif} old(isalloc(n)) ==> n.elseif == old(n.elseif)
  ensures [C08] forall n *VimNode :: {n.else_} old(isalloc(n)) ==> n.else_ == old(n.else_)
  ensures [C08] forall n *VimNode :: {n.endif} old(isalloc(n)) ==> n.endif == old(n.endif)
  ensures [C08] forall n *VimNode :: {n.endwhile} old(isalloc(n)) ==> n.endwhile == old(n.endwhile)
  ensures [C08] forall n *VimNode :: {n.endfor} old(isalloc(n)) ==> n.endfor == old(n.endfor)
  ensures [C08] forall n *VimNode :: {n.endtry} old(isalloc(n)) ==> n.endtry == old(n.endtry)
  ensures [C08] forall n *VimNode :: {n.endfunction} old(isalloc(n)) ==> n.endfunction == old(n.endfunction)
  ensures [C08] forall n *VimNode :: {n.catch} old(isalloc(n)) ==> n.catch == old(n.catch)
  ensures [C08] forall n *VimNode :: {n.finally} old(isalloc(n)) ==> n.finally == old(n.finally)

func VimLParser.parse_cmd_tcl(self)
  requires [C08] len(self.context) >= 1
  ensures [C08] shifted(self.context, old(self.context), 0)
  ensures [C08] let(b, self.context[0].body, let(b0, old(self.context[0].body), longer(b, b0, 1) && len(b) == len(b0) + 1 && b[len(b0)] != nil && b[len(b0)].type_ in set(NODE_EXCMD)))
  ensures [C08] forall n *VimNode :: {n.body} old(isalloc(n)) && !((n == old(self.context[0]))) ==> n.body == old(n.body)
  ensures [C08] forall n *VimNode :: {n.elseif} old(isalloc(n)) ==> n.elseif == old(n.elseif)
  ensures [C08] forall n *VimNode :: {n.else_} old(isalloc(n)) ==> n.else_ == old(n.else_)
  ensures [C08] forall n *VimNode :: {n.endif} old(isalloc(n)) ==> n.endif == old(n.endif)
  ensures [C08] forall n *VimNode :: {n.endwhile} old(isalloc(n)) ==> n.endwhile == old(n.endwhile)
  ensures [C08] forall n *VimNode :: {n.endfor} old(isalloc(n)) ==> n.endfor == old(n.endfor)
  ensures [C08] forall n *VimNode :: {n.endtry} old(isalloc(n)) ==> n.endtry == old(n.endtry)
  ensures [C08] forall n *VimNode :: {n.endfunction} old(isalloc(n)) ==> n.endfunction == old(n.endfunction)
  ensures [C08] forall n *VimNode :: {n.catch} old(isalloc(n)) ==> n.catch == old(n.catch)
  ensures [C08] forall n *VimNode :: {n.finally} old(isalloc(n)) ==> n.finally == old(n.finally)

func VimLParser.parse_cmd_finish(self)
  requires [C08] len(self.context) >= 1
  ensures [C08] shifted(self.context, old(self.context), 0)
  ensures [C08] let(b, self.context[0].body, let(b0, old(self.context[0].body), longer(b, b0, 1) && len(b) == len(b0) + 1 && b[len(b0)] != nil && b[len(b0)].type_ in set(NODE_EXCMD)))
  ensures [C08] forall n *VimNode :: {n.body} old(isalloc(n)) && !((n == old(self.context[0]))) ==> n.body == old(n.body)
  ensures [C08] forall n *VimNode :: {n.elseif} old(isalloc(n)) ==> n.elseif == old(n.elseif)
  ensures [C08] forall n *VimNode :: {n.else_} old(isalloc(n)) ==> n.else_ == old(n.else_)
  ensures [C08] forall n *VimNode :: {n.endif} old(isalloc(n)) ==> n.endif == old(n.endif)
  ensures [C08] forall n *VimNode :: {n.endwhile} old(isalloc(n)) ==> n.endwhile == old(n.endwhile)
  ensures [C08] forall n *VimNode :: {n.endfor} old(isalloc(n)) ==> n.endfor == old(n.endfor)
  ensures [C08] forall n *VimNode :: {n.endtry} old(isalloc(n)) ==> n.endtry == old(n.endtry)
  ensures [C08] forall n *VimNode :: {n.endfunction} old(isalloc(n)) ==> n.endfunction == old(n.endfunction)
  ensures [C08] forall n *VimNode :: {n.catch} old(isalloc(n)) ==> n.catch == old(n.catch)
  ensures [C08] forall n *VimNode :: {n.finally} old(isalloc(n)) ==> n.finally == old(n.finally)

func VimLParser.parse_cmd_usercmd(self)
  requires [C08] len(self.context) >= 1
  ensures [C08] shifted(self.context, old(self.context), 0)
  ensures [C08] let(b, self.context[0].body, let(b0, old(self.context[0].body), longer(b, b0, 1) && len(b) == len(b0) + 1 && b[len(b0)] != nil && b[len(b0)].type_ in set(NODE_EXCMD)))
  ensures [C08] forall n *VimNode :: {n.body} old(isalloc(n)) && !((n == old(self.context[0]))) ==> n.body == old(n.body)
  ensures [C08] forall n *VimNode :: {n.elseif} old(isalloc(n)) ==> n.elseif == old(n.elseif)
  ensures [C08] forall n *VimNode :: {n.else_} old(isalloc(n)) ==> n.else_ == old(n.else_)
  ensures [C08] forall n *VimNode :: {n.endif} old(isalloc(n)) ==> n.endif == old(n.endif)
  ensures [C08] forall n *VimNode :: {n.endwhile} old(isalloc(n)) ==> n.endwhile == old(n.endwhile)
  ensures [C08] forall n *VimNode :: {n.endfor} old(isalloc(n)) ==> n.endfor == old(n.endfor)
  ensures [C08] forall n *VimNode :: {n.endtry} old(isalloc(n)) ==> n.endtry == old(n.endtry)
  ensures [C08] forall n *VimNode :: {n.endfunction} old(isalloc(n)) ==> n.endfunction == old(n.endfunction)
  ensures [C08] forall n *VimNode :: {n.catch} old(isalloc(n)) ==> n.catch == old(n.catch)
  ensures [C08] forall n *VimNode :: {n.finally} old(isalloc(n)) ==> n.finally == old(n.finally)

func VimLParser.parse_wincmd(self)
  requires [C08] len(self.context) >= 1
  ensures [C08] shifted(self.context, old(self.context), 0)
  ensures [C08] let(b, self.context[0].body, let(b0, old(self.context[0].body), longer(b, b0, 1) && len(b) == len(b0) + 1 && b[len(b0)] != nil && b[len(b0)].type_ in set(NODE_EXCMD)))
  ensures [C08] forall n *VimNode :: {n.body} old(isalloc(n)) && !((n == old(self.context[0]))) ==> n.body == old(n.body)
  ensures [C08] forall n *VimNode :: {n.elseif} old(isalloc(n)) ==> n.elseif == old(n.elseif)
  ensures [C08] forall n *VimNode :: {n.else_} old(isalloc(n)) ==> n.else_ == old(n.else_)
  ensures [C08] forall n *VimNode :: {n.endif} old(isalloc(n)) ==> n.endif == old(n.endif)
  ensures [C08] forall n *VimNode :: {n.endwhile} old(isalloc(n)) ==> n.endwhile == old(n.endwhile)
  ensures [C08] forall n *VimNode :: {n.endfor} old(isalloc(n)) ==> n.endfor == old(n.endfor)
  ensures [C08] forall n *VimNode :: {n.endtry} old(isalloc(n)) ==> n.endtry == old(n.endtry)
  ensures [C08] forall n *VimNode :: {n.endfunction} old(isalloc(n)) ==> n.endfunction == old(n.endfunction)
  ensures [C08] forall n *VimNode :: {n.catch} old(isalloc(n)) ==> n.catch == old(n.catch)
  ensures [C08] forall n *VimNode :: {n.finally} old(isalloc(n)) ==> n.finally == old(n.finally)

func VimLParser.parse_cmd_syntax(self)
  requires [C08] len(self.context) >= 1
  ensures [C08] shifted(self.context, old(self.context), 0)
  ensures [C08] let(b, self.context[0].body, let(b0, old(self.context[0].body), longer(b, b0, 1) && len(b) == len(b0) + 1 && b[len(b0)] != nil && b[len(b0)].type_ in set(NODE_EXCMD)))
  ensures [C08] forall n *VimNode :: {n.body} old(isalloc(n)) && !((n == old(self.context[0]))) ==> n.body == old(n.body)
  ensures [C08] forall n *VimNode :: {n.elseif} old(isalloc(n)) ==> n.elseif == old(n.elseif)
  ensures [C08] forall n *VimNode :: {n.else_} old(isalloc(n)) ==> n.else_ == old(n.else_)
  ensures [C08] forall n *VimNode :: {n.endif} old(isalloc(n)) ==> n.endif == old(n.endif)
  ensures [C08] forall n *VimNode :: {n.endwhile} old(isalloc(n)) ==> n.endwhile == old(n.endwhile)
  ensures [C08] forall n *VimNode :: {n.endfor} old(isalloc(n)) ==> n.endfor == old(n.endfor)
  ensures [C08] forall n *VimNode :: {n.endtry} old(isalloc(n)) ==> n.endtry == old(n.endtry)
  ensures [C08] forall n *VimNode :: {n.endfunction} old(isalloc(n)) ==> n.endfunction == old(n.endfunction)
  ensures [C08] forall n *VimNode :: {n.catch} old(isalloc(n)) ==> n.catch == old(n.catch)
  ensures [C08] forall n *VimNode :: {n.finally} old(isalloc(n)) ==> n.finally == old(n.finally)

func VimLParser.parse_cmd_delfunction(self)
  requires [C08] len(self.context) >= 1
  ensures [C08] shifted(self.context, old(self.context), 0)
  ensures [C08] let(b, self.context[0].body, let(b0, old(self.context[0].body), longer(b, b0, 1) && len(b) == len(b0) + 1 && b[len(b0)] != nil && b[len(b0)].type_ in set(NODE_DELFUNCTION)))
  ensures [C08] forall n *VimNode :: {n.body} old(isalloc(n)) && !((n == old(self.context[0]))) ==> n.body == old(n.body)
  ensures [C08] forall n *VimNode :: {n.elseif} old(isalloc(n)) ==> n.elseif == old(n.elseif)
  ensures [C08] forall n *VimNode :: {n.else_} old(isalloc(n)) ==> n.else_ == old(n.else_)
  ensures [C08] forall n *VimNode :: {n.endif} old(isalloc(n)) ==> n.endif == old(n.endif)
  ensures [C08] forall n *VimNode :: {n.endwhile} old(isalloc(n)) ==> n.endwhile == old(n.endwhile)
  ensures [C08] forall n *VimNode :: {n.endfor} old(isalloc(n)) ==> n.endfor == old(n.endfor)
  ensures [C08] forall n *VimNode :: {n.endtry} old(isalloc(n)) ==> n.endtry == old(n.endtry)
  ensures [C08] forall n *VimNode :: {n.endfunction} old(isalloc(n)) ==> n.endfunction == old(n.endfunction)
  ensures [C08] forall n *VimNode :: {n.catch} old(isalloc(n)) ==> n.catch == old(n.catch)
  ensures [C08] forall n *VimNode :: {n.finally} old(isalloc(n)) ==> n.finally == old(n.finally)

func VimLParser.parse_cmd_return(self)
  requires [C08] len(self.context) >= 1
  ensures [C08] shifted(self.context, old(self.context), 0)
  ensures [C08] let(b, self.context[0].body, let(b0, old(self.context[0].body), longer(b, b0, 1) && len(b) == len(b0) + 1 && b[len(b0)] != nil && b[len(b0)].type_ in set(NODE_RETURN)))
  ensures [C08] forall n *VimNode :: {n.body} old(isalloc(n)) && !((n == old(self.context[0]))) ==> n.body == old(n.body)
  ensures [C08] forall n *VimNode :: {n.elseif} old(isalloc(n)) ==> n.elseif == old(n.elseif)
  ensures [C08] forall n *VimNode :: {n.else_} old(isalloc(n)) ==> n.else_ == old(n.else_)
  ensures [C08] forall n *VimNode :: {n.endif} old(isalloc(n)) ==> n.endif == old(n.endif)
  ensures [C08] forall n *VimNode :: {n.endwhile} old(isalloc(n)) ==> n.endwhile == old(n.endwhile)
  ensures [C08] forall n *VimNode :: {n.endfor} old(isalloc(n)) ==> n.endfor == old(n.endfor)
  ensures [C08] forall n *VimNode :: {n.endtry} old(isalloc(n)) ==> n.endtry == old(n.endtry)
  ensures [C08] forall n *VimNode :: {n.endfunction} old(isalloc(n)) ==> n.endfunction == old(n.endfunction)
  ensures [C08] forall n *VimNode :: {n.catch} old(isalloc(n)) ==> n.catch == old(n.catch)
  ensures [C08] forall n *VimNode :: {n.finally} old(isalloc(n)) ==> n.finally == old(n.finally)

func VimLParser.parse_cmd_unlet(self)
  requires [C08] len(self.context) >= 1
  ensures [C08] shifted(self.context, old(self.context), 0)
  ensures [C08] let(b, self.context[0].body, let(b0, old(self.context[0].body), longer(b, b0, 1) && len(b) == len(b0) + 1 && b[len(b0)] != nil && b[len(b0)].type_ in set(NODE_UNLET)))
  ensures [C08] forall n *VimNode :: {n.body} old(isalloc(n)) && !((n == old(self.context[0]))) ==> n.body == old(n.body)
  ensures [C08] forall n *VimNode :: {n.elseif} old(isalloc(n)) ==> n.elseif == old(n.elseif)
  ensures [C08] forall n *VimNode :: {n.else_} old(isalloc(n)) ==> n.else_ == old(n.else_)
  ensures [C08] forall n *VimNode :: {n.endif} old(isalloc(n)) ==> n.endif == old(n.endif)
  ensures [C08] forall n *VimNode :: {n.endwhile} old(isalloc(n)) ==> n.endwhile == old(n.endwhile)
  ensures [C08] forall n *VimNode :: {n.endfor} old(isalloc(n)) ==> n.endfor == old(n.endfor)
  ensures [C08] forall n *VimNode :: {n.endtry} old(isalloc(n)) ==> n.endtry == old(n.endtry)
  ensures [C08] forall n *VimNode :: {n.endfunction} old(isalloc(n)) ==> n.endfunction == old(n.endfunction)
  ensures [C08] forall n *VimNode :: {n.catch} old(isalloc(n)) ==> n.catch == old(n.catch)
  ensures [C08] forall n *VimNode :: {n.finally} old(isalloc(n)) ==> n.finally == old(n.finally)

func VimLParser.parse_cmd_lockvar(self)
  requires [C08] len(self.context) >= 1
  ensures [C08] shifted(self.context, old(self.context), 0)
  ensures [C08] let(b, self.context[0].body, let(b0, old(self.context[0].body), longer(b, b0, 1) && len(b) == len(b0) + 1 && b[len(b0)] != nil && b[len(b0)].type_ in set(NODE_LOCKVAR)))
  ensures [C08] forall n *VimNode :: {n.body} old(isalloc(n)) && !((n == old(self.context[0]))) ==> n.body == old(n.body)
  ensures [C08] forall n *VimNode :: {n.elseif} old(isalloc(n)) ==> n.elseif == old(n.elseif)
  ensures [C08] forall n *VimNode :: {n.else_} old(isalloc(n)) ==> n.else_ == old(n.else_)
  ensures [C08] forall n *VimNode :: {n.endif} old(isalloc(n)) ==> n.endif == old(n.endif)
  ensures [C08] forall n *VimNode :: {n.endwhile} old(isalloc(n)) ==> n.endwhile == old(n.endwhile)
  ensures [C08] forall n *VimNode :: {n.endfor} old(isalloc(n)) ==> n.endfor == old(n.endfor)
  ensures [C08] forall n *VimNode :: {n.endtry} old(isalloc(n)) ==> n.endtry == old(n.endtry)
  ensures [C08] forall n *VimNode :: {n.endfunction} old(isalloc(n)) ==> n.endfunction == old(n.endfunction)
  ensures [C08] forall n *VimNode :: {n.catch} old(isalloc(n)) ==> n.catch == old(n.catch)
  ensures [C08] forall n *VimNode :: {n.finally} old(isalloc(n)) ==> n.finally == old(n.finally)

func VimLParser.parse_cmd_unlockvar(self)
  requires [C08] len(self.context) >= 1
  ensures [C08] shifted(self.context, old(self.context), 0)
  ensures [C08] let(b, self.context[0].body, let(b0, old(self.context[0].body), longer(b, b0, 1) && len(b) == len(b0) + 1 && b[len(b0)] != nil && b[len(b0)].type_ in set(NODE_UNLOCKVAR)))
  ensures [C08] forall n *VimNode :: {n.body} old(isalloc(n)) && !((n == old(self.context[0]))) ==> n.body == old(n.body)
  ensures [C08] forall n *VimNode :: {n.elseif} old(isalloc(n)) ==> n.elseif == old(n.elseif)
  ensures [C08] forall n *VimNode :: {n.else_} old(isalloc(n)) ==> n.else_ == old(n.else_)
  ensures [C08] forall n *VimNode :: {n.endif} old(isalloc(n)) ==> n.endif == old(n.endif)
  ensures [C08] forall n *VimNode :: {n.endwhile} old(isalloc(n)) ==> n.endwhile == old(n.endwhile)
  ensures [C08] forall n *VimNode :: {n.endfor} old(isalloc(n)) ==> n.endfor == old(n.endfor)
  ensures [C08] forall n *VimNode :: {n.endtry} old(isalloc(n)) ==> n.endtry == old(n.endtry)
  ensures [C08] forall n *VimNode :: {n.endfunction} old(isalloc(n)) ==> n.endfunction == old(n.endfunction)
  ensures [C08] forall n *VimNode :: {n.catch} old(isalloc(n)) ==> n.catch == old(n.catch)
  ensures [C08] forall n *VimNode :: {n.finally} old(isalloc(n)) ==> n.finally == old(n.finally)

func VimLParser.parse_cmd_continue(self)
  requires [C08] len(self.context) >= 1
  ensures [C08] shifted(self.context, old(self.context), 0)
  ensures [C08] let(b, self.context[0].body, let(b0, old(self.context[0].body), longer(b, b0, 1) && len(b) == len(b0) + 1 && b[len(b0)] != nil && b[len(b0)].type_ in set(NODE_CONTINUE)))
  ensures [C08] forall n *VimNode :: {n.body} old(isalloc(n)) && !((n == old(self.context[0]))) ==> n.body == old(n.body)
  ensures [C08] forall n *VimNode :: {n.elseif} old(isalloc(n)) ==> n.elseif == old(n.elseif)
  ensures [C08] forall n *VimNode :: {n.else_} old(isalloc(n)) ==> n.else_ == old(n.else_)
  ensures [C08] forall n *VimNode :: {n.endif} old(isalloc(n)) ==> n.endif == old(n.endif)
  ensures [C08] forall n *VimNode :: {n.endwhile} old(isalloc(n)) ==> n.endwhile == old(n.endwhile)
  ensures [C08] forall n *VimNode :: {n.endfor} old(isalloc(n)) ==> n.endfor == old(n.endfor)
  ensures [C08] forall n *VimNode :: {n.endtry} old(isalloc(n)) ==> n.endtry == old(n.endtry)
  ensures [C08] forall n *VimNode :: {n.endfunction} old(isalloc(n)) ==> n.endfunction == old(n.endfunction)
  ensures [C08] forall n *VimNode :: {n.catch} old(isalloc(n)) ==> n.catch == old(n.catch)
  ensures [C08] forall n *VimNode :: {n.finally} old(isalloc(n)) ==> n.finally == old(n.finally)

func VimLParser.parse_cmd_break(self)
  requires [C08] len(self.context) >= 1
  ensures [C08] shifted(self.context, old(self.context), 0)
  ensures [C08] let(b, self.context[0].body, let(b0, old(self.context[0].body), longer(b, b0, 1) && len(b) == len(b0) + 1 && b[len(b0)] != nil && b[len(b0)].type_ in set(NODE_BREAK)))
  ensures [C08] forall n *VimNode :: {n.body} old(isalloc(n)) && !((n == old(self.context[0]))) ==> n.body == old(n.body)
  ensures [C08] forall n *VimNode :: {n.elseif} old(isalloc(n)) ==> n.elseif == old(n.elseif)
  ensures [C08] forall n *VimNode :: {n.else_} old(isalloc(n)) ==> n.else_ == old(n.else_)
  ensures [C08] forall n *VimNode :: {n.endif} old(isalloc(n)) ==> n.endif == old(n.endif)
  ensures [C08] forall n *VimNode :: {n.endwhile} old(isalloc(n)) ==> n.endwhile == old(n.endwhile)
  ensures [C08] forall n *VimNode :: {n.endfor} old(isalloc(n)) ==> n.endfor == old(n.endfor)
  ensures [C08] forall n *VimNode :: {n.endtry} old(isalloc(n)) ==> n.endtry == old(n.endtry)
  ensures [C08] forall n *VimNode :: {n.endfunction} old(isalloc(n)) ==> n.endfunction == old(n.endfunction)
  ensures [C08] forall n *VimNode :: {n.catch} old(isalloc(n)) ==> n.catch == old(n.catch)
  ensures [C08] forall n *VimNode :: {n.finally} old(isalloc(n)) ==> n.finally == old(n.finally)

func VimLParser.parse_cmd_throw(self)
  requires [C08] len(self.context) >= 1
  ensures [C08] shifted(self.context, old(self.context), 0)
  ensures [C08] let(b, self.context[0].body, let(b0, old(self.context[0].body), longer(b, b0, 1) && len(b) == len(b0) + 1 && b[len(b0)] != nil && b[len(b0)].type_ in set(NODE_THROW)))
  ensures [C08] forall n *VimNode :: {n.body} old(isalloc(n)) && !((n == old(self.context[0]))) ==> n.body == old(n.body)
  ensures [C08] forall n *VimNode :: {n.elseif} old(isalloc(n)) ==> n.elseif == old(n.elseif)
  ensures [C08] forall n *VimNode :: {n.else_} old(isalloc(n)) ==> n.else_ == old(n.else_)
  ensures [C08] forall n *VimNode :: {n.endif} old(isalloc(n)) ==> n.endif == old(n.endif)
  ensures [C08] forall n *VimNode :: {n.endwhile} old(isalloc(n)) ==> n.endwhile == old(n.endwhile)
  ensures [C08] forall n *VimNode :: {n.endfor} old(isalloc(n)) ==> n.endfor == old(n.endfor)
  ensures [C08] forall n *VimNode :: {n.endtry} old(isalloc(n)) ==> n.endtry == old(n.endtry)
  ensures [C08] forall n *VimNode :: {n.endfunction} old(isalloc(n)) ==> n.endfunction == old(n.endfunction)
  ensures [C08] forall n *VimNode :: {n.catch} old(isalloc(n)) ==> n.catch == old(n.catch)
  ensures [C08] forall n *VimNode :: {n.finally} old(isalloc(n)) ==> n.finally == old(n.finally)

func VimLParser.parse_cmd_eval(self)
  requires [C08] len(self.context) >= 1
  ensures [C08] shifted(self.context, old(self.context), 0)
  ensures [C08] let(b, self.context[0].body, let(b0, old(self.context[0].body), longer(b, b0, 1) && len(b) == len(b0) + 1 && b[len(b0)] != nil && b[len(b0)].type_ in set(NODE_EVAL)))
  ensures [C08] forall n *VimNode :: {n.body} old(isalloc(n)) && !((n == old(self.context[0]))) ==> n.body == old(n.body)
  ensures [C08] forall n *VimNode :: {n.elseif} old(isalloc(n)) ==> n.elseif == old(n.elseif)
  ensures [C08] forall n *VimNode :: {n.else_} old(isalloc(n)) ==> n.else_ == old(n.else_)
  ensures [C08] forall n *VimNode :: {n.endif} old(isalloc(n)) ==> n.endif == old(n.endif)
  ensures [C08] forall n *VimNode :: {n.endwhile} old(isalloc(n)) ==> n.endwhile == old(n.endwhile)
  ensures [C08] forall n *VimNode :: {n.endfor} old(isalloc(n)) ==> n.endfor == old(n.endfor)
  ensures [C08] forall n *VimNode :: {n.endtry} old(isalloc(n)) ==> n.endtry == old(n.endtry)
  ensures [C08] forall n *VimNode :: {n.endfunction} old(isalloc(n)) ==> n.endfunction == old(n.endfunction)
  ensures [C08] forall n *VimNode :: {n.catch} old(isalloc(n)) ==> n.catch == old(n.catch)
  ensures [C08] forall n *VimNode :: {n.finally} old(isalloc(n)) ==> n.finally == old(n.finally)

func VimLParser.parse_cmd_echo(self)
  requires [C08] len(self.context) >= 1
  ensures [C08] shifted(self.context, old(self.context), 0)
  ensures [C08] let(b, self.context[0].body, let(b0, old(self.context[0].body), longer(b, b0, 1) && len(b) == len(b0) + 1 && b[len(b0)] != nil && b[len(b0)].type_ in set(NODE_ECHO)))
  ensures [C08] forall n *VimNode :: {n.body} old(isalloc(n)) && !((n == old(self.context[0]))) ==> n.body == old(n.body)
  ensures [C08] forall n *VimNode :: {n.elseif} old(isalloc(n)) ==> n.elseif == old(n.elseif)
  ensures [C08] forall n *VimNode :: {n.else_} old(isalloc(n)) ==> n.else_ == old(n.else_)
  ensures [C08] forall n *VimNode :: {n.endif} old(isalloc(n)) ==> n.endif == old(n.endif)
  ensures [C08] forall n *VimNode :: {n.endwhile} old(isalloc(n)) ==> n.endwhile == old(n.endwhile)
  ensures [C08] forall n *VimNode :: {n.endfor} old(isalloc(n)) ==> n.endfor == old(n.endfor)
  ensures [C08] forall n *VimNode :: {n.endtry} old(isalloc(n)) ==> n.endtry == old(n.endtry)
  ensures [C08] forall n *VimNode :: {n.endfunction} old(isalloc(n)) ==> n.endfunction == old(n.endfunction)
  ensures [C08] forall n *VimNode :: {n.catch} old(isalloc(n)) ==> n.catch == old(n.catch)
  ensures [C08] forall n *VimNode :: {n.finally} old(isalloc(n)) ==> n.finally == old(n.finally)

func VimLParser.parse_cmd_echon(self)
  requires [C08] len(self.context) >= 1
  ensures [C08] shifted(self.context, old(self.context), 0)
  ensures [C08] let(b, self.context[0].body, let(b0, old(self.context[0].body), longer(b, b0, 1) && len(b) == len(b0) + 1 && b[len(b0)] != nil && b[len(b0)].type_ in set(NODE_ECHON)))
  ensures [C08] forall n *VimNode :: {n.body} old(isalloc(n)) && !((n == old(self.context[0]))) ==> n.body == old(n.body)
  ensures [C08] forall n *VimNode :: {n.elseif} old(isalloc(n)) ==> n.elseif == old(n.elseif)
  ensures [C08] forall n *VimNode :: {n.else_} old(isalloc(n)) ==> n.else_ == old(n.else_)
  ensures [C08] forall n *VimNode :: {n.endif} old(isalloc(n)) ==> n.endif == old(n.endif)
  ensures [C08] forall n *VimNode :: {n.endwhile} old(isalloc(n)) ==> n.endwhile == old(n.endwhile)
  ensures [C08] forall n *VimNode :: {n.endfor} old(isalloc(n)) ==> n.endfor == old(n.endfor)
  ensures [C08] forall n *VimNode :: {n.endtry} old(isalloc(n)) ==> n.endtry == old(n.endtry)
  ensures [C08] forall n *VimNode :: {n.endfunction} old(isalloc(n)) ==> n.endfunction == old(n.endfunction)
  ensures [C08] forall n *VimNode :: {n.catch} old(isalloc(n)) ==> n.catch == old(n.catch)
  ensures [C08] forall n *VimNode :: {n.finally} old(isalloc(n)) ==> n.finally == old(n.finally)

func VimLParser.parse_cmd_echohl(self)
  requires [C08] len(self.context) >= 1
  ensures [C08] shifted(self.context, old(self.context), 0)
  ensures [C08] let(b, self.context[0].body, let(b0, old(self.context[0].body), longer(b, b0, 1) && len(b) == len(b0) + 1 && b[len(b0)] != nil && b[len(b0)].type_ in set(NODE_ECHOHL)))
  ensures [C08] forall n *VimNode :: {n.body} old(isalloc(n)) && !((n == old(self.context[0]))) ==> n.body == old(n.body)
  ensures [C08] forall n *VimNode :: {n.elseif} old(isalloc(n)) ==> n.elseif == old(n.elseif)
  ensures [C08] forall n *VimNode :: {n.else_} old(isalloc(n)) ==> n.else_ == old(n.else_)
  ensures [C08] forall n *VimNode :: {n.endif} old(isalloc(n)) ==> n.endif == old(n.endif)
  ensures [C08] forall n *VimNode :: {n.endwhile} old(isalloc(n)) ==> n.endwhile == old(n.endwhile)
  ensures [C08] forall n *VimNode :: {n.endfor} old(isalloc(n)) ==> n.endfor == old(n.endfor)
  ensures [C08] forall n *VimNode :: {n.endtry} old(isalloc(n)) ==> n.endtry == old(n.endtry)
  ensures [C08] forall n *VimNode :: {n.endfunction} old(isalloc(n)) ==> n.endfunction == old(n.endfunction)
  ensures [C08] forall n *VimNode :: {n.catch} old(isalloc(n)) ==> n.catch == old(n.catch)
  ensures [C08] forall n *VimNode :: {n.finally} old(isalloc(n)) ==> n.finally == old(n.finally)

func VimLParser.parse_cmd_echomsg(self)
  requires [C08] len(self.context) >= 1
  ensures [C08] shifted(self.context, old(self.context), 0)
  ensures [C08] let(b, self.context[0].body, let(b0, old(self.context[0].body), longer(b, b0, 1) && len(b) == len(b0) + 1 && b[len(b0)] != nil && b[len(b0)].type_ in set(NODE_ECHOMSG)))
  ensures [C08] forall n *VimNode :: {n.body} old(isalloc(n)) && !((n == old(self.context[0]))) ==> n.body == old(n.body)
  ensures [C08] forall n *VimNode :: {n.elseif} old(isalloc(n)) ==> n.elseif == old(n.elseif)
  ensures [C08] forall n *VimNode :: {n.else_} old(isalloc(n)) ==> n.else_ == old(n.else_)
  ensures [C08] forall n *VimNode :: {n.endif} old(isalloc(n)) ==> n.endif == old(n.endif)
  ensures [C08] forall n *VimNode :: {n.endwhile} old(isalloc(n)) ==> n.endwhile == old(n.endwhile)
  ensures [C08] forall n *VimNode :: {n.endfor} old(isalloc(n)) ==> n.endfor == old(n.endfor)
  ensures [C08] forall n *VimNode :: {n.endtry} old(isalloc(n)) ==> n.endtry == old(n.endtry)
  ensures [C08] forall n *VimNode :: {n.endfunction} old(isalloc(n)) ==> n.endfunction == old(n.endfunction)
  ensures [C08] forall n *VimNode :: {n.catch} old(isalloc(n)) ==> n.catch == old(n.catch)
  ensures [C08] forall n *VimNode :: {n.finally} old(isalloc(n)) ==> n.finally == old(n.finally)

func VimLParser.parse_cmd_echoerr(self)
  requires [C08] len(self.context) >= 1
  ensures [C08] shifted(self.context, old(self.context), 0)
  ensures [C08] let(b, self.context[0].body, let(b0, old(self.context[0].body), longer(b, b0, 1) && len(b) == len(b0) + 1 && b[len(b0)] != nil && b[len(b0)].type_ in set(NODE_ECHOERR)))
  ensures [C08] forall n *VimNode :: {n.body} old(isalloc(n)) && !((n == old(self.context[0]))) ==> n.body == old(n.body)
  ensures [C08] forall n *VimNode :: {n.elseif} old(isalloc(n)) ==> n.elseif == old(n.elseif)
  ensures [C08] forall n *VimNode :: {n.else_} old(isalloc(n)) ==> n.else_ == old(n.else_)
  ensures [C08] forall n *VimNode :: {n.endif} old(isalloc(n)) ==> n.endif == old(n.endif)
  ensures [C08] forall n *VimNode :: {n.endwhile} old(isalloc(n)) ==> n.endwhile == old(n.endwhile)
  ensures [C08] forall n *VimNode :: {n.endfor} old(isalloc(n)) ==> n.endfor == old(n.endfor)
  ensures [C08] forall n *VimNode :: {n.endtry} old(isalloc(n)) ==> n.endtry == old(n.endtry)
  ensures [C08] forall n *VimNode :: {n.endfunction} old(isalloc(n)) ==> n.endfunction == old(n.endfunction)
  ensures [C08] forall n *VimNode :: {n.catch} old(isalloc(n)) ==> n.catch == old(n.catch)
  ensures [C08] forall n *VimNode :: {n.finally} old(isalloc(n)) ==> n.finally == old(n.finally)

func VimLParser.parse_cmd_execute(self)
  requires [C08] len(self.context) >= 1
  ensures [C08] shifted(self.context, old(self.context), 0)
  ensures [C08] let(b, self.context[0].body, let(b0, old(self.context[0].body), longer(b, b0, 1) && len(b) == len(b0) + 1 && b[len(b0)] != nil && b[len(b0)].type_ in set(NODE_EXECUTE)))
  ensures [C08] forall n *VimNode :: {n.body} old(isalloc(n)) && !((n == old(self.context[0]))) ==> n.body == old(n.body)
  ensures [C08] forall n *VimNode :: {n.elseif} old(isalloc(n)) ==> n.elseif == old(n.elseif)
  ensures [C08] forall n *VimNode :: {n.else_} old(isalloc(n)) ==> n.else_ == old(n.else_)
  ensures [C08] forall n *VimNode :: {n.endif} old(isalloc(n)) ==> n.endif == old(n.endif)
  ensures [C08] forall n *VimNode :: {n.endwhile} old(isalloc(n)) ==> n.endwhile == old(n.endwhile)
  ensures [C08] forall n *VimNode :: {n.endfor} old(isalloc(n)) ==> n.endfor == old(n.endfor)
  ensures [C08] forall n *VimNode :: {n.endtry} old(isalloc(n)) ==> n.endtry == old(n.endtry)
  ensures [C08] forall n *VimNode :: {n.endfunction} old(isalloc(n)) ==> n.endfunction == old(n.endfunction)
  ensures [C08] forall n *VimNode :: {n.catch} old(isalloc(n)) ==> n.catch == old(n.catch)
  ensures [C08] forall n *VimNode :: {n.finally} old(isalloc(n)) ==> n.finally == old(n.finally)

func VimLParser.parse_cmd_if(self)
  requires [C08] len(self.context) >= 1
  ensures [C08] pushed(self.context, old(self.context), 0 - 1) && self.context[0].type_ == NODE_IF && fresh(self.context[0]) && empty(self.context[0]) && plus(self.context[1].body, old(self.context[0].body)) && self.context[1].body[len(self.context[1].body) - 1] == self.context[0]
  ensures [C08] forall n *VimNode :: {n.body} old(isalloc(n)) && !((n == old(self.context[0]))) ==> n.body == old(n.body)
  ensures [C08] forall n *VimNode :: {n.elseif} old(isalloc(n)) ==> n.elseif == old(n.elseif)
  ensures [C08] forall n *VimNode :: {n.else_} old(isalloc(n)) ==> n.else_ == old(n.else_)
  ensures [C08] forall n *VimNode :: {n.endif} old(isalloc(n)) ==> n.endif == old(n.endif)
  ensures [C08] forall n *VimNode :: {n.endwhile} old(isalloc(n)) ==> n.endwhile == old(n.endwhile)
  ensures [C08] forall n *VimNode :: {n.endfor} old(isalloc(n)) ==> n.endfor == old(n.endfor)
  ensures [C08] forall n *VimNode :: {n.endtry} old(isalloc(n)) ==> n.endtry == old(n.endtry)
  ensures [C08] forall n *VimNode :: {n.endfunction} old(isalloc(n)) ==> n.endfunction == old(n.endfunction)
  ensures [C08] forall n *VimNode :: {n.catch} old(isalloc(n)) ==> n.catch == old(n.catch)
  ensures [C08] forall n *VimNode :: {n.finally} old(isalloc(n)) ==> n.finally == old(n.finally)

func VimLParser.parse_cmd_while(self)
  requires [C08] len(self.context) >= 1
  ensures [C08] pushed(self.context, old(self.context), 0 - 1) && self.context[0].type_ == NODE_WHILE && fresh(self.context[0]) && empty(self.context[0]) && plus(self.context[1].body, old(self.context[0].body)) && self.context[1].body[len(self.context[1].body) - 1] == self.context[0]
  ensures [C08] forall n *VimNode :: {n.body} old(isalloc(n)) && !((n == old(self.context[0]))) ==> n.body == old(n.body)
  ensures [C08] forall n *VimNode :: {n.elseif} old(isalloc(n)) ==> n.elseif == old(n.elseif)
  ensures [C08] forall n *VimNode :: {n.else_} old(isalloc(n)) ==> n.else_ == old(n.else_)
  ensures [C08] forall n *VimNode :: {n.endif} old(isalloc(n)) ==> n.endif == old(n.endif)
  ensures [C08] forall n *VimNode :: {n.endwhile} old(isalloc(n)) ==> n.endwhile == old(n.endwhile)
  ensures [C08] forall n *VimNode :: {n.endfor} old(isalloc(n)) ==> n.endfor == old(n.endfor)
  ensures [C08] forall n *VimNode :: {n.endtry} old(isalloc(n)) ==> n.endtry == old(n.endtry)
  ensures [C08] forall n *VimNode :: {n.endfunction} old(isalloc(n)) ==> n.endfunction == old(n.endfunction)
  ensures [C08] forall n *VimNode :: {n.catch} old(isalloc(n)) ==> n.catch == old(n.catch)
  ensures [C08] forall n *VimNode :: {n.finally} old(isalloc(n)) ==> n.finally == old(n.finally)

func VimLParser.parse_cmd_for(self)
  requires [C08] len(self.context) >= 1
  ensures [C08] pushed(self.context, old(self.context), 0 - 1) && self.context[0].type_ == NODE_FOR && fresh(self.context[0]) && empty(self.context[0]) && plus(self.context[1].body, old(self.context[0].body)) && self.context[1].body[len(self.context[1].body) - 1] == self.context[0]
  ensures [C08] forall n *VimNode :: {n.body} old(isalloc(n)) && !((n == old(self.context[0]))) ==> n.body == old(n.body)
  ensures [C08] forall n *VimNode :: {n.elseif} old(isalloc(n)) ==> n.elseif == old(n.elseif)
  ensures [C08] forall n *VimNode :: {n.else_} old(isalloc(n)) ==> n.else_ == old(n.else_)
  ensures [C08] forall n *VimNode :: {n.endif} old(isalloc(n)) ==> n.endif == old(n.endif)
  ensures [C08] forall n *VimNode :: {n.endwhile} old(isalloc(n)) ==> n.endwhile == old(n.endwhile)
  ensures [C08] forall n *VimNode :: {n.endfor} old(isalloc(n)) ==> n.endfor == old(n.endfor)
  ensures [C08] forall n *VimNode :: {n.endtry} old(isalloc(n)) ==> n.endtry == old(n.endtry)
  ensures [C08] forall n *VimNode :: {n.endfunction} old(isalloc(n)) ==> n.endfunction == old(n.endfunction)
  ensures [C08] forall n *VimNode :: {n.catch} old(isalloc(n)) ==> n.catch == old(n.catch)
  ensures [C08] forall n *VimNode :: {n.finally} old(isalloc(n)) ==> n.finally == old(n.finally)

func VimLParser.parse_cmd_try(self)
  requires [C08] len(self.context) >= 1
  ensures [C08] pushed(self.context, old(self.context), 0 - 1) && self.context[0].type_ == NODE_TRY && fresh(self.context[0]) && empty(self.context[0]) && plus(self.context[1].body, old(self.context[0].body)) && self.context[1].body[len(self.context[1].body) - 1] == self.context[0]
  ensures [C08] forall n *VimNode :: {n.body} old(isalloc(n)) && !((n == old(self.context[0]))) ==> n.body == old(n.body)
  ensures [C08] forall n *VimNode :: {n.elseif} old(isalloc(n)) ==> n.elseif == old(n.elseif)
  ensures [C08] forall n *VimNode :: {n.else_} old(isalloc(n)) ==> n.else_ == old(n.else_)
  ensures [C08] forall n *VimNode :: {n.endif} old(isalloc(n)) ==> n.endif == old(n.endif)
  ensures [C08] forall n *VimNode :: {n.endwhile} old(isalloc(n)) ==> n.endwhile == old(n.endwhile)
  ensures [C08] forall n *VimNode :: {n.endfor} old(isalloc(n)) ==> n.endfor == old(n.endfor)
  ensures [C08] forall n *VimNode :: {n.endtry} old(isalloc(n)) ==> n.endtry == old(n.endtry)
  ensures [C08] forall n *VimNode :: {n.endfunction} old(isalloc(n)) ==> n.endfunction == old(n.endfunction)
  ensures [C08] forall n *VimNode :: {n.catch} old(isalloc(n)) ==> n.catch == old(n.catch)
  ensures [C08] forall n *VimNode :: {n.finally} old(isalloc(n)) ==> n.finally == old(n.finally)

func VimLParser.parse_cmd_function(self)
  requires [C08] len(self.context) >= 1
  ensures [C08] shifted(self.context, old(self.context), 0) && let(b, self.context[0].body, let(b0, old(self.context[0].body), longer(b, b0, 1) && len(b) == len(b0) + 1 && b[len(b0)] != nil && b[len(b0)].type_ in set(NODE_EXCMD))) || pushed(self.context, old(self.context), 0 - 1) && self.context[0].type_ == NODE_FUNCTION && fresh(self.context[0]) && empty(self.context[0]) && plus(self.context[1].body, old(self.context[0].body)) && self.context[1].body[len(self.context[1].body) - 1] == self.context[0]
  ensures [C08] forall n *VimNode :: {n.body} old(isalloc(n)) && !((n == old(self.context[0]))) ==> n.body == old(n.body)
  ensures [C08] forall n *VimNode :: {n.elseif} old(isalloc(n)) ==> n.elseif == old(n.elseif)
  ensures [C08] forall n *VimNode :: {n.else_} old(isalloc(n)) ==> n.else_ == old(n.else_)
  ensures [C08] forall n *VimNode :: {n.endif} old(isalloc(n)) ==> n.endif == old(n.endif)
  ensures [C08] forall n *VimNode :: {n.endwhile} old(isalloc(n)) ==> n.endwhile == old(n.endwhile)
  ensures [C08] forall n *VimNode :: {n.endfor} old(isalloc(n)) ==> n.endfor == old(n.endfor)
  ensures [C08] forall n *VimNode :: {n.endtry} old(isalloc(n)) ==> n.endtry == old(n.endtry)
  ensures [C08] forall n *VimNode :: {n.endfunction} old(isalloc(n)) ==> n.endfunction == old(n.endfunction)
  ensures [C08] forall n *VimNode :: {n.catch} old(isalloc(n)) ==> n.catch == old(n.catch)
  ensures [C08] forall n *VimNode :: {n.finally} old(isalloc(n)) ==> n.finally == old(n.finally)

func VimLParser.parse_cmd_elseif(self)
  requires [C08] len(self.context) >= 1
  ensures [C08] old(self.context[0].type_) in set(NODE_IF, NODE_ELSEIF)
  ensures [C08] pushed(self.context, old(self.context), old(mains(self.context)) - 1) && self.context[0].type_ == NODE_ELSEIF && fresh(self.context[0]) && empty(self.context[0])
  ensures [C08] plus(self.context[1].elseif, old(self.context[mains(self.context)].elseif)) && self.context[1].elseif[len(self.context[1].elseif) - 1] == self.context[0]
  ensures [C08] forall n *VimNode :: {n.body} old(isalloc(n)) ==> n.body == old(n.body)
  ensures [C08] forall n *VimNode :: {n.elseif} old(isalloc(n)) && !((n == old(self.context[mains(self.context)]))) ==> n.elseif == old(n.elseif)
  ensures [C08] forall n *VimNode :: {n.else_} old(isalloc(n)) ==> n.else_ == old(n.else_)
  ensures [C08] forall n *VimNode :: {n.endif} old(isalloc(n)) ==> n.endif == old(n.endif)
  ensures [C08] forall n *VimNode :: {n.endwhile} old(isalloc(n)) ==> n.endwhile == old(n.endwhile)
  ensures [C08] forall n *VimNode :: {n.endfor} old(isalloc(n)) ==> n.endfor == old(n.endfor)
  ensures [C08] forall n *VimNode :: {n.endtry} old(isalloc(n)) ==> n.endtry == old(n.endtry)
  ensures [C08] forall n *VimNode :: {n.endfunction} old(isalloc(n)) ==> n.endfunction == old(n.endfunction)
  ensures [C08] forall n *VimNode :: {n.catch} old(isalloc(n)) ==> n.catch == old(n.catch)
  ensures [C08] forall n *VimNode :: {n.finally} old(isalloc(n)) ==> n.finally == old(n.finally)

func VimLParser.parse_cmd_else(self)
  requires [C08] len(self.context) >= 1
  ensures [C08] old(self.context[0].type_) in set(NODE_IF, NODE_ELSEIF)
  panics e: !(old(self.context[0].type_) in set(NODE_IF, NODE_ELSEIF))
  ensures [C08] pushed(self.context, old(self.context), old(mains(self.context)) - 1) && self.context[0].type_ == NODE_ELSE && fresh(self.context[0]) && empty(self.context[0])
  ensures [C08] self.context[1].else_ == self.context[0]
  ensures [C08] forall n *VimNode :: {n.body} old(isalloc(n)) ==> n.body == old(n.body)
  ensures [C08] forall n *VimNode :: {n.elseif} old(isalloc(n)) ==> n.elseif == old(n.elseif)
  ensures [C08] forall n *VimNode :: {n.else_} old(isalloc(n)) && !((n == old(self.context[mains(self.context)]))) ==> n.else_ == old(n.else_)
  ensures [C08] forall n *VimNode :: {n.endif} old(isalloc(n)) ==> n.endif == old(n.endif)
  ensures [C08] forall n *VimNode :: {n.endwhile} old(isalloc(n)) ==> n.endwhile == old(n.endwhile)
  ensures [C08] forall n *VimNode :: {n.endfor} old(isalloc(n)) ==> n.endfor == old(n.endfor)
  ensures [C08] forall n *VimNode :: {n.endtry} old(isalloc(n)) ==> n.endtry == old(n.endtry)
  ensures [C08] forall n *VimNode :: {n.endfunction} old(isalloc(n)) ==> n.endfunction == old(n.endfunction)
  ensures [C08] forall n *VimNode :: {n.catch} old(isalloc(n)) ==> n.catch == old(n.catch)
  ensures [C08] forall n *VimNode :: {n.finally} old(isalloc(n)) ==> n.finally == old(n.finally)

func VimLParser.parse_cmd_catch(self)
  requires [C08] len(self.context) >= 1
  ensures [C08] old(self.context[0].type_) in set(NODE_TRY, NODE_CATCH)
  ensures [C08] pushed(self.context, old(self.context), old(mains(self.context)) - 1) && self.context[0].type_ == NODE_CATCH && fresh(self.context[0]) && empty(self.context[0])
  ensures [C08] plus(self.context[1].catch, old(self.context[mains(self.context)].catch)) && self.context[1].catch[len(self.context[1].catch) - 1] == self.context[0]
  ensures [C08] forall n *VimNode :: {n.body} old(isalloc(n)) ==> n.body == old(n.body)
  ensures [C08] forall n *VimNode :: {n.elseif} old(isalloc(n)) ==> n.elseif == old(n.elseif)
  ensures [C08] forall n *VimNode :: {n.else_} old(isalloc(n)) ==> n.else_ == old(n.else_)
  ensures [C08] forall n *VimNode :: {n.endif} old(isalloc(n)) ==> n.endif == old(n.endif)
  ensures [C08] forall n *VimNode :: {n.endwhile} old(isalloc(n)) ==> n.endwhile == old(n.endwhile)
  ensures [C08] forall n *VimNode :: {n.endfor} old(isalloc(n)) ==> n.endfor == old(n.endfor)
  ensures [C08] forall n *VimNode :: {n.endtry} old(isalloc(n)) ==> n.endtry == old(n.endtry)
  ensures [C08] forall n *VimNode :: {n.endfunction} old(isalloc(n)) ==> n.endfunction == old(n.endfunction)
  ensures [C08] forall n *VimNode :: {n.catch} old(isalloc(n)) && !((n == old(self.context[mains(self.context)]))) ==> n.catch == old(n.catch)
  ensures [C08] forall n *VimNode :: {n.finally} old(isalloc(n)) ==> n.finally == old(n.finally)

func VimLParser.parse_cmd_finally(self)
  requires [C08] len(self.context) >= 1
  ensures [C08] old(self.context[0].type_) in set(NODE_TRY, NODE_CATCH)
  panics e: !(old(self.context[0].type_) in set(NODE_TRY, NODE_CATCH))
  ensures [C08] pushed(self.context, old(self.context), old(mains(self.context)) - 1) && self.context[0].type_ == NODE_FINALLY && fresh(self.context[0]) && empty(self.context[0])
  ensures [C08] self.context[1].finally == self.context[0]
  ensures [C08] forall n *VimNode :: {n.body} old(isalloc(n)) ==> n.body == old(n.body)
  ensures [C08] forall n *VimNode :: {n.elseif} old(isalloc(n)) ==> n.elseif == old(n.elseif)
  ensures [C08] forall n *VimNode :: {n.else_} old(isalloc(n)) ==> n.else_ == old(n.else_)
  ensures [C08] forall n *VimNode :: {n.endif} old(isalloc(n)) ==> n.endif == old(n.endif)
  ensures [C08] forall n *VimNode :: {n.endwhile} old(isalloc(n)) ==> n.endwhile == old(n.endwhile)
  ensures [C08] forall n *VimNode :: {n.endfor} old(isalloc(n)) ==> n.endfor == old(n.endfor)
  ensures [C08] forall n *VimNode :: {n.endtry} old(isalloc(n)) ==> n.endtry == old(n.endtry)
  ensures [C08] forall n *VimNode :: {n.endfunction} old(isalloc(n)) ==> n.endfunction == old(n.endfunction)
  ensures [C08] forall n *VimNode :: {n.catch} old(isalloc(n)) ==> n.catch == old(n.catch)
  ensures [C08] forall n *VimNode :: {n.finally} old(isalloc(n)) && !((n == old(self.context[mains(self.context)]))) ==> n.finally == old(n.finally)

func VimLParser.parse_cmd_endif(self)
  requires [C08] len(self.context) >= 1
  ensures [C08] old(self.context[0].type_) in set(NODE_IF, NODE_ELSEIF, NODE_ELSE)
  panics e: !(old(self.context[0].type_) in set(NODE_IF, NODE_ELSEIF, NODE_ELSE))
  ensures [C08] shifted(self.context, old(self.context), old(mains(self.context)) + 1) && old(self.context[mains(self.context)].type_) == NODE_IF
  ensures [C08] let(m, old(self.context[mains(self.context)]), m.endif != nil && m.endif.type_ == NODE_ENDIF && fresh(m.endif))
  ensures [C08] forall n *VimNode :: {n.body} old(isalloc(n)) ==> n.body == old(n.body)
  ensures [C08] forall n *VimNode :: {n.elseif} old(isalloc(n)) ==> n.elseif == old(n.elseif)
  ensures [C08] forall n *VimNode :: {n.else_} old(isalloc(n)) ==> n.else_ == old(n.else_)
  ensures [C08] forall n *VimNode :: {n.endif} old(isalloc(n)) && !((n == old(self.context[mains(self.context)]))) ==> n.endif == old(n.endif)
  ensures [C08] forall n *VimNode :: {n.endwhile} old(isalloc(n)) ==> n.endwhile == old(n.endwhile)
  ensures [C08] forall n *VimNode :: {n.endfor} old(isalloc(n)) ==> n.endfor == old(n.endfor)
  ensures [C08] forall n *VimNode :: {n.endtry} old(isalloc(n)) ==> n.endtry == old(n.endtry)
  ensures [C08] forall n *VimNode :: {n.endfunction} old(isalloc(n)) ==> n.endfunction == old(n.endfunction)
  ensures [C08] forall n *VimNode :: {n.catch} old(isalloc(n)) ==> n.catch == old(n.catch)
  ensures [C08] forall n *VimNode :: {n.finally} old(isalloc(n)) ==> n.finally == old(n.finally)

func VimLParser.parse_cmd_endwhile(self)
  requires [C08] len(self.context) >= 1
  ensures [C08] old(self.context[0].type_) in set(NODE_WHILE)
  panics e: !(old(self.context[0].type_) in set(NODE_WHILE))
  ensures [C08] shifted(self.context, old(self.context), old(mains(self.context)) + 1) && old(self.context[mains(self.context)].type_) == NODE_WHILE
  ensures [C08] let(m, old(self.context[mains(self.context)]), m.endwhile != nil && m.endwhile.type_ == NODE_ENDWHILE && fresh(m.endwhile))
  ensures [C08] forall n *VimNode :: {n.body} old(isalloc(n)) ==> n.body == old(n.body)
  ensures [C08] forall n *VimNode :: {n.elseif} old(isalloc(n)) ==> n.elseif == old(n.elseif)
  ensures [C08] forall n *VimNode :: {n.else_} old(isalloc(n)) ==> n.else_ == old(n.else_)
  ensures [C08] forall n *VimNode :: {n.endif} old(isalloc(n)) ==> n.endif == old(n.endif)
  ensures [C08] forall n *VimNode :: {n.endwhile} old(isalloc(n)) && !((n == old(self.context[mains(self.context)]))) ==> n.endwhile == old(n.endwhile)
  ensures [C08] forall n *VimNode :: {n.endfor} old(isalloc(n)) ==> n.endfor == old(n.endfor)
  ensures [C08] forall n *VimNode :: {n.endtry} old(isalloc(n)) ==> n.endtry == old(n.endtry)
  ensures [C08] forall n *VimNode :: {n.endfunction} old(isalloc(n)) ==> n.endfunction == old(n.endfunction)
  ensures [C08] forall n *VimNode :: {n.catch} old(isalloc(n)) ==> n.catch == old(n.catch)
  ensures [C08] forall n *VimNode :: {n.finally} old(isalloc(n)) ==> n.finally == old(n.finally)

func VimLParser.parse_cmd_endfor(self)
  requires [C08] len(self.context) >= 1
  ensures [C08] old(self.context[0].type_) in set(NODE_FOR)
  panics e: !(old(self.context[0].type_) in set(NODE_FOR))
  ensures [C08] shifted(self.context, old(self.context), old(mains(self.context)) + 1) && old(self.context[mains(self.context)].type_) == NODE_FOR
  ensures [C08] let(m, old(self.context[mains(self.context)]), m.endfor != nil && m.endfor.type_ == NODE_ENDFOR && fresh(m.endfor))
  ensures [C08] forall n *VimNode :: {n.body} old(isalloc(n)) ==> n.body == old(n.body)
  ensures [C08] forall n *VimNode :: {n.elseif} old(isalloc(n)) ==> n.elseif == old(n.elseif)
  ensures [C08] forall n *VimNode :: {n.else_} old(isalloc(n)) ==> n.else_ == old(n.else_)
  ensures [C08] forall n *VimNode :: {n.endif} old(isalloc(n)) ==> n.endif == old(n.endif)
  ensures [C08] forall n *VimNode :: {n.endwhile} old(isalloc(n)) ==> n.endwhile == old(n.endwhile)
  ensures [C08] forall n *VimNode :: {n.endfor} old(isalloc(n)) && !((n == old(self.context[mains(self.context)]))) ==> n.endfor == old(n.endfor)
  ensures [C08] forall n *VimNode :: {n.endtry} old(isalloc(n)) ==> n.endtry == old(n.endtry)
  ensures [C08] forall n *VimNode :: {n.endfunction} old(isalloc(n)) ==> n.endfunction == old(n.endfunction)
  ensures [C08] forall n *VimNode :: {n.catch} old(isalloc(n)) ==> n.catch == old(n.catch)
  ensures [C08] forall n *VimNode :: {n.finally} old(isalloc(n)) ==> n.finally == old(n.finally)

func VimLParser.parse_cmd_endtry(self)
  requires [C08] len(self.context) >= 1
  ensures [C08] old(self.context[0].type_) in set(NODE_TRY, NODE_CATCH, NODE_FINALLY)
  panics e: !(old(self.context[0].type_) in set(NODE_TRY, NODE_CATCH, NODE_FINALLY))
  ensures [C08] shifted(self.context, old(self.context), old(mains(self.context)) + 1) && old(self.context[mains(self.context)].type_) == NODE_TRY
  ensures [C08] let(m, old(self.context[mains(self.context)]), m.endtry != nil && m.endtry.type_ == NODE_ENDTRY && fresh(m.endtry))
  ensures [C08] forall n *VimNode :: {n.body} old(isalloc(n)) ==> n.body == old(n.body)
  ensures [C08] forall n *VimNode :: {n.elseif} old(isalloc(n)) ==> n.elseif == old(n.elseif)
  ensures [C08] forall n *VimNode :: {n.else_} old(isalloc(n)) ==> n.else_ == old(n.else_)
  ensures [C08] forall n *VimNode :: {n.endif} old(isalloc(n)) ==> n.endif == old(n.endif)
  ensures [C08] forall n *VimNode :: {n.endwhile} old(isalloc(n)) ==> n.endwhile == old(n.endwhile)
  ensures [C08] forall n *VimNode :: {n.endfor} old(isalloc(n)) ==> n.endfor == old(n.endfor)
  ensures [C08] forall n *VimNode :: {n.endtry} old(isalloc(n)) && !((n == old(self.context[mains(self.context)]))) ==> n.endtry == old(n.endtry)
  ensures [C08] forall n *VimNode :: {n.endfunction} old(isalloc(n)) ==> n.endfunction == old(n.endfunction)
  ensures [C08] forall n *VimNode :: {n.catch} old(isalloc(n)) ==> n.catch == old(n.catch)
  ensures [C08] forall n *VimNode :: {n.finally} old(isalloc(n)) ==> n.finally == old(n.finally)

func VimLParser.parse_cmd_endfunction(self)
  requires [C08] len(self.context) >= 1
  ensures [C08] old(self.context[0].type_) in set(NODE_FUNCTION)
  panics e: !(old(self.context[0].type_) in set(NODE_FUNCTION))
  ensures [C08] shifted(self.context, old(self.context), old(mains(self.context)) + 1) && old(self.context[mains(self.context)].type_) == NODE_FUNCTION
  ensures [C08] let(m, old(self.context[mains(self.context)]), m.endfunction != nil && m.endfunction.type_ == NODE_ENDFUNCTION && fresh(m.endfunction))
  ensures [C08] forall n *VimNode :: {n.body} old(isalloc(n)) ==> n.body == old(n.body)
  ensures [C08] forall n *VimNode :: {n.elseif} old(isalloc(n)) ==> n.elseif == old(n.elseif)
  ensures [C08] forall n *VimNode :: {n.else_} old(isalloc(n)) ==> n.else_ == old(n.else_)
  ensures [C08] forall n *VimNode :: {n.endif} old(isalloc(n)) ==> n.endif == old(n.endif)
  ensures [C08] forall n *VimNode :: {n.endwhile} old(isalloc(n)) ==> n.endwhile == old(n.endwhile)
  ensures [C08] forall n *VimNode :: {n.endfor} old(isalloc(n)) ==> n.endfor == old(n.endfor)
  ensures [C08] forall n *VimNode :: {n.endtry} old(isalloc(n)) ==> n.endtry == old(n.endtry)
  ensures [C08] forall n *VimNode :: {n.endfunction} old(isalloc(n)) && !((n == old(self.context[mains(self.context)]))) ==> n.endfunction == old(n.endfunction)
  ensures [C08] forall n *VimNode :: {n.catch} old(isalloc(n)) ==> n.catch == old(n.catch)
  ensures [C08] forall n *VimNode :: {n.finally} old(isalloc(n)) ==> n.finally == old(n.finally)

func VimLParser.parse_heredoc(self)
  requires [C08] len(self.context) >= 1
  ensures [C08] shifted(self.context, old(self.context), 0)
  ensures [C08] longer(self.context[0].body, old(self.context[0].body), 1)
  ensures [C08] forall n *VimNode :: {n.body} old(isalloc(n)) && !((n == old(self.context[0]))) ==> n.body == old(n.body)
  ensures [C08] forall n *VimNode :: {n.elseif} old(isalloc(n)) ==> n.elseif == old(n.elseif)
  ensures [C08] forall n *VimNode :: {n.else_} old(isalloc(n)) ==> n.else_ == old(n.else_)
  ensures [C08] forall n *VimNode :: {n.endif} old(isalloc(n)) ==> n.endif == old(n.endif)
  ensures [C08] forall n *VimNode :: {n.endwhile} old(isalloc(n)) ==> n.endwhile == old(n.endwhile)
  ensures [C08] forall n *VimNode :: {n.endfor} old(isalloc(n)) ==> n.endfor == old(n.endfor)
  ensures [C08] forall n *VimNode :: {n.endtry} old(isalloc(n)) ==> n.endtry == old(n.endtry)
  ensures [C08] forall n *VimNode :: {n.endfunction} old(isalloc(n)) ==> n.endfunction == old(n.endfunction)
  ensures [C08] forall n *VimNode :: {n.catch} old(isalloc(n)) ==> n.catch == old(n.catch)
  ensures [C08] forall n *VimNode :: {n.finally} old(isalloc(n)) ==> n.finally == old(n.finally)

func VimLParser.parse_cmd_let(self)
  requires [C08] len(self.context) >= 1
  ensures [C08] shifted(self.context, old(self.context), 0)
  ensures [C08] let(b, self.context[0].body, let(b0, old(self.context[0].body), longer(b, b0, 2) && len(b) > len(b0) && b[len(b0)].type_ in set(NODE_LET, NODE_EXCMD)))
  ensures [C08] forall n *VimNode :: {n.body} old(isalloc(n)) && !((n == old(self.context[0]))) ==> n.body == old(n.body)
  ensures [C08] forall n *VimNode :: {n.elseif} old(isalloc(n)) ==> n.elseif == old(n.elseif)
  ensures [C08] forall n *VimNode :: {n.else_} old(isalloc(n)) ==> n.else_ == old(n.else_)
  ensures [C08] forall n *VimNode :: {n.endif} old(isalloc(n)) ==> n.endif == old(n.endif)
  ensures [C08] forall n *VimNode :: {n.endwhile} old(isalloc(n)) ==> n.endwhile == old(n.endwhile)
  ensures [C08] forall n *VimNode :: {n.endfor} old(isalloc(n)) ==> n.endfor == old(n.endfor)
  ensures [C08] forall n *VimNode :: {n.endtry} old(isalloc(n)) ==> n.endtry == old(n.endtry)
  ensures [C08] forall n *VimNode :: {n.endfunction} old(isalloc(n)) ==> n.endfunction == old(n.endfunction)
  ensures [C08] forall n *VimNode :: {n.catch} old(isalloc(n)) ==> n.catch == old(n.catch)
  ensures [C08] forall n *VimNode :: {n.finally} old(isalloc(n)) ==> n.finally == old(n.finally)

// one step: c0, b0 the open constructs and the statements of the innermost
// before, c1, b1 (the statements of the same one) after
spec stepped(c1 []*VimNode, c0 []*VimNode, b1 []*VimNode, b0 []*VimNode, m int, extra int) bool =
  shifted(c1, c0, 0) && longer(b1, b0, 2 + extra) ||
  pushed(c1, c0, 0 - 1) && opener(c1[0].type_) && len(b1) == len(b0) + 1 && longer(b1, b0, 1) && b1[len(b0)] == c1[0] && len(c1[0].body) <= extra ||
  pushed(c1, c0, m - 1) && isbranch(c1[0].type_) && branchof(c1[0].type_, c1[1].type_) && (m == 0 ==> len(b1) == len(b0)) && longer(b1, b0, 0) && len(c1[0].body) <= extra ||
  shifted(c1, c0, m + 1) && longer(b1, b0, 0)

func VimLParser._parse_command(self, parser)
  requires [C08] len(self.context) >= 1
  ensures [C08] len(self.context) >= 1
  ensures [C08] let(t, old(self.context[0]), stepped(self.context, old(self.context), t.body, old(t.body), old(mains(self.context)), 0))
  ensures [C08] forall n *VimNode :: {n.body} old(isalloc(n)) && !((n == old(self.context[0]))) ==> n.body == old(n.body)

func VimLParser.parse_command(self)
  modifies $cmd, $cmdat
  requires [C08] len(self.context) >= 1
  ensures [C08] len(self.context) >= 1
  ensures [C08] let(t, old(self.context[0]), stepped(self.context, old(self.context), t.body, old(t.body), old(mains(self.context)), 0))
  ensures [C08] forall n *VimNode :: {n.body} old(isalloc(n)) && !((n == old(self.context[0]))) ==> n.body == old(n.body)

func VimLParser.parse_one_cmd(self)
  modifies $cmd, $cmdat
  requires [C08] len(self.context) >= 1
  ensures [C08] len(self.context) >= 1
  ensures [C08] let(t, old(self.context[0]), stepped(self.context, old(self.context), t.body, old(t.body), old(mains(self.context)), 1))
  ensures [C08] forall n *VimNode :: {n.body} old(isalloc(n)) && !(n == old(self.context[0]) || n == self.context[0]) ==> n.body == old(n.body)

func VimLParser.parse_trail(self)
  requires [C08] len(self.context) >= 1
  ensures [C08] shifted(self.context, old(self.context), 0)
  ensures [C08] longer(self.context[0].body, old(self.context[0].body), 1)
  ensures [C08] forall n *VimNode :: {n.body} old(isalloc(n)) && !((n == old(self.context[0]))) ==> n.body == old(n.body)
  ensures [C08] forall n *VimNode :: {n.elseif} old(isalloc(n)) ==> n.elseif == old(n.elseif)
  ensures [C08] forall n *VimNode :: {n.else_} old(isalloc(n)) ==> n.else_ == old(n.else_)
  ensures [C08] forall n *VimNode :: {n.endif} old(isalloc(n)) ==> n.endif == old(n.endif)
  ensures [C08] forall n *VimNode :: {n.endwhile} old(isalloc(n)) ==> n.endwhile == old(n.endwhile)
  ensures [C08] forall n *VimNode :: {n.endfor} old(isalloc(n)) ==> n.endfor == old(n.endfor)
  ensures [C08] forall n *VimNode :: {n.endtry} old(isalloc(n)) ==> n.endtry == old(n.endtry)
  ensures [C08] forall n *VimNode :: {n.endfunction} old(isalloc(n)) ==> n.endfunction == old(n.endfunction)
  ensures [C08] forall n *VimNode :: {n.catch} old(isalloc(n)) ==> n.catch == old(n.catch)
  ensures [C08] forall n *VimNode :: {n.finally} old(isalloc(n)) ==> n.finally == old(n.finally)

func VimLParser.parse(p, reader) -> n
  modifies $cmd, $cmdat
  requires [C08] len(p.context) == 0
  ensures [C08] len(p.context) == 0 && n != nil && fresh(n) && n.type_ == NODE_TOPLEVEL
  loopcand : len(p.context) >= 1 && p.context[len(p.context) - 1] == loopold(p.context[len(p.context) - 1])

func VimLParser.Parse(p, reader, fn) -> r
  modifies $cmd, $cmdat
  requires [C08] len(p.context) == 0
