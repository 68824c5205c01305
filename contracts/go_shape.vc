// The shape of the parser's own nodes, by type: what the conversion to the
// public tree relies on.
package go

inv [C01] VimNode n: knownty(n.type_)
inv [C01] VimNode n: n.left != nil ==> isexpr(n.left.type_)
inv [C01] VimNode n: n.cond != nil ==> isexpr(n.cond.type_)
inv [C01] VimNode n: n.rest != nil ==> isexpr(n.rest.type_)
inv [C01] VimNode n: n.right != nil ==> isexpr(n.right.type_)
inv [C01] VimNode n: forall i int :: {n.list[i]} 0 <= i && i < len(n.list) ==> n.list[i] != nil && isexpr(n.list[i].type_)
inv [C01] VimNode n: n.type_ == NODE_SLICE ==> len(n.rlist) == 2
inv [C01] VimNode n: n.type_ != NODE_SLICE ==> (forall i int :: {n.rlist[i]} 0 <= i && i < len(n.rlist) ==> n.rlist[i] != nil && isexpr(n.rlist[i].type_))
inv [C01] VimNode n: n.type_ == NODE_SLICE ==> (forall i int :: {n.rlist[i]} 0 <= i && i < len(n.rlist) ==> n.rlist[i] != nil ==> isexpr(n.rlist[i].type_))
inv [C01] VimNode n: n.type_ == NODE_FUNCTION || n.type_ == NODE_LAMBDA ==> (forall i int :: {n.rlist[i]} 0 <= i && i < len(n.rlist) ==> n.rlist[i] != nil && n.rlist[i].type_ == NODE_IDENTIFIER)
inv [C01] VimNode n: forall i int :: {n.default_args[i]} 0 <= i && i < len(n.default_args) ==> n.default_args[i] != nil && isexpr(n.default_args[i].type_)
inv [C01] VimNode n: n.type_ == NODE_HEREDOC ==> (forall i int :: {n.body[i]} 0 <= i && i < len(n.body) ==> n.body[i] != nil && isexpr(n.body[i].type_))
inv [C01] VimNode n: n.type_ != NODE_HEREDOC ==> (forall i int :: {n.body[i]} 0 <= i && i < len(n.body) ==> n.body[i] != nil && isstmt(n.body[i].type_))
inv [C01] VimNode n: n.type_ in set(NODE_NUMBER, NODE_STRING, NODE_OPTION, NODE_IDENTIFIER, NODE_ENV, NODE_REG, NODE_CURLYNAMEPART, NODE_BLOB) ==> tagis(n.value, string)
inv [C01] VimNode n: n.type_ in set(NODE_CURLYNAMEEXPR, NODE_PARENEXPR) ==> tagis(n.value, *VimNode) && isexpr(as(n.value, *VimNode).type_)
inv [C01] VimNode n: n.type_ == NODE_LIST ==> tagis(n.value, []any) && (forall i int :: {as(n.value, []any)[i]} 0 <= i && i < len(as(n.value, []any)) ==> tagis(as(n.value, []any)[i], *VimNode) && isexpr(as(as(n.value, []any)[i], *VimNode).type_))
inv [C01] VimNode n: n.type_ == NODE_DICT ==> tagis(n.value, []any) && (forall i int :: {as(n.value, []any)[i]} 0 <= i && i < len(as(n.value, []any)) ==> tagis(as(n.value, []any)[i], []any) && len(as(as(n.value, []any)[i], []any)) == 2 && tagis(as(as(n.value, []any)[i], []any)[0], *VimNode) && tagis(as(as(n.value, []any)[i], []any)[1], *VimNode) && isexpr(as(as(as(n.value, []any)[i], []any)[0], *VimNode).type_) && isexpr(as(as(as(n.value, []any)[i], []any)[1], *VimNode).type_))
inv [C01] VimNode n: n.type_ == NODE_CURLYNAME ==> tagis(n.value, []*VimNode) && (forall i int :: {as(n.value, []*VimNode)[i]} 0 <= i && i < len(as(n.value, []*VimNode)) ==> as(n.value, []*VimNode)[i] != nil && as(n.value, []*VimNode)[i].type_ in set(NODE_CURLYNAMEPART, NODE_CURLYNAMEEXPR))
inv [C01] VimNode n: n.type_ == NODE_EXCALL ==> n.left != nil && n.left.type_ == NODE_CALL
inv [C01] VimNode n: n.type_ == NODE_METHOD ==> n.right != nil && n.right.type_ == NODE_CALL
inv [C01] VimNode n: n.type_ == NODE_DOT ==> n.right != nil && n.right.type_ == NODE_IDENTIFIER
inv [C01] VimNode n: isstmt(n.type_) && n.type_ != NODE_COMMENT ==> n.ea != nil
inv [C01] VimNode n: n.type_ in set(NODE_ECHO, NODE_ECHON, NODE_ECHOMSG, NODE_ECHOERR) ==> n.ea != nil && n.ea.cmd != nil
inv [C01] VimNode n: forall i int :: {n.elseif[i]} 0 <= i && i < len(n.elseif) ==> n.elseif[i] != nil && n.elseif[i].type_ == NODE_ELSEIF
inv [C01] VimNode n: forall i int :: {n.catch[i]} 0 <= i && i < len(n.catch) ==> n.catch[i] != nil && n.catch[i].type_ == NODE_CATCH
inv [C01] VimNode n: n.else_ != nil ==> n.else_.type_ == NODE_ELSE
inv [C01] VimNode n: n.finally != nil ==> n.finally.type_ == NODE_FINALLY
inv [C01] VimNode n: n.type_ != NODE_TOPLEVEL ==> n.pos != nil
