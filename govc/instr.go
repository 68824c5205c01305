package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (u *Unit) set(fr *Frame, v ssa.Value, x Value) { fr.env[v] = x }

func (u *Unit) instr(fr *Frame, in ssa.Instruction) {
	c := u.c
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := deref(in.Type())
		if _, ok := structOf(t); ok && in.Heap {
			u.set(fr, in, Value{T: u.alloc(t, typeHint(t))})
			return
		}
		key := fmt.Sprintf("c:%d:%s", fr.id, in.Name())
		u.heapSrt[key] = u.sortOf(t)
		a := &Addr{key: key, typ: t}
		u.st.m[key] = u.zero(t)
		u.set(fr, in, Value{A: a})
	case *ssa.FieldAddr:
		x := u.val(fr, in.X)
		st, _ := structOf(deref(in.X.Type()))
		ft := st.Field(in.Field).Type()
		if x.A != nil {
			u.set(fr, in, Value{A: x.A.extend(acc{field: in.Field, typ: deref(in.X.Type())}, ft)})
			return
		}
		u.nilCheck(x.T, describe(in.X)+"."+st.Field(in.Field).Name())
		u.set(fr, in, Value{A: u.fieldAddr(x.T, deref(in.X.Type()), in.Field)})
	case *ssa.Field:
		x := u.val(fr, in.X)
		s, _ := structOf(in.X.Type())
		u.set(fr, in, Value{T: c.Get(u.structDt(s, in.X.Type()), in.Field, x.T)})
	case *ssa.IndexAddr:
		u.indexAddr(fr, in)
	case *ssa.Index:
		x, i := u.val(fr, in.X).T, u.val(fr, in.Index).T
		switch t := in.X.Type().Underlying().(type) {
		case *types.Array:
			u.oblige("index", u.safetyTags(), c.And(c.Le(c.Int(0), i), c.Lt(i, c.Int(t.Len()))), describe(in.X))
			u.set(fr, in, Value{T: c.Select(x, i)})
		default: // string
			u.oblige("index", u.safetyTags(), c.And(c.Le(c.Int(0), i), c.Lt(i, c.Slen(x))), describe(in.X))
			r := u.sat(x, i)
			u.set(fr, in, Value{T: r})
		}
	case *ssa.UnOp:
		u.unop(fr, in)
	case *ssa.BinOp:
		u.set(fr, in, Value{T: u.binop(in.Op, u.val(fr, in.X), u.val(fr, in.Y), in.X.Type(), in.Y)})
	case *ssa.Store:
		a := u.val(fr, in.Addr)
		v := u.val(fr, in.Val)
		if a.A == nil {
			// *p = struct
			if _, ok := structOf(in.Val.Type()); ok && a.T != nil {
				u.nilCheck(a.T, describe(in.Addr))
				u.doStore(&Addr{key: "*struct", base: a.T, typ: in.Val.Type()}, v.T, in.Val.Type())
				return
			}
			u.unsup("store through %s", describe(in.Addr))
			return
		}
		if v.T == nil {
			if v.Fn != nil || v.A != nil {
				v.T = c.Fresh("ptr", "Int")
			} else {
				u.unsup("store of %s", describe(in.Val))
				return
			}
		}
		if v.Src != nil && len(a.A.path) == 0 {
			if _, ok := in.Val.Type().Underlying().(*types.Map); ok && a.A.base != nil {
				u.unsup("map shared between two owners")
			}
		}
		u.doStore(a.A, v.T, in.Val.Type())
	case *ssa.Call:
		u.set(fr, in, u.call(fr, &in.Call, in))
	case *ssa.Extract:
		x := u.val(fr, in.Tuple)
		if in.Index >= len(x.Tup) {
			panic(unsupported{"extract"})
		}
		u.set(fr, in, x.Tup[in.Index])
	case *ssa.MakeInterface:
		x := u.val(fr, in.X)
		if x.T == nil {
			u.set(fr, in, Value{T: c.Ctor(c.dts["Iface"], c.Int(int64(u.w.tagOf(in.X.Type()))), c.Fresh("opaque", "Int"))})
			return
		}
		u.escape(x.T, in.X.Type())
		if isStructPtr(in.X.Type()) && !x.T.fresh && u.w.repoPtr(in.X.Type()) {
			tags := u.safetyTags()
			if p := pkgOf(fr.fn); p == "go" || p == "ast" {
				tags = union(tags, []string{"C12", "C13"})
			}
			u.oblige("typed-nil", tags, c.Not(c.Eq(x.T, c.Int(0))), describe(in.X)+" as "+typeKey(in.Type()))
		}
		u.set(fr, in, Value{T: u.mkIface(x.T, in.X.Type())})
	case *ssa.ChangeInterface:
		u.set(fr, in, u.val(fr, in.X))
	case *ssa.ChangeType:
		u.set(fr, in, u.val(fr, in.X))
	case *ssa.Convert:
		u.set(fr, in, Value{T: u.convert(u.val(fr, in.X).T, in.X.Type(), in.Type())})
	case *ssa.TypeAssert:
		u.typeAssert(fr, in)
	case *ssa.Slice:
		u.slice(fr, in)
	case *ssa.MakeSlice:
		n := u.val(fr, in.Len).T
		cp := u.val(fr, in.Cap).T
		u.oblige("makeslice", u.safetyTags(), c.And(c.Le(c.Int(0), n), c.Le(n, cp)), "len")
		et := in.Type().Underlying().(*types.Slice).Elem()
		es := u.sortOf(et)
		z := c.MkSeq(es, n, c.ConstArr("(Array Int "+es+")", u.zero(et)))
		if filledLater(in) {
			// a slice filled in place before it is used: a cell of the frame
			key := fmt.Sprintf("c:%d:%s", fr.id, in.Name())
			u.heapSrt[key] = z.Sort
			u.st.m[key] = z
			u.set(fr, in, Value{A: &Addr{key: key, typ: in.Type()}})
			return
		}
		u.set(fr, in, Value{T: z})
	case *ssa.MakeMap:
		r := u.alloc(nil, "map")
		dk, vk := mapKeys(in.Type())
		mt := in.Type().Underlying().(*types.Map)
		ks := u.sortOf(mt.Key())
		ds := "(Array " + ks + " Bool)"
		d := u.get(u.st, dk, "(Array Int "+ds+")")
		u.st.m[dk] = c.Store(d, r, c.ConstArr(ds, c.False))
		_ = u.get(u.st, vk, "(Array Int (Array "+ks+" "+u.sortOf(mt.Elem())+"))")
		u.set(fr, in, Value{T: r})
	case *ssa.MapUpdate:
		u.mapUpdate(fr, in)
	case *ssa.Lookup:
		u.lookup(fr, in)
	case *ssa.MakeClosure:
		var b []Value
		for _, x := range in.Bindings {
			b = append(b, u.val(fr, x))
		}
		u.set(fr, in, Value{Fn: in.Fn.(*ssa.Function), Bnd: b, T: c.Fresh("closure", "Int")})
	case *ssa.Range:
		u.set(fr, in, Value{T: c.Fresh("iter", "Int"), Tup: []Value{u.val(fr, in.X)}})
		if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			u.st.m[iterKey(fr, in)] = c.Int(0)
		}
	case *ssa.Next:
		tt := in.Type().(*types.Tuple)
		vs := []Value{{T: c.Fresh("ok", "Bool")}}
		for i := 1; i < 3; i++ {
			t := tt.At(i).Type()
			s := "Int"
			if b, ok := t.(*types.Basic); !ok || b.Kind() != types.Invalid {
				s = u.sortOf(t)
			}
			f := c.Fresh("elem", s)
			vs = append(vs, Value{T: f})
			if b, ok := t.(*types.Basic); !ok || b.Kind() != types.Invalid {
				for _, x := range u.typeFacts(u.st, f, t, true) {
					u.assume(x)
				}
			}
		}
		if in.IsString {
			// 0 <= index < len while ok
			if src := u.val(fr, in.Iter); len(src.Tup) == 1 && src.Tup[0].T != nil {
				u.assume(c.Implies(vs[0].T, c.And(c.Le(c.Int(0), vs[1].T), c.Lt(vs[1].T, c.Slen(src.Tup[0].T)), c.Le(c.Int(0), vs[2].T))))
				if rg, ok := in.Iter.(*ssa.Range); ok {
					// the place: a character has one to four bytes
					k, n := iterKey(fr, rg), c.Slen(src.Tup[0].T)
					at := u.get(u.st, k, "Int")
					to := c.Fresh("iterpos", "Int")
					u.assume(c.Eq(vs[0].T, c.Lt(at, n)))
					u.assume(c.Implies(vs[0].T, c.And(c.Eq(vs[1].T, at), c.Lt(at, to), c.Le(to, c.Add(at, c.Int(4))), c.Le(to, n))))
					u.st.m[k] = c.Ite(vs[0].T, to, at)
				}
			}
		}
		u.set(fr, in, Value{Tup: vs})
	case *ssa.Defer:
		if in.Block() != fr.fn.Blocks[0] {
			u.unsup("conditional defer")
		}
		fr.defers = append(fr.defers, in)
	case *ssa.RunDefers:
		for i := len(fr.defers) - 1; i >= 0; i-- {
			sv := fr.recVal
			fr.recVal = u.nilI()
			u.call(fr, &fr.defers[i].Call, nil)
			fr.recVal = sv
		}
	default:
		u.unsup("instruction %T", in)
	}
}

func typeHint(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return "obj"
}

func (u *Unit) sat(s, i *Term) *Term {
	if n, ok := i.isInt(); ok && s.isStr() && n >= 0 && int(n) < len(s.Lit) {
		return u.c.Int(int64(s.Lit[n]))
	}
	r := u.c.mk("sat", "Int", s, i)
	u.assume(u.c.And(u.c.Le(u.c.Int(0), r), u.c.Le(r, u.c.Int(255))))
	return r
}

func (u *Unit) indexAddr(fr *Frame, in *ssa.IndexAddr) {
	c := u.c
	x := u.val(fr, in.X)
	i := u.val(fr, in.Index).T
	if pt, ok := in.X.Type().Underlying().(*types.Pointer); ok {
		at := pt.Elem().Underlying().(*types.Array)
		u.oblige("index", u.safetyTags(), c.And(c.Le(c.Int(0), i), c.Lt(i, c.Int(at.Len()))), describe(in.X))
		if x.A == nil {
			u.unsup("array pointer")
			return
		}
		u.set(fr, in, Value{A: x.A.extend(acc{idx: i, typ: pt.Elem()}, at.Elem())})
		return
	}
	stt := in.X.Type().Underlying().(*types.Slice)
	u.oblige("index", u.safetyTags(), c.And(c.Le(c.Int(0), i), c.Lt(i, c.SeqLen(x.T))), describe(in.X))
	ap := acc{idx: i, seq: true, typ: in.X.Type()}
	writes := false
	for _, r := range *in.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == in {
			writes = true
		}
		if _, ok := r.(*ssa.FieldAddr); ok {
			// element struct accessed in place: find stores below
			if storesBelow(r.(ssa.Value)) {
				writes = true
			}
		}
	}
	if x.Src != nil && writes {
		// the slice still is the value at its location
		cur := u.load(u.st, x.Src)
		u.oblige("alias", []string{"*"}, c.Eq(cur, x.T), describe(in.X))
		u.set(fr, in, Value{A: x.Src.extend(ap, stt.Elem())})
		return
	}
	if writes {
		u.unsup("store into slice %s", describe(in.X))
	}
	// read only: a temporary cell
	key := fmt.Sprintf("c:%d:%s", fr.id, in.Name())
	v := c.SeqAt(x.T, i)
	u.st.m[key] = v
	u.heapSrt[key] = v.Sort
	for _, f := range u.typeFacts(u.st, v, stt.Elem(), true) {
		u.assume(f)
	}
	u.set(fr, in, Value{A: &Addr{key: key, typ: stt.Elem()}})
}

// filledLater: elements of the slice are stored, and no store follows any
// other use than its length or its elements.
func filledLater(m *ssa.MakeSlice) bool {
	var stores, uses []ssa.Instruction
	for _, r := range *m.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.IndexAddr:
			if storesBelow(r) {
				stores = append(stores, r)
			}
		case *ssa.Call:
			if b, ok := r.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
				uses = append(uses, r)
			}
		default:
			uses = append(uses, r.(ssa.Instruction))
		}
	}
	if len(stores) == 0 {
		return false
	}
	for _, x := range uses {
		// stores reachable from the use
		seen := map[*ssa.BasicBlock]bool{}
		var walk func(b *ssa.BasicBlock)
		walk = func(b *ssa.BasicBlock) {
			if seen[b] {
				return
			}
			seen[b] = true
			for _, s := range b.Succs {
				walk(s)
			}
		}
		for _, s := range x.Block().Succs {
			walk(s)
		}
		for _, s := range stores {
			if seen[s.Block()] {
				return false
			}
			if s.Block() == x.Block() {
				for _, y := range x.Block().Instrs {
					if y == s {
						break
					}
					if y == x {
						return false
					}
				}
			}
		}
	}
	return true
}

func storesBelow(v ssa.Value) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr == v {
				return true
			}
		case *ssa.FieldAddr:
			if storesBelow(r) {
				return true
			}
		case *ssa.IndexAddr:
			if storesBelow(r) {
				return true
			}
		}
	}
	return false
}

func (u *Unit) unop(fr *Frame, in *ssa.UnOp) {
	c := u.c
	x := u.val(fr, in.X)
	switch in.Op {
	case token.MUL:
		if x.A == nil {
			if _, ok := structOf(in.Type()); ok && x.T != nil {
				u.nilCheck(x.T, describe(in.X))
				u.set(fr, in, Value{T: u.doLoad(&Addr{key: "*struct", base: x.T, typ: in.Type()})})
				return
			}
			// a pointer the state does not track: any value
			v := c.Fresh("unk", u.sortOf(in.Type()))
			for _, f := range u.typeFacts(u.st, v, in.Type(), true) {
				u.assume(f)
			}
			u.set(fr, in, Value{T: v})
			return
		}
		if g, ok := in.X.(*ssa.Global); ok {
			if k := u.w.consts[g]; k != nil {
				u.set(fr, in, Value{T: u.constant(k)})
				return
			}
		}
		t := u.doLoad(x.A)
		v := Value{T: t}
		switch in.Type().Underlying().(type) {
		case *types.Slice, *types.Map:
			v.Src = x.A
		}
		if cl, ok := u.closures()[x.A.key]; ok && len(x.A.path) == 0 {
			v.Fn, v.Bnd = cl.Fn, cl.Bnd
		}
		u.set(fr, in, v)
	case token.NOT:
		u.set(fr, in, Value{T: c.Not(x.T)})
	case token.SUB:
		u.set(fr, in, Value{T: c.Sub(c.Int(0), x.T)})
	default:
		u.set(fr, in, Value{T: c.Fresh("unop", u.sortOf(in.Type()))})
	}
}

func (u *Unit) closures() map[string]Value { return nil }

func (u *Unit) binop(op token.Token, xv, yv Value, t types.Type, ySSA ssa.Value) *Term {
	c := u.c
	x, y := xv.T, yv.T
	if x == nil || y == nil {
		// comparison of addresses or functions with nil
		switch op {
		case token.EQL:
			return c.False
		case token.NEQ:
			return c.True
		}
		u.unsup("operator %s on addresses", op)
		return c.Fresh("op", "Bool")
	}
	isStr := x.Sort == "Str"
	switch op {
	case token.ADD:
		if isStr {
			return c.Scat(x, y)
		}
		return c.Add(x, y)
	case token.SUB:
		return c.Sub(x, y)
	case token.MUL:
		if m, ok := x.isInt(); ok {
			if n, ok := y.isInt(); ok {
				return c.Int(m * n)
			}
		}
		return c.mk("*", "Int", x, y)
	case token.QUO, token.REM:
		u.oblige("div", u.safetyTags(), c.Not(c.Eq(y, c.Int(0))), "")
		// Go truncates; equal to SMT div for non-negative operands
		o := "div"
		if op == token.REM {
			o = "mod"
		}
		r := c.Fresh(o, "Int")
		u.assume(c.Implies(c.And(c.Le(c.Int(0), x), c.Lt(c.Int(0), y)), c.Eq(r, c.mk(o, "Int", x, y))))
		return r
	case token.EQL, token.NEQ:
		var e *Term
		if d := c.dts[x.Sort]; d != nil && strings.HasPrefix(x.Sort, "Seq_") {
			// only comparison with nil is legal
			s := x
			if cc, ok := ySSA.(*ssa.Const); !ok || cc.Value != nil {
				s = y
			}
			e = c.Eq(c.SeqLen(s), c.Int(0))
			if strings.HasPrefix(c.SeqArr(s).Op, "nilarr_") {
				e = c.True
			} else {
				// an empty slice need not be nil
				n := "isnil_" + s.Sort
				c.Fun(n, []string{s.Sort}, "Bool")
				b := c.mk(n, "Bool", s)
				u.assume(c.Implies(b, e))
				e = b
			}
		} else {
			e = c.Eq(x, y)
		}
		if op == token.NEQ {
			return c.Not(e)
		}
		return e
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isStr {
			switch op {
			case token.LSS:
				return u.slt(x, y)
			case token.GTR:
				return u.slt(y, x)
			case token.LEQ:
				return c.Not(u.slt(y, x))
			default:
				return c.Not(u.slt(x, y))
			}
		}
		return c.Cmp(op.String(), x, y)
	case token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT:
		n := "bit_" + map[token.Token]string{token.AND: "and", token.OR: "or", token.XOR: "xor", token.SHL: "shl", token.SHR: "shr", token.AND_NOT: "andnot"}[op]
		c.Fun(n, []string{"Int", "Int"}, "Int")
		return c.mk(n, "Int", x, y)
	}
	u.unsup("operator %s", op)
	return c.Fresh("op", x.Sort)
}

func (u *Unit) slt(x, y *Term) *Term {
	if x.isStr() && y.isStr() {
		return u.c.Bool(x.Lit < y.Lit)
	}
	if x == y {
		return u.c.False
	}
	return u.c.mk("slt", "Bool", x, y)
}

func (u *Unit) convert(x *Term, from, to types.Type) *Term {
	c := u.c
	fs, ts := u.sortOf(from), u.sortOf(to)
	if fs == ts && fs == "Int" {
		fb, ok1 := from.Underlying().(*types.Basic)
		tb, ok2 := to.Underlying().(*types.Basic)
		if ok1 && ok2 && intSize(tb) < intSize(fb) {
			n := "conv_" + tb.Name()
			c.Fun(n, []string{"Int"}, "Int")
			r := c.mk(n, "Int", x)
			for _, f := range u.typeFacts(u.st, r, to, false) {
				u.assume(f)
			}
			if intSize(tb) == 1 && tb.Info()&types.IsUnsigned != 0 {
				u.assume(c.Implies(c.And(c.Le(c.Int(0), x), c.Le(x, c.Int(255))), c.Eq(r, x)))
			}
			return r
		}
		return x
	}
	if fs == ts {
		return x
	}
	if fs == "Int" && ts == "Str" {
		if n, ok := x.isInt(); ok {
			return c.Str(string(rune(n)))
		}
		c.Fun("str_of_rune", []string{"Int"}, "Str")
		return c.mk("str_of_rune", "Str", x)
	}
	if sl, ok := from.Underlying().(*types.Slice); ok && isByte(sl.Elem()) && ts == "Str" {
		return u.byteText(x)
	}
	n := "conv_" + sanitize(fs) + "_" + sanitize(ts)
	c.Fun(n, []string{fs}, ts)
	r := c.mk(n, ts, x)
	for _, f := range u.typeFacts(u.st, r, to, false) {
		u.assume(f)
	}
	if sl, ok := to.Underlying().(*types.Slice); ok && isByte(sl.Elem()) && fs == "Str" {
		u.assume(c.And(c.Eq(u.byteText(r), x), c.Eq(c.SeqLen(r), c.Slen(x))))
	}
	return r
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// byteText: the bytes of a slice as a string (bstr in specifications).
func (u *Unit) byteText(s *Term) *Term {
	u.c.Fun("u_bstr", []string{s.Sort}, "Str")
	return u.c.mk("u_bstr", "Str", s)
}

// byteStr: the string of one byte.
func (u *Unit) byteStr(b *Term) *Term {
	if n, ok := b.isInt(); ok && n >= 0 && n < 256 {
		return u.c.Str(string([]byte{byte(n)}))
	}
	u.c.Fun("str_of_byte", []string{"Int"}, "Str")
	return u.c.mk("str_of_byte", "Str", b)
}

func intSize(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 1
	case types.Int16, types.Uint16:
		return 2
	case types.Int32, types.Uint32:
		return 4
	}
	return 8
}

func (u *Unit) isType(tag *Term, t types.Type) *Term {
	if types.IsInterface(t) {
		return u.implements(tag, t)
	}
	return u.c.Eq(tag, u.c.Int(int64(u.w.tagOf(t))))
}

func (u *Unit) typeAssert(fr *Frame, in *ssa.TypeAssert) {
	c := u.c
	x := u.val(fr, in.X).T
	ok := u.isType(u.itag(x), in.AssertedType)
	var v *Term
	if types.IsInterface(in.AssertedType) {
		v = x
	} else {
		v = u.unbox(u.ival(x), u.sortOf(in.AssertedType))
	}
	if !in.CommaOk {
		u.oblige("assert", u.safetyTags(), ok, describe(in.X)+".("+typeKey(in.AssertedType)+")")
		for _, f := range u.typeFacts(u.st, v, in.AssertedType, true) {
			u.assume(f)
		}
		u.set(fr, in, Value{T: v})
		return
	}
	for _, f := range u.typeFacts(u.st, v, in.AssertedType, true) {
		u.assume(c.Implies(ok, f))
	}
	u.set(fr, in, Value{Tup: []Value{{T: c.Ite(ok, v, u.zero(in.AssertedType))}, {T: ok}}})
}

func (u *Unit) slice(fr *Frame, in *ssa.Slice) {
	c := u.c
	x := u.val(fr, in.X)
	var lo, hi *Term
	if in.Low != nil {
		lo = u.val(fr, in.Low).T
	} else {
		lo = c.Int(0)
	}
	if in.High != nil {
		hi = u.val(fr, in.High).T
	}
	switch t := in.X.Type().Underlying().(type) {
	case *types.Pointer:
		at := t.Elem().Underlying().(*types.Array)
		n := c.Int(at.Len())
		if hi == nil {
			hi = n
		}
		u.oblige("slice", u.safetyTags(), c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, n)), describe(in.X))
		arr := u.load(u.st, x.A)
		es := u.sortOf(at.Elem())
		s := c.MkSeq(es, n, arr)
		u.set(fr, in, Value{T: u.subseq(s, lo, hi)})
	case *types.Slice:
		n := c.SeqLen(x.T)
		if hi == nil {
			hi = n
		}
		// the bound is the length here: slicing up to the capacity is not modelled
		u.oblige("slice", u.safetyTags(), c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, n)), describe(in.X))
		u.set(fr, in, Value{T: u.subseq(x.T, lo, hi)})
	default: // string
		n := c.Slen(x.T)
		if hi == nil {
			hi = n
		}
		u.oblige("slice", u.safetyTags(), c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, n)), describe(in.X))
		u.set(fr, in, Value{T: u.ssub(x.T, lo, hi)})
	}
}

func (u *Unit) ssub(s, lo, hi *Term) *Term {
	c := u.c
	if a, ok := lo.isInt(); ok && s.isStr() {
		if b, ok := hi.isInt(); ok && 0 <= a && a <= b && int(b) <= len(s.Lit) {
			return c.Str(s.Lit[a:b])
		}
	}
	if lo == hi {
		return c.Str("")
	}
	if a, ok := lo.isInt(); ok && a == 0 && hi == c.Slen(s) {
		return s
	}
	r := c.mk("ssub", "Str", s, lo, hi)
	if !u.axDone["ssub"] && u.ctr != nil && u.ctr.Parts {
		u.axDone["ssub"] = true
		b, i, j, k, l := c.BoundVar("b", "Str"), c.BoundVar("i", "Int"), c.BoundVar("j", "Int"), c.BoundVar("k", "Int"), c.BoundVar("l", "Int")
		in := c.mk("ssub", "Str", b, i, j)
		g := c.And(c.Le(c.Int(0), i), c.Le(i, j), c.Le(j, c.Slen(b)))
		n := c.mk("slen", "Int", in)
		u.pushAsm(c.Quant("forall", []*Term{b, i, j}, c.Implies(g, c.Eq(n, c.Sub(j, i))), [][]*Term{{in}}))
		// a part of a part
		out := c.mk("ssub", "Str", in, k, l)
		h := c.And(g, c.Le(c.Int(0), k), c.Le(k, l), c.Le(l, c.Sub(j, i)))
		u.pushAsm(c.Quant("forall", []*Term{b, i, j, k, l}, c.Implies(h, c.Eq(out, c.mk("ssub", "Str", b, c.Add(i, k), c.Add(i, l)))), [][]*Term{{out}}))
	}
	if !r.bv {
		g := c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, c.Slen(s)))
		u.assumeIf(c.True, c.Implies(g, c.Eq(c.mk("slen", "Int", r), c.Sub(hi, lo))))
		u.assumeIf(c.True, c.Implies(c.And(c.Eq(lo, c.Int(0)), c.Eq(hi, c.Slen(s))), c.Eq(r, s)))
	}
	return r
}

// subseq is s[lo:hi].
func (u *Unit) subseq(s, lo, hi *Term) *Term {
	c := u.c
	d := c.dts[s.Sort]
	_, es := arrSorts(d.Srt[1])
	if n, ok := lo.isInt(); ok && n == 0 {
		return c.MkSeq(es, hi, c.SeqArr(s))
	}
	return c.MkSeq(es, c.Sub(hi, lo), u.shift(c.SeqArr(s), lo, es))
}

func (u *Unit) shift(arr, lo *Term, es string) *Term {
	c := u.c
	as := "(Array Int " + es + ")"
	fn := "shift_" + seqName(es)
	c.Fun(fn, []string{as, "Int"}, as)
	if !u.axDone[fn] {
		u.axDone[fn] = true
		a, k, i := c.BoundVar("a", as), c.BoundVar("k", "Int"), c.BoundVar("i", "Int")
		sh := c.mk(fn, as, a, k)
		s1 := c.mk("select", es, sh, i)
		u.pushAsm(c.Quant("forall", []*Term{a, k, i}, c.Eq(s1, c.mk("select", es, a, c.mk("+", "Int", i, k))), [][]*Term{{s1}}))
		s2 := c.mk("select", es, a, i)
		u.pushAsm(c.Quant("forall", []*Term{a, k, i}, c.Eq(c.mk("select", es, sh, c.mk("-", "Int", i, k)), s2), [][]*Term{{sh, s2}}))
	}
	return c.mk(fn, as, arr, lo)
}

// appendSeq is append(s, t...).
func (u *Unit) appendSeq(s, t *Term) *Term {
	c := u.c
	d := c.dts[s.Sort]
	_, es := arrSorts(d.Srt[1])
	n, m := c.SeqLen(s), c.SeqLen(t)
	if k, ok := m.isInt(); ok && k <= 64 {
		arr := c.SeqArr(s)
		for i := int64(0); i < k; i++ {
			arr = c.Store(arr, c.Add(n, c.Int(i)), c.SeqAt(t, c.Int(i)))
		}
		return c.MkSeq(es, c.Add(n, c.Int(k)), arr)
	}
	if k, ok := n.isInt(); ok && k == 0 {
		return t
	}
	as := "(Array Int " + es + ")"
	fn := "cat_" + seqName(es)
	c.Fun(fn, []string{as, "Int", as}, as)
	if !u.axDone[fn] {
		u.axDone[fn] = true
		a, k, b, i := c.BoundVar("a", as), c.BoundVar("k", "Int"), c.BoundVar("b", as), c.BoundVar("i", "Int")
		ct := c.mk(fn, as, a, k, b)
		s1 := c.mk("select", es, ct, i)
		u.pushAsm(c.Quant("forall", []*Term{a, k, b, i}, c.Eq(s1, c.mk("ite", es, c.mk("<", "Bool", i, k), c.mk("select", es, a, i), c.mk("select", es, b, c.mk("-", "Int", i, k)))), [][]*Term{{s1}}))
		s2 := c.mk("select", es, b, i)
		u.pushAsm(c.Quant("forall", []*Term{a, k, b, i}, c.Implies(c.mk("<=", "Bool", c.Int(0), i), c.Eq(c.mk("select", es, ct, c.mk("+", "Int", i, k)), s2)), [][]*Term{{ct, s2}}))
		s3 := c.mk("select", es, a, i)
		u.pushAsm(c.Quant("forall", []*Term{a, k, b, i}, c.Implies(c.mk("<", "Bool", i, k), c.Eq(c.mk("select", es, ct, i), s3)), [][]*Term{{ct, s3}}))
	}
	return c.MkSeq(es, c.Add(n, m), c.mk(fn, as, c.SeqArr(s), n, c.SeqArr(t)))
}

// ---- maps

func (u *Unit) mapArrs(st *State, t types.Type) (d, v *Term, dk, vk string) {
	mt := t.Underlying().(*types.Map)
	dk, vk = mapKeys(t)
	ks := u.sortOf(mt.Key())
	d = u.get(st, dk, "(Array Int (Array "+ks+" Bool))")
	v = u.get(st, vk, "(Array Int (Array "+ks+" "+u.sortOf(mt.Elem())+"))")
	return
}

func (u *Unit) mapUpdate(fr *Frame, in *ssa.MapUpdate) {
	c := u.c
	m := u.val(fr, in.Map)
	k, v := u.val(fr, in.Key).T, u.val(fr, in.Value)
	if v.T == nil {
		v.T = c.Fresh("ptr", "Int")
	}
	if !m.T.fresh {
		u.oblige("nilmap", u.safetyTags(), c.Not(c.Eq(m.T, c.Int(0))), describe(in.Map))
	}
	u.escape(v.T, in.Value.Type())
	d, vv, dk, vk := u.mapArrs(u.st, in.Map.Type())
	u.frameCheckMap(dk, m.T)
	u.st.m[dk] = c.Store(d, m.T, c.Store(c.Select(d, m.T), k, c.True))
	u.st.m[vk] = c.Store(vv, m.T, c.Store(c.Select(vv, m.T), k, v.T))
	if m.Src != nil && m.Src.base != nil && strings.HasPrefix(m.Src.key, "F:") {
		u.recheck(m.Src, c.Select(u.P(u.st), m.Src.base))
	} else if a := u.ownedMaps[m.T]; a != nil {
		u.recheck(a, c.Select(u.P(u.st), a.base))
	} else if tags := u.w.mapInvTags(in.Map.Type()); len(tags) > 0 && !m.T.fresh {
		u.oblige("inv", tags, c.False, "update of a map that an invariant may speak of: "+describe(in.Map))
	} else if m.Src != nil && strings.HasPrefix(m.Src.key, "V:") {
		u.frameCheck(m.Src.key, nil)
	}
}

func (u *Unit) frameCheckMap(key string, m *Term) {
	if m.fresh {
		return
	}
	u.frameCheck(key, m)
}

func (u *Unit) lookup(fr *Frame, in *ssa.Lookup) {
	c := u.c
	x := u.val(fr, in.X)
	k := u.val(fr, in.Index).T
	if _, ok := in.X.Type().Underlying().(*types.Map); !ok {
		u.oblige("index", u.safetyTags(), c.And(c.Le(c.Int(0), k), c.Lt(k, c.Slen(x.T))), describe(in.X))
		u.set(fr, in, Value{T: u.sat(x.T, k)})
		return
	}
	mt := in.X.Type().Underlying().(*types.Map)
	if g := globalOf(in.X); g != nil {
		if r, ok := u.globalLookup(g, k, mt); ok {
			if in.CommaOk {
				u.set(fr, in, r)
			} else {
				u.set(fr, in, r.Tup[0])
			}
			return
		}
	}
	d, vv, _, _ := u.mapArrs(u.st, in.X.Type())
	has := c.And(c.Not(c.Eq(x.T, c.Int(0))), c.Select(c.Select(d, x.T), k))
	raw := c.Select(c.Select(vv, x.T), k)
	for _, f := range u.typeFacts(u.st, raw, mt.Elem(), true) {
		u.assume(c.Implies(has, f))
	}
	v := c.Ite(has, raw, u.zero(mt.Elem()))
	if in.CommaOk {
		u.set(fr, in, Value{Tup: []Value{{T: v}, {T: has}}})
	} else {
		u.set(fr, in, Value{T: v})
	}
}

func globalOf(v ssa.Value) *ssa.Global {
	if x, ok := v.(*ssa.UnOp); ok && x.Op == token.MUL {
		if g, ok := x.X.(*ssa.Global); ok {
			return g
		}
	}
	return nil
}

// ---- calls

func (u *Unit) call(fr *Frame, cc *ssa.CallCommon, in *ssa.Call) Value {
	var args []Value
	for _, a := range cc.Args {
		args = append(args, u.val(fr, a))
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return u.builtin(fr, b, cc, args)
	}
	if cc.IsInvoke() {
		return u.invoke(fr, cc, args)
	}
	fn := cc.StaticCallee()
	var bnd []Value
	if fn == nil {
		v := u.val(fr, cc.Value)
		if v.Fn == nil {
			return u.dynCall(fr, cc, args, v)
		}
		fn, bnd = v.Fn, v.Bnd
	} else if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		bnd = u.val(fr, mc).Bnd
	}
	return u.callFn(fr, fn, args, bnd, cc.Signature())
}

func (u *Unit) dynCall(fr *Frame, cc *ssa.CallCommon, args []Value, fv Value) Value {
	name := "func " + typeKey(cc.Value.Type())
	for _, k := range u.w.Specs.Contracts {
		if k.Invoke && (k.Pattern == name || k.Pattern == "func "+typeKey(cc.Value.Type().Underlying())) {
			u.trusted[name] = true
			all := append([]Value{fv}, args...)
			ts := []types.Type{cc.Value.Type()}
			for i := 0; i < cc.Signature().Params().Len(); i++ {
				ts = append(ts, cc.Signature().Params().At(i).Type())
			}
			return u.applyContract(fr, nil, k, all, ts, cc.Signature(), name)
		}
	}
	u.assumed["dynamic call "+name+" in "+funcKey(fr.fn)+": arbitrary result, no effect on the repository's state"] = true
	return u.freshResults(cc.Signature(), name)
}

func (u *Unit) freshResults(sig *types.Signature, hint string) Value {
	rs := sig.Results()
	mk := func(t types.Type) Value {
		v := u.c.Fresh("r_"+lastPart(hint), u.sortOf(t))
		for _, f := range u.typeFacts(u.st, v, t, true) {
			u.assume(f)
		}
		return Value{T: v}
	}
	if rs.Len() == 1 {
		return mk(rs.At(0).Type())
	}
	var out Value
	for i := 0; i < rs.Len(); i++ {
		out.Tup = append(out.Tup, mk(rs.At(i).Type()))
	}
	return out
}

func lastPart(s string) string {
	if i := strings.LastIndexAny(s, "./:"); i >= 0 {
		return s[i+1:]
	}
	return s
}

func (u *Unit) invoke(fr *Frame, cc *ssa.CallCommon, args []Value) Value {
	c := u.c
	recv := u.val(fr, cc.Value)
	name := cc.Method.FullName()
	u.oblige("nil", u.safetyTags(), c.Not(c.Eq(u.itag(recv.T), c.Int(0))), describe(cc.Value)+"."+cc.Method.Name()+"()")
	sig := cc.Method.Type().(*types.Signature)
	if k := u.w.invokeContract(cc.Method, pkgOf(fr.fn)); k != nil {
		u.trusted["invoke "+name] = true
		ts := []types.Type{cc.Value.Type()}
		for i := 0; i < sig.Params().Len(); i++ {
			ts = append(ts, sig.Params().At(i).Type())
		}
		return u.applyContract(fr, nil, k, append([]Value{recv}, args...), ts, sig, name)
	}
	// closed world: one of the repository's methods
	impls := u.w.implsOf(cc)
	if len(impls) > 0 && strings.HasPrefix(cc.Method.Pkg().Path(), modPath) && u.w.Specs.Closed[typeKey(cc.Value.Type())] {
		return u.dispatch(fr, cc, recv, args, impls)
	}
	u.assumed["interface call "+name+" in "+funcKey(fr.fn)+": arbitrary result, no effect on the repository's state"] = true
	return u.freshResults(sig, name)
}

func (u *Unit) dispatch(fr *Frame, cc *ssa.CallCommon, recv Value, args []Value, impls []*ssa.Function) Value {
	c := u.c
	r0, st0 := u.reach, u.st
	var conds []*Term
	var sts []*State
	var vals []Value
	for _, f := range impls {
		if f.Signature.Recv() == nil {
			continue
		}
		rt := f.Signature.Recv().Type()
		cond := c.And(r0, c.Eq(u.itag(recv.T), c.Int(int64(u.w.tagOf(rt)))))
		if cond == c.False {
			continue
		}
		u.reach, u.st = cond, st0.clone()
		rv := u.unbox(u.ival(recv.T), u.sortOf(rt))
		for _, fa := range u.typeFacts(u.st, rv, rt, true) {
			u.assume(fa)
		}
		v := u.callFn(fr, f, append([]Value{{T: rv}}, args...), nil, f.Signature)
		conds = append(conds, u.reach)
		sts = append(sts, u.st)
		vals = append(vals, v)
	}
	if len(conds) == 0 {
		u.reach = c.False
		u.st = st0
		return u.freshResults(cc.Method.Type().(*types.Signature), "none")
	}
	rel := u.strip(conds)
	u.st = u.mergeStates(rel, sts)
	u.reach = c.Or(conds...)
	if len(vals) == len(conds) {
		u.reach = r0
	}
	return u.mergeVals(rel, vals)
}

func (u *Unit) mergeVals(rel []*Term, vals []Value) Value {
	if len(vals) == 1 {
		return vals[0]
	}
	if len(vals[0].Tup) > 0 {
		var out Value
		for i := range vals[0].Tup {
			var xs []Value
			for _, v := range vals {
				xs = append(xs, v.Tup[i])
			}
			out.Tup = append(out.Tup, u.mergeVals(rel, xs))
		}
		return out
	}
	ts := make([]*Term, len(vals))
	for i, v := range vals {
		if v.T == nil {
			if v.A == nil && v.Fn == nil {
				return Value{}
			}
			u.unsup("merge of addresses")
			return vals[0]
		}
		ts[i] = v.T
	}
	return Value{T: u.mergeTerms(rel, ts)}
}

func (u *Unit) callFn(fr *Frame, fn *ssa.Function, args, bnd []Value, sig *types.Signature) Value {
	k := u.w.contractAt(fn, pkgOf(fr.fn))
	if k != nil {
		var ts []types.Type
		for _, p := range fn.Params {
			ts = append(ts, p.Type())
		}
		if len(ts) == 0 {
			if sig.Recv() != nil {
				ts = append(ts, sig.Recv().Type())
			}
			for i := 0; i < sig.Params().Len(); i++ {
				ts = append(ts, sig.Params().At(i).Type())
			}
		}
		return u.applyContract(fr, fn, k, args, ts, fn.Signature, funcKey(fn))
	}
	if !inRepo(fn) || len(fn.Blocks) == 0 {
		if v, ok := u.model(fr, fn, args); ok {
			return v
		}
		u.assumed["external "+fn.String()+": arbitrary result, returns normally, no effect on the repository's state"] = true
		for i, a := range args {
			if a.T != nil && i < fn.Signature.Params().Len() {
				u.escape(a.T, fn.Signature.Params().At(i).Type())
			}
		}
		return u.freshResults(fn.Signature, fn.Name())
	}
	// inline
	for f := fr; f != nil; f = f.parent {
		if f.fn == fn {
			u.unsup("recursive call of %s, which has no contract", funcKey(fn))
			return u.freshResults(fn.Signature, fn.Name())
		}
	}
	if fr.depth > 14 {
		u.unsup("calls nested too deep at %s", funcKey(fn))
		return u.freshResults(fn.Signature, fn.Name())
	}
	u.inlined[funcKey(fn)] = true
	return u.inline(fr, fn, args, bnd)
}

func (u *Unit) inline(fr *Frame, fn *ssa.Function, args, bnd []Value) Value {
	nf := u.newFrame(fn, fr)
	nf.path = fr.path + "/" + fn.Name()
	for i, p := range fn.Params {
		nf.env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		if i < len(bnd) {
			nf.env[f] = bnd[i]
		}
	}
	if fr.recVal != nil && fn.Parent() != nil {
		nf.recVal = fr.recVal
	}
	svI := u.curInstr
	r0 := u.reach
	u.run(nf, fn.Blocks[0], nil, u.st, r0)
	u.curInstr = svI
	u.afterPanics(nf)
	return u.joinRets(nf, fn)
}

func (u *Unit) joinRets(nf *Frame, fn *ssa.Function) Value {
	c := u.c
	var conds []*Term
	var sts []*State
	var vals []Value
	for _, r := range nf.rets {
		if r.cond == c.False {
			continue
		}
		conds = append(conds, r.cond)
		sts = append(sts, r.st)
		if len(r.vals) == 1 {
			vals = append(vals, r.vals[0])
		} else {
			vals = append(vals, Value{Tup: r.vals})
		}
	}
	if len(conds) == 0 {
		u.reach = c.False
		return u.freshResults(fn.Signature, "noreturn")
	}
	rel := u.strip(conds)
	u.st = u.mergeStates(rel, sts)
	u.reach = c.Or(conds...)
	if fn.Signature.Results().Len() == 0 {
		return Value{}
	}
	return u.mergeVals(rel, vals)
}

// afterPanics runs the deferred calls of a frame that recovers.
func (u *Unit) afterPanics(fr *Frame) {
	if !fr.hasRec || len(fr.pans) == 0 {
		return
	}
	c := u.c
	var conds []*Term
	var sts []*State
	var pvs []*Term
	for _, p := range fr.pans {
		if p.cond != c.False {
			conds = append(conds, p.cond)
			sts = append(sts, p.st)
			pvs = append(pvs, p.pv)
		}
	}
	fr.pans = nil
	if len(conds) == 0 {
		return
	}
	// one fresh panic value, bound to the individual ones per path
	rel := u.strip(conds)
	svFr, svSt, svR := u.fr, u.st, u.reach
	u.fr = fr
	u.st = u.mergeStates(rel, sts)
	u.reach = c.Or(conds...)
	pv := u.mergeTerms(rel, pvs)
	fr.recVal = pv
	fr.hasRec = false // a panic in a deferred call leaves the function
	for i := len(fr.defers) - 1; i >= 0; i-- {
		u.call(fr, &fr.defers[i].Call, nil)
	}
	fr.hasRec = true
	if fr.recVal == pv {
		// never recovered
		if fr.parent != nil {
			u.doPanic(fr.parent, pv)
		} else {
			u.checkPanic(pv)
		}
		u.reach = c.False
	}
	if u.reach != c.False {
		u.run(fr, fr.fn.Recover, map[*ssa.BasicBlock]bool{fr.fn.Recover: true}, u.st, u.reach)
	}
	u.fr, u.st, u.reach = svFr, svSt, svR
}

func (u *Unit) builtin(fr *Frame, b *ssa.Builtin, cc *ssa.CallCommon, args []Value) Value {
	c := u.c
	switch b.Name() {
	case "len":
		x := args[0].T
		switch cc.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			u.assume(c.Le(c.Int(0), c.SeqLen(x)))
			return Value{T: c.SeqLen(x)}
		case *types.Basic:
			return Value{T: c.Slen(x)}
		case *types.Map:
			r := c.Fresh("maplen", "Int")
			u.assume(c.Le(c.Int(0), r))
			return Value{T: r}
		}
	case "cap":
		r := c.Fresh("cap", "Int")
		u.assume(c.Le(c.SeqLen(args[0].T), r))
		return Value{T: r}
	case "append":
		s := args[0].T
		if len(args) == 1 {
			return Value{T: s}
		}
		t := args[1].T
		et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		if t.Sort == "Str" {
			r := c.Fresh("app", s.Sort)
			u.assume(c.Eq(c.SeqLen(r), c.Add(c.SeqLen(s), c.Slen(t))))
			u.assume(c.Eq(u.byteText(r), c.Scat(u.byteText(s), t)))
			return Value{T: r}
		}
		if n, ok := c.SeqLen(t).isInt(); ok && isByte(et) && n < 64 {
			// the text of the bytes
			r := u.appendSeq(s, t)
			x := u.byteText(s)
			for i := int64(0); i < n; i++ {
				x = c.Scat(x, u.byteStr(c.SeqAt(t, c.Int(i))))
			}
			u.assume(c.Eq(u.byteText(r), x))
			return Value{T: r}
		}
		if n, ok := c.SeqLen(t).isInt(); ok && n < 64 {
			for i := int64(0); i < n; i++ {
				u.escape(c.SeqAt(t, c.Int(i)), et)
			}
		}
		return Value{T: u.appendSeq(s, t)}
	case "recover":
		f := fr
		for f != nil && f.recVal == nil {
			f = f.parent
		}
		// the frame whose deferred call this is
		if p := fr.parent; p != nil && p.recVal != nil {
			v := p.recVal
			p.recVal = u.nilI()
			return Value{T: v}
		}
		return Value{T: u.nilI()}
	case "ssa:wrapnilchk":
		return args[0]
	case "print", "println":
		return Value{}
	case "delete":
		d, _, dk, _ := u.mapArrs(u.st, cc.Args[0].Type())
		m := args[0].T
		u.st.m[dk] = c.Store(d, m, c.Store(c.Select(d, m), args[1].T, c.False))
		return Value{}
	}
	u.unsup("builtin %s", b.Name())
	return Value{T: c.Fresh("bi", "Int")}
}

// applyContract is a call checked against the callee's contract.
func (u *Unit) applyContract(fr *Frame, fn *ssa.Function, k *Contract, args []Value, ts []types.Type, sig *types.Signature, name string) Value {
	u.packPending()
	c := u.c
	if k.Trusted || k.Extern || k.Invoke {
		u.trusted[name] = true
	}
	env := &SpecEnv{u: u, vars: map[string]SVal{}, pkg: k.Pkg}
	for i, a := range args {
		if a.T == nil {
			a.T = c.Fresh("arg", u.sortOf(ts[i]))
		}
		u.escape(a.T, ts[i])
		if i < len(k.Params) && k.Params[i] != "_" {
			env.vars[k.Params[i]] = SVal{t: a.T, typ: ts[i]}
		}
	}
	if fn != nil && fn.Signature.Recv() != nil && isStructPtr(ts[0]) && !k.Extern {
		u.nilCheck(args[0].T, lastPart(name)+" receiver")
	}
	pre := u.st.clone()
	env.st, env.old = pre, pre
	for _, cl := range k.Clauses {
		if cl.Kind == "requires" {
			tags := cl.Tags
			if len(tags) == 0 {
				tags = u.safetyTags()
			}
			u.oblige("requires", tags, env.boolean(cl.E), lastPart(name)+": "+short(cl.Src))
		}
	}
	if fn == u.root && fn != nil {
		u.recDecreases(env, k)
	} else if fn != nil && inRepo(fn) {
		u.recDecreasesSCC(env, k, fn)
	}
	if k.NoReturn {
		if u.dry == 0 {
			u.covers = append(u.covers, u.reach)
		}
		u.reach = c.False
		return u.freshResults(sig, "noreturn")
	}
	// effects
	u.havocCall(fn, k, env, args, pre)
	post := u.st
	// exceptional exit
	if !k.NoPanic && !k.Extern && !k.Invoke {
		u.callPanics(fr, k, env, pre)
		u.st = post
	}
	v := Value{}
	rs := sig.Results()
	mk := func(i int) Value {
		t := rs.At(i).Type()
		r := c.Fresh("r_"+lastPart(name), u.sortOf(t))
		for _, f := range u.typeFacts(post, r, t, true) {
			u.assume(f)
		}
		n := "result"
		if rs.Len() > 1 {
			n = fmt.Sprintf("result%d", i+1)
		}
		env.vars[n] = SVal{t: r, typ: t}
		if i < len(k.Results) {
			env.vars[k.Results[i]] = SVal{t: r, typ: t}
		}
		return Value{T: r}
	}
	if rs.Len() == 1 {
		v = mk(0)
	} else {
		for i := 0; i < rs.Len(); i++ {
			v.Tup = append(v.Tup, mk(i))
		}
	}
	env.st, env.old = post, pre
	for _, cl := range k.Clauses {
		if cl.Kind == "ensures" || cl.Kind == "summary" {
			u.assume(env.boolean(cl.E))
		}
	}
	// functional results collapse to their definition
	return v
}

// callPanics: the call may end in a panic.
func (u *Unit) callPanics(fr *Frame, k *Contract, env *SpecEnv, pre *State) {
	f := fr
	for f != nil && !f.hasRec {
		f = f.parent
	}
	if f == nil {
		if u.dry > 0 || u.ctr == nil {
			return
		}
		if u.ctr.NoPanic {
			u.oblige("no-panic", u.safetyTags(), u.c.False, "call may panic: "+k.Pattern)
			return
		}
		u.passPanic(k, env, pre)
		return
	}
	pv := u.c.Fresh("panic", "Iface")
	e2 := *env
	e2.vars = map[string]SVal{}
	for n, v := range env.vars {
		e2.vars[n] = v
	}
	ps := u.st.clone()
	e2.st, e2.old = ps, pre
	taken := u.c.Fresh("panics", "Bool")
	for _, cl := range k.Clauses {
		if cl.Kind == "panics" {
			e2.vars[cl.Label] = SVal{t: pv, typ: types.NewInterfaceType(nil, nil)}
			u.assume(u.c.Implies(taken, e2.boolean(cl.E)))
		}
	}
	u.assume(u.c.Implies(taken, u.c.Not(u.c.Eq(u.itag(pv), u.c.Int(0)))))
	f.pans = append(f.pans, Exit{cond: u.c.And(u.reach, taken), st: ps, pv: pv})
	u.reach = u.c.And(u.reach, u.c.Not(taken))
}

// passPanic: a panic of the callee leaves the function; its clauses have to
// imply the function's own.
func (u *Unit) passPanic(k *Contract, env *SpecEnv, pre *State) {
	has := false
	for _, cl := range u.ctr.Clauses {
		has = has || cl.Kind == "panics"
	}
	if !has {
		return
	}
	c := u.c
	if u.anyPanic == nil {
		u.anyPanic = c.Fresh("panic", "Iface")
	}
	pv := u.anyPanic
	given := []*Term{c.Not(c.Eq(u.itag(pv), c.Int(0)))}
	e2 := *env
	e2.vars = map[string]SVal{}
	for n, v := range env.vars {
		e2.vars[n] = v
	}
	e2.st, e2.old = u.st, pre
	for _, cl := range k.Clauses {
		if cl.Kind == "panics" {
			e2.vars[cl.Label] = SVal{t: pv, typ: types.NewInterfaceType(nil, nil)}
			given = append(given, e2.boolean(cl.E))
		}
	}
	g := c.And(given...)
	if g == c.False {
		return
	}
	me := u.rootSpecEnv(u.st)
	me.pkg = u.ctr.Pkg
	for _, cl := range u.ctr.Clauses {
		if cl.Kind != "panics" {
			continue
		}
		me.vars[cl.Label] = SVal{t: pv, typ: types.NewInterfaceType(nil, nil)}
		goal := me.boolean(cl.E)
		same := false
		for _, x := range given {
			same = same || x == goal
		}
		if !same {
			u.oblige("panics", cl.Tags, c.Implies(g, goal), short(cl.Src)+" of "+k.Pattern)
		}
	}
}

func (u *Unit) havocCall(fn *ssa.Function, k *Contract, env *SpecEnv, args []Value, pre *State) {
	c := u.c
	st := u.st
	nx := c.Fresh("next", "Int")
	u.assumeIf(c.True, c.Le(u.next(pre), nx))
	if k.Pure {
		st.m["$next"] = nx
		return
	}
	done := map[string]bool{}
	setAt := func(key string, base *Term, srt string) {
		if key == "" {
			return
		}
		u.frameCheck(key, base)
		h := u.get(st, key, srt)
		if base == nil {
			st.m[key] = c.Fresh(key, h.Sort)
			if strings.HasPrefix(h.Sort, "(Array Int") && isObjKey(key) {
				u.preserve(h, st.m[key], pre, u.P(pre), nil, nil)
				u.havoc[st.m[key]] = h
			}
			return
		}
		_, es := arrSorts(h.Sort)
		st.m[key] = c.Store(h, base, c.Fresh("at_"+key, es))
	}
	locs, has := u.w.modLocs(k)
	if has {
		env.st = pre
		for _, l := range locs {
			key, b, all := u.locOf(env, l.e)
			if all {
				b = nil
			}
			if key == "" {
				continue
			}
			done[key] = true
			srt := u.locSort(env, l.e, key)
			setAt(key, b, srt)
			if strings.HasPrefix(key, "MD:") {
				vk := "MV:" + key[3:]
				done[vk] = true
				setAt(vk, b, u.heapSrt[vk])
			}
		}
	}
	if fn != nil && !u.w.modNothing(k) {
		var keys []Mod
		for m := range u.w.mods[fn] {
			keys = append(keys, m)
		}
		sortMods(keys)
		for _, m := range keys {
			if done[m.Key] {
				continue
			}
			srt := u.keySort(m.Key)
			if srt == "" {
				continue
			}
			if m.Root >= 0 && m.Root < len(args) && args[m.Root].T != nil && !hasOther(u.w.mods[fn], m.Key) {
				setAt(m.Key, args[m.Root].T, srt)
			} else {
				if done["full:"+m.Key] {
					continue
				}
				done["full:"+m.Key] = true
				setAt(m.Key, nil, srt)
			}
		}
	}
	st.m["$next"] = nx
}

func hasOther(ms map[Mod]bool, k string) bool { return ms[Mod{k, rootOther}] }

func union(a, b []string) []string {
	out := append([]string(nil), a...)
	for _, x := range b {
		if !hasTag(out, x) {
			out = append(out, x)
		}
	}
	return out
}

// repoPtr: a pointer to one of the repository's named structs.
func (w *World) repoPtr(t types.Type) bool {
	n, ok := deref(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
}

// iterKey: the cell that holds how far a range over a string has come.
func iterKey(fr *Frame, in *ssa.Range) string { return fmt.Sprintf("c:iter%d/%s", fr.id, in.Name()) }
