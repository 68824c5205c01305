package main

// Concrete evaluation of package initialisers: the values of tables that are
// written by init only.

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type CVal struct {
	Kind  string // const struct array ptr slice map nil opaque iface
	C     constant.Value
	Elems []*CVal
	Ptr   *CVal
	Keys  []string // map keys (exact strings of constants)
	Map   map[string]*CVal
	KeyC  map[string]constant.Value
	T     types.Type
	N     int // iterator position
}

type initEval struct {
	w   *World
	g   map[*ssa.Global]*CVal
	env map[ssa.Value]*CVal
	bad map[*ssa.Global]bool
}

func zeroC(t types.Type) *CVal {
	switch x := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case x.Info()&types.IsBoolean != 0:
			return &CVal{Kind: "const", C: constant.MakeBool(false), T: t}
		case x.Info()&types.IsString != 0:
			return &CVal{Kind: "const", C: constant.MakeString(""), T: t}
		case x.Info()&types.IsInteger != 0:
			return &CVal{Kind: "const", C: constant.MakeInt64(0), T: t}
		}
		return &CVal{Kind: "opaque", T: t}
	case *types.Struct:
		v := &CVal{Kind: "struct", T: t}
		for i := 0; i < x.NumFields(); i++ {
			v.Elems = append(v.Elems, zeroC(x.Field(i).Type()))
		}
		return v
	case *types.Array:
		v := &CVal{Kind: "array", T: t}
		if x.Len() > 100000 {
			return &CVal{Kind: "opaque", T: t}
		}
		for i := int64(0); i < x.Len(); i++ {
			v.Elems = append(v.Elems, zeroC(x.Elem()))
		}
		return v
	}
	return &CVal{Kind: "nil", T: t}
}

func (v *CVal) copyInto(o *CVal) {
	// value copy of o
	v.Kind, v.C, v.Ptr, v.Map, v.Keys, v.KeyC, v.T = o.Kind, o.C, o.Ptr, o.Map, o.Keys, o.KeyC, o.T
	if o.Kind == "struct" || o.Kind == "array" {
		v.Elems = make([]*CVal, len(o.Elems))
		for i, e := range o.Elems {
			v.Elems[i] = &CVal{}
			v.Elems[i].copyInto(e)
		}
	} else {
		v.Elems = o.Elems
	}
}

// evalInit evaluates the synthesized package initialiser of p (variable
// initialisers only; explicit init functions are not run).
func (w *World) evalInit(p *ssa.Package) map[*ssa.Global]*CVal {
	ev := &initEval{w: w, g: map[*ssa.Global]*CVal{}, env: map[ssa.Value]*CVal{}}
	f := p.Func("init")
	if f == nil {
		return ev.g
	}
	for _, m := range p.Members {
		if g, ok := m.(*ssa.Global); ok {
			ev.g[g] = zeroC(deref(g.Type()))
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if cl, ok := in.(*ssa.Call); ok {
				if h := cl.Call.StaticCallee(); h != nil && h.Pkg == p && isInit(h) {
					if !ev.runFn(h) {
						ev.spoil(h)
					}
					continue
				}
			}
			ev.instr(in)
		}
	}
	return ev.g
}

func isInit(f *ssa.Function) bool {
	return f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")
}

// runFn executes an explicit initialiser; false if it does something that is
// not understood.
func (ev *initEval) runFn(f *ssa.Function) bool {
	b, prev := f.Blocks[0], (*ssa.BasicBlock)(nil)
	for n := 0; n < 200000; n++ {
		var next *ssa.BasicBlock
		phis := map[*ssa.Phi]*CVal{}
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				for k, p := range b.Preds {
					if p == prev {
						phis[ph] = ev.val(ph.Edges[k])
					}
				}
			}
		}
		for ph, v := range phis {
			ev.env[ph] = v
		}
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.If:
				c := ev.val(in.Cond)
				if c.Kind != "const" {
					return false
				}
				if constant.BoolVal(c.C) {
					next = b.Succs[0]
				} else {
					next = b.Succs[1]
				}
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Return:
				return true
			case *ssa.Range:
				m := ev.val(in.X)
				if m.Kind != "map" {
					return false
				}
				ev.env[in] = &CVal{Kind: "iter", Ptr: m}
			case *ssa.Next:
				it := ev.val(in.Iter)
				if it.Kind != "iter" {
					return false
				}
				ks := it.Ptr.keys()
				if it.N >= len(ks) {
					ev.env[in] = &CVal{Kind: "tuple", Elems: []*CVal{{Kind: "const", C: constant.MakeBool(false)}, {Kind: "opaque"}, {Kind: "opaque"}}}
				} else {
					k := ks[it.N]
					it.N++
					ev.env[in] = &CVal{Kind: "tuple", Elems: []*CVal{{Kind: "const", C: constant.MakeBool(true)}, {Kind: "const", C: it.Ptr.KeyC[k]}, it.Ptr.Map[k]}}
				}
			case *ssa.Extract:
				t := ev.val(in.Tuple)
				if t.Kind != "tuple" || in.Index >= len(t.Elems) {
					return false
				}
				ev.env[in] = t.Elems[in.Index]
			case *ssa.Call:
				h := in.Call.StaticCallee()
				if h == nil || len(in.Call.Args) == 0 {
					return false
				}
				a := ev.val(in.Call.Args[0])
				if h.String() == "regexp.MustCompile" && a.Kind == "const" {
					ev.env[in] = &CVal{Kind: "regexp", C: a.C, T: in.Type()}
				} else {
					return false
				}
			default:
				switch in.(type) {
				case *ssa.Store, *ssa.MapUpdate, ssa.Value:
				default:
					return false
				}
				ev.instr(in)
			}
		}
		if next == nil {
			return false
		}
		prev, b = b, next
	}
	return false
}

// spoil forgets all globals an initialiser mentions.
func (ev *initEval) spoil(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, o := range in.Operands(nil) {
				if g, ok := (*o).(*ssa.Global); ok && ev.g[g] != nil {
					*ev.g[g] = CVal{Kind: "opaque", T: ev.g[g].T}
				}
			}
		}
	}
}

func (ev *initEval) val(v ssa.Value) *CVal {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return zeroC(v.Type())
		}
		return &CVal{Kind: "const", C: v.Value, T: v.Type()}
	case *ssa.Global:
		if c := ev.g[v]; c != nil {
			return &CVal{Kind: "ptr", Ptr: c, T: v.Type()}
		}
	}
	if c := ev.env[v]; c != nil {
		return c
	}
	return &CVal{Kind: "opaque", T: v.Type()}
}

func (ev *initEval) instr(in ssa.Instruction) {
	set := func(v ssa.Value, c *CVal) { ev.env[v] = c }
	opaque := func(v ssa.Value) { set(v, &CVal{Kind: "opaque", T: v.Type()}) }
	switch in := in.(type) {
	case *ssa.Alloc:
		set(in, &CVal{Kind: "ptr", Ptr: zeroC(deref(in.Type())), T: in.Type()})
	case *ssa.FieldAddr:
		x := ev.val(in.X)
		if x.Kind == "ptr" && x.Ptr.Kind == "struct" {
			set(in, &CVal{Kind: "ptr", Ptr: x.Ptr.Elems[in.Field], T: in.Type()})
		} else {
			opaque(in)
		}
	case *ssa.IndexAddr:
		x, i := ev.val(in.X), ev.val(in.Index)
		base := x
		if x.Kind == "ptr" {
			base = x.Ptr
		}
		if i.Kind == "const" && (base.Kind == "array" || base.Kind == "slice") {
			if n, ok := constant.Int64Val(i.C); ok && n >= 0 && int(n) < len(base.Elems) {
				set(in, &CVal{Kind: "ptr", Ptr: base.Elems[n], T: in.Type()})
				return
			}
		}
		opaque(in)
	case *ssa.Store:
		a, v := ev.val(in.Addr), ev.val(in.Val)
		if a.Kind == "ptr" {
			a.Ptr.copyInto(v)
		}
	case *ssa.UnOp:
		x := ev.val(in.X)
		if in.Op == token.MUL && x.Kind == "ptr" {
			v := &CVal{}
			v.copyInto(x.Ptr)
			set(in, v)
			return
		}
		opaque(in)
	case *ssa.Slice:
		x := ev.val(in.X)
		if x.Kind == "ptr" && x.Ptr.Kind == "array" && in.Low == nil && in.High == nil {
			set(in, &CVal{Kind: "slice", Elems: x.Ptr.Elems, T: in.Type()})
			return
		}
		opaque(in)
	case *ssa.MakeMap:
		set(in, &CVal{Kind: "map", Map: map[string]*CVal{}, KeyC: map[string]constant.Value{}, T: in.Type()})
	case *ssa.MapUpdate:
		m, k, v := ev.val(in.Map), ev.val(in.Key), ev.val(in.Value)
		if m.Kind == "map" {
			if k.Kind != "const" {
				m.Kind = "opaque"
				return
			}
			s := k.C.ExactString()
			c := &CVal{}
			c.copyInto(v)
			m.Map[s] = c
			m.KeyC[s] = k.C
		}
	case *ssa.MakeInterface:
		set(in, &CVal{Kind: "iface", Ptr: ev.val(in.X), T: in.X.Type()})
	case *ssa.ChangeType:
		set(in, ev.val(in.X))
	case *ssa.Convert:
		x := ev.val(in.X)
		if x.Kind == "const" {
			set(in, x)
		} else {
			opaque(in)
		}
	case *ssa.BinOp:
		x, y := ev.val(in.X), ev.val(in.Y)
		if x.Kind == "const" && y.Kind == "const" {
			switch in.Op {
			case token.ADD, token.SUB, token.MUL, token.OR, token.AND, token.XOR:
				set(in, &CVal{Kind: "const", C: constant.BinaryOp(x.C, in.Op, y.C), T: in.Type()})
				return
			}
		}
		opaque(in)
	case ssa.Value:
		opaque(in)
	}
}

func (m *CVal) keys() []string {
	var ks []string
	for k := range m.Map {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// initVal is the value a global keeps from initialisation on, if the rest of
// the program only reads it.
func (w *World) initVal(g *ssa.Global) *CVal {
	if w.stored[g] {
		return nil
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.inits == nil {
		w.inits = map[*ssa.Package]map[*ssa.Global]*CVal{}
	}
	m, ok := w.inits[g.Pkg]
	if !ok {
		m = w.evalInit(g.Pkg)
		w.inits[g.Pkg] = m
	}
	return m[g]
}

// initTerm is the term for the value of a read-only table, if it can be
// written down (scalars, arrays and structs of them).
func (u *Unit) initTerm(v *CVal, t types.Type) *Term {
	if v == nil {
		return nil
	}
	c := u.c
	switch v.Kind {
	case "const":
		switch v.C.Kind() {
		case constant.Bool:
			return c.Bool(constant.BoolVal(v.C))
		case constant.String:
			return c.Str(constant.StringVal(v.C))
		case constant.Int:
			if n, ok := constant.Int64Val(v.C); ok {
				return c.Int(n)
			}
		}
	case "regexp":
		return u.rxObj(constant.StringVal(v.C))
	case "nil":
		return u.zero(t)
	case "struct":
		s, ok := structOf(t)
		if !ok {
			return nil
		}
		var as []*Term
		for i, e := range v.Elems {
			x := u.initTerm(e, s.Field(i).Type())
			if x == nil {
				return nil
			}
			as = append(as, x)
		}
		if len(as) == 0 {
			as = append(as, c.Int(0))
		}
		return c.Ctor(u.structDt(s, t), as...)
	case "array":
		at := t.Underlying().(*types.Array)
		if len(v.Elems) > 200 {
			return nil
		}
		a := c.ConstArr("(Array Int "+u.sortOf(at.Elem())+")", u.zero(at.Elem()))
		for i, e := range v.Elems {
			x := u.initTerm(e, at.Elem())
			if x == nil {
				return nil
			}
			a = c.Store(a, c.Int(int64(i)), x)
		}
		return a
	case "slice":
		st := t.Underlying().(*types.Slice)
		if len(v.Elems) > 200 {
			return nil
		}
		es := u.sortOf(st.Elem())
		a := c.ConstArr("(Array Int "+es+")", u.zero(st.Elem()))
		for i, e := range v.Elems {
			if e.Kind == "ptr" {
				return nil
			}
			x := u.initTerm(e, st.Elem())
			if x == nil {
				return nil
			}
			a = c.Store(a, c.Int(int64(i)), x)
		}
		return c.MkSeq(es, c.Int(int64(len(v.Elems))), a)
	}
	return nil
}

// globalLookup: reading a package map that is only written by its initialiser.
func (u *Unit) globalLookup(g *ssa.Global, k *Term, mt *types.Map) (Value, bool) {
	if u.w.mapWritten(g) {
		return Value{}, false
	}
	v := u.w.initVal(g)
	if v == nil || v.Kind != "map" || len(v.Map) > 400 {
		return Value{}, false
	}
	c := u.c
	val, has := u.zero(mt.Elem()), c.False
	for _, ks := range v.keys() {
		kt := u.initTerm(&CVal{Kind: "const", C: v.KeyC[ks]}, mt.Key())
		x := u.initTerm(v.Map[ks], mt.Elem())
		if kt == nil || x == nil {
			return Value{}, false
		}
		e := c.Eq(k, kt)
		val = c.Ite(e, x, val)
		has = c.Or(has, e)
	}
	return Value{Tup: []Value{{T: val}, {T: has}}}, true
}

// mapWritten: some function other than the variable initialiser updates the
// map held by g, or lets it escape.
func (w *World) mapWritten(g *ssa.Global) bool {
	for _, f := range w.Funcs {
		if f.Pkg == nil && f.Parent() == nil {
			continue
		}
		if f.Pkg == g.Pkg && isInit(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				x, ok := in.(*ssa.UnOp)
				if !ok || x.X != g {
					continue
				}
				for _, r := range *x.Referrers() {
					switch r.(type) {
					case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
					default:
						return true
					}
				}
			}
		}
	}
	return false
}
