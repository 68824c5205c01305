package main

// Frame conditions over the whole library: which memory a function may write.
//
// The types named "immutable" in the contracts are written only while the
// object is still private to the function that allocates it; every other
// struct type of the module belongs to one call, so no package variable may
// reach it; package variables are written by initialisation only; and a slice
// or map is written (stored into, appended to, updated) only when it was made
// in this call.  A function that writes through a parameter passes the
// condition on to its callers.  Each writing instruction is one obligation.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	rLocal  = 1 << iota // made in this call
	rOwned              // held by an object of this call
	rShared             // held by an immutable object, or unknown
	rGlobal             // held by a package variable
)

type rootSet struct {
	m     int
	param uint64
}

func (a rootSet) or(b rootSet) rootSet { return rootSet{a.m | b.m, a.param | b.param} }

type effects struct {
	w     *World
	prop  string
	mut   map[*ssa.Function]uint64 // parameters written through
	ret   map[*ssa.Function]rootSet
	memo  map[ssa.Value]rootSet
	busy  map[ssa.Value]bool
	inits map[*ssa.Function]bool
	impl  map[string][]*ssa.Function
	fns   []*ssa.Function
	stor  map[*ssa.Alloc][]ssa.Value
	binds map[*ssa.FreeVar][]ssa.Value
	obls  []*Obl
	final bool
	chg   bool
	names map[string]int
	taint map[string]int         // struct field -> shared memory it may hold
	par   map[*ssa.Parameter]int // parameter -> shared memory passed for it
}

func (w *World) effectChecks(prop string) []*Obl {
	e := &effects{w: w, prop: prop, mut: map[*ssa.Function]uint64{}, ret: map[*ssa.Function]rootSet{}, inits: map[*ssa.Function]bool{}, impl: map[string][]*ssa.Function{}, names: map[string]int{}, taint: map[string]int{}, par: map[*ssa.Parameter]int{}}
	for p, sp := range w.Pkgs {
		if strings.HasPrefix(p, "cmd/") {
			continue
		}
		for _, f := range w.Funcs {
			if f.Pkg == sp {
				e.fns = append(e.fns, f)
			}
		}
		if in := sp.Func("init"); in != nil {
			e.inits[in] = true
			for _, b := range in.Blocks {
				for _, i := range b.Instrs {
					if c, ok := i.(*ssa.Call); ok && c.Call.StaticCallee() != nil && strings.HasPrefix(c.Call.StaticCallee().Name(), "init#") {
						e.inits[c.Call.StaticCallee()] = true
						seen := false
						for _, f := range e.fns {
							seen = seen || f == c.Call.StaticCallee()
						}
						if !seen {
							e.fns = append(e.fns, c.Call.StaticCallee())
						}
					}
				}
			}
		}
	}
	sort.Slice(e.fns, func(i, j int) bool { return e.fns[i].String() < e.fns[j].String() })
	e.initOnly()
	for _, f := range e.fns {
		if f.Signature.Recv() != nil {
			e.impl[f.Name()] = append(e.impl[f.Name()], f)
		}
	}
	for _, f := range e.fns {
		if f.Object() != nil && f.Object().Exported() && pkgOf(f) != "go" {
			for _, p := range f.Params {
				e.par[p] = rShared
			}
		}
	}
	e.stores()
	for r := 0; r < 30; r++ {
		e.chg = false
		e.memo = map[ssa.Value]rootSet{}
		e.busy = map[ssa.Value]bool{}
		for _, f := range e.fns {
			e.fn(f)
		}
		if !e.chg {
			break
		}
	}
	e.final = true
	e.memo = map[ssa.Value]rootSet{}
	for _, f := range e.fns {
		e.fn(f)
	}
	e.globals()
	return e.obls
}

// initOnly finds the functions that only initialisation can call.
func (e *effects) initOnly() {
	callers := map[*ssa.Function][]*ssa.Function{}
	esc := map[*ssa.Function]bool{}
	for _, f := range e.w.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				var rands []*ssa.Value
				rands = i.Operands(rands)
				for k, o := range rands {
					g, ok := (*o).(*ssa.Function)
					if !ok {
						continue
					}
					if c, isCall := i.(ssa.CallInstruction); isCall && k == 0 && c.Common().StaticCallee() == g {
						callers[g] = append(callers[g], f)
					} else {
						esc[g] = true
					}
				}
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for _, f := range e.fns {
			if e.inits[f] || esc[f] || f.Signature.Recv() != nil || f.Object() == nil || f.Object().Exported() || len(callers[f]) == 0 {
				continue
			}
			all := true
			for _, c := range callers[f] {
				if !e.inits[c] {
					all = false
				}
			}
			if all {
				e.inits[f], ch = true, true
			}
		}
	}
}

func (e *effects) stores() {
	e.stor = map[*ssa.Alloc][]ssa.Value{}
	e.binds = map[*ssa.FreeVar][]ssa.Value{}
	for _, f := range e.fns {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if m, ok := i.(*ssa.MakeClosure); ok {
					g := m.Fn.(*ssa.Function)
					for k, fv := range g.FreeVars {
						e.binds[fv] = append(e.binds[fv], m.Bindings[k])
					}
				}
			}
		}
	}
	var home func(v ssa.Value, d int) *ssa.Alloc
	home = func(v ssa.Value, d int) *ssa.Alloc {
		if d > 10 {
			return nil
		}
		switch v := v.(type) {
		case *ssa.Alloc:
			return v
		case *ssa.FreeVar:
			for _, b := range e.binds[v] {
				if a := home(b, d+1); a != nil {
					return a
				}
			}
		}
		return nil
	}
	for _, f := range e.fns {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if s, ok := i.(*ssa.Store); ok {
					if a := home(s.Addr, 0); a != nil {
						e.stor[a] = append(e.stor[a], s.Val)
					}
				}
			}
		}
	}
}

func (e *effects) immutable(t types.Type) bool {
	n, ok := deref(t).(*types.Named)
	if !ok {
		return false
	}
	k := typeKey(n)
	return e.w.Specs.Immutable[k] || e.w.Specs.Immutable[k[:strings.LastIndex(k, ".")+1]+"*"]
}

func (e *effects) roots(v ssa.Value) rootSet {
	if r, ok := e.memo[v]; ok {
		return r
	}
	if e.busy[v] {
		return rootSet{}
	}
	e.busy[v] = true
	r := e.roots1(v)
	delete(e.busy, v)
	if len(e.busy) == 0 {
		e.memo[v] = r
	}
	return r
}

func (e *effects) roots1(v ssa.Value) rootSet {
	switch v := v.(type) {
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeClosure, *ssa.Const, *ssa.Function, *ssa.BinOp, *ssa.Range, *ssa.Builtin:
		return rootSet{m: rLocal}
	case *ssa.Convert:
		return rootSet{m: rLocal}
	case *ssa.Global:
		return rootSet{m: rGlobal}
	case *ssa.Parameter:
		for i, p := range v.Parent().Params {
			if p == v {
				return rootSet{param: 1 << uint(i)}
			}
		}
	case *ssa.FreeVar:
		r := rootSet{}
		for _, b := range e.binds[v] {
			x := e.roots(b)
			if x.param != 0 {
				x = rootSet{m: x.m | rShared}
			}
			r = r.or(x)
		}
		return r
	case *ssa.Phi:
		r := rootSet{}
		for _, x := range v.Edges {
			r = r.or(e.roots(x))
		}
		return r
	case *ssa.Slice:
		return e.roots(v.X)
	case *ssa.ChangeType:
		return e.roots(v.X)
	case *ssa.ChangeInterface:
		return e.roots(v.X)
	case *ssa.MakeInterface:
		return e.roots(v.X)
	case *ssa.TypeAssert:
		return e.roots(v.X)
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			return e.call(&c.Call, v.Index)
		}
		return e.roots(v.Tuple)
	case *ssa.Next:
		return e.elem(v.Iter.(*ssa.Range).X, nil)
	case *ssa.FieldAddr:
		if e.immutable(v.X.Type()) {
			return e.roots(v.X)
		}
		r := e.roots(v.X)
		if r.m&rGlobal != 0 {
			return r
		}
		return rootSet{m: rOwned}
	case *ssa.Field:
		if e.immutable(v.X.Type()) {
			return e.roots(v.X)
		}
		return rootSet{m: rOwned}.or(e.roots(v.X))
	case *ssa.IndexAddr:
		return e.roots(v.X)
	case *ssa.Index:
		return e.elem(v.X, v.Type())
	case *ssa.Lookup:
		return e.elem(v.X, v.Type())
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return rootSet{m: rLocal}
		}
		return e.load(v.X, v.Type())
	case *ssa.Call:
		return e.call(&v.Call, 0)
	}
	return rootSet{m: rShared}
}

// load is what a value read at an address may belong to.
func (e *effects) load(a ssa.Value, t types.Type) rootSet {
	switch x := a.(type) {
	case *ssa.Alloc:
		r := rootSet{m: rLocal}
		for _, v := range e.stor[x] {
			r = r.or(e.roots(v))
		}
		return r
	case *ssa.FreeVar:
		r := rootSet{}
		for _, b := range e.binds[x] {
			y := e.load(b, t)
			if y.param != 0 {
				y = rootSet{m: y.m | rShared}
			}
			r = r.or(y)
		}
		return r
	case *ssa.Global:
		return rootSet{m: rGlobal}
	case *ssa.FieldAddr:
		if e.immutable(x.X.Type()) {
			r := e.roots(x.X)
			if r.m == rLocal && r.param == 0 {
				return rootSet{m: rShared} // the object is new, what it holds need not be
			}
			r.m |= rShared
			return r
		}
		r := e.roots(x.X)
		if r.m&rGlobal != 0 {
			return r
		}
		if e.immutable(t) {
			return rootSet{m: rShared}
		}
		return rootSet{m: rOwned | e.taint[effField(x)]}
	case *ssa.IndexAddr:
		return e.elem(x.X, t)
	}
	r := e.roots(a)
	r.m |= rShared
	return r
}

func effField(x *ssa.FieldAddr) string {
	s, _ := structOf(deref(x.X.Type()))
	return typeKey(deref(x.X.Type())) + "." + s.Field(x.Field).Name()
}

// shared is the shared memory a value may be, over all callers.
func (e *effects) shared(v ssa.Value) int {
	r := e.roots(v)
	m := r.m & (rShared | rGlobal)
	if r.param != 0 {
		f := v.Parent()
		for i, p := range f.Params {
			if r.param>>uint(i)&1 != 0 {
				m |= e.par[p]
			}
		}
	}
	return m
}

func refLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Slice, *types.Map:
		return true
	}
	return false
}

// elem is what an element of a slice, array or map may belong to.
func (e *effects) elem(x ssa.Value, t types.Type) rootSet {
	r := e.roots(x)
	if r.m&(rShared|rGlobal) != 0 || r.param != 0 {
		return r
	}
	if t == nil || e.immutable(t) {
		return rootSet{m: rShared}
	}
	return rootSet{m: rOwned}
}

func (e *effects) callees(c *ssa.CallCommon) []*ssa.Function {
	if f := c.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	if c.IsInvoke() {
		return e.impl[c.Method.Name()]
	}
	return nil
}

func (e *effects) args(c *ssa.CallCommon, f *ssa.Function) []ssa.Value {
	if c.IsInvoke() {
		return append([]ssa.Value{c.Value}, c.Args...)
	}
	return c.Args
}

func (e *effects) call(c *ssa.CallCommon, idx int) rootSet {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			return rootSet{m: rLocal}.or(e.roots(c.Args[0]))
		}
		return rootSet{m: rLocal}
	}
	fs := e.callees(c)
	if len(fs) == 0 {
		return rootSet{m: rShared}
	}
	r := rootSet{}
	for _, f := range fs {
		if !inRepo(f) {
			r.m |= rLocal
			continue
		}
		s := e.ret[f]
		r.m |= s.m
		as := e.args(c, f)
		for i := range as {
			if s.param>>uint(i)&1 != 0 {
				r = r.or(e.roots(as[i]))
			}
		}
	}
	return r
}

func (e *effects) oblige(f *ssa.Function, pos token.Pos, what string, ok bool, src string) {
	if !e.final {
		return
	}
	n := funcKey(f) + "/frame[" + what + "]"
	e.names[n]++
	if k := e.names[n]; k > 1 {
		n = fmt.Sprintf("%s#%d", n, k)
	}
	o := &Obl{Name: n, Kind: "frame", Tags: []string{e.prop}, Status: "failed", Src: src, Pos: e.w.Fset.Position(pos).String()}
	if ok {
		o.Status, o.Solver = "proved", "frame rules"
	}
	e.obls = append(e.obls, o)
}

// write checks that memory with these roots may be written here.
func (e *effects) write(f *ssa.Function, pos token.Pos, r rootSet, what, src string) {
	if e.inits[f] {
		e.oblige(f, pos, what, true, src)
		return
	}
	ok := r.m&(rShared|rGlobal) == 0
	if r.param != 0 {
		exp := f.Parent() != nil || f.Object() != nil && f.Object().Exported() && !strings.HasPrefix(pkgOf(f), "go")
		if exp && pkgOf(f) != "go" {
			ok = false
		} else if e.mut[f]|r.param != e.mut[f] {
			e.mut[f] |= r.param
			e.chg = true
		}
	}
	e.oblige(f, pos, what, ok, src)
}

func (e *effects) fn(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch i := in.(type) {
			case *ssa.Store:
				e.store(f, i)
			case *ssa.MapUpdate:
				e.write(f, i.Pos(), e.roots(i.Map), "map update", "only maps made in this call are updated")
			case *ssa.Go:
				e.oblige(f, i.Pos(), "go", false, "the library starts no goroutines")
			case *ssa.Send:
				e.oblige(f, i.Pos(), "send", false, "the library uses no channels")
			case *ssa.Select:
				e.oblige(f, i.Pos(), "select", false, "the library uses no channels")
			case *ssa.Range:
				if _, ok := i.X.Type().Underlying().(*types.Map); ok && !e.inits[f] {
					e.oblige(f, i.Pos(), "map order", false, "no result depends on the order of a map")
				}
			case *ssa.Return:
				r := e.ret[f]
				n := r
				for _, x := range i.Results {
					n = n.or(e.roots(x))
				}
				if n != r {
					e.ret[f] = n
					e.chg = true
				}
			}
			if c, ok := in.(ssa.CallInstruction); ok {
				e.callSite(f, in, c.Common())
			}
			if e.final && !e.inits[f] {
				var rands []*ssa.Value
				for _, o := range in.Operands(rands) {
					if k, ok := (*o).(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && strings.Contains(constant.StringVal(k.Value), "%p") {
						e.oblige(f, in.Pos(), "%p", false, "no result depends on an address")
					}
				}
			}
		}
	}
}

func (e *effects) store(f *ssa.Function, i *ssa.Store) {
	switch a := i.Addr.(type) {
	case *ssa.Alloc:
		return
	case *ssa.FreeVar:
		o := f
		for o.Parent() != nil {
			o = o.Parent()
		}
		e.oblige(f, i.Pos(), "captured "+a.Name(), !e.inits[o], "no function held by a package variable keeps state")
		return
	case *ssa.Global:
		e.oblige(f, i.Pos(), "global "+a.Name(), e.inits[f], "package variables are set by initialisation only")
		return
	case *ssa.FieldAddr:
		what := effField(a)
		if refLike(i.Val.Type()) {
			if m := e.shared(i.Val); e.taint[what]|m != e.taint[what] {
				e.taint[what] |= m
				e.chg = true
			}
		}
		// the innermost object whose memory this is
		var base ssa.Value = a
		imm := false
		for {
			fa, ok := base.(*ssa.FieldAddr)
			if !ok {
				break
			}
			imm = imm || e.immutable(fa.X.Type())
			base = fa.X
		}
		r := e.roots(base)
		if ia, ok := base.(*ssa.IndexAddr); ok {
			e.write(f, i.Pos(), e.roots(ia.X), what, "only slices made in this call are written")
			return
		}
		if !imm {
			e.oblige(f, i.Pos(), what, r.m&rGlobal == 0 || e.inits[f], "no object held by a package variable is written")
			return
		}
		e.write(f, i.Pos(), r, what, "an immutable object is written only while it is being made")
		return
	case *ssa.IndexAddr:
		e.write(f, i.Pos(), e.roots(a.X), "element", "only slices made in this call are written")
		return
	}
	r := e.roots(i.Addr)
	if !e.immutable(i.Addr.Type()) && r.m&rGlobal == 0 {
		if _, ok := structOf(deref(i.Addr.Type())); ok {
			e.oblige(f, i.Pos(), "*"+typeKey(deref(i.Addr.Type())), true, "the object belongs to this call")
			return
		}
	}
	e.write(f, i.Pos(), r, "*"+typeKey(deref(i.Addr.Type())), "only memory of this call is written")
}

func (e *effects) callSite(f *ssa.Function, in ssa.Instruction, c *ssa.CallCommon) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append", "copy", "delete", "clear":
			e.write(f, in.Pos(), e.roots(c.Args[0]), b.Name(), "only slices and maps made in this call are written")
		}
		return
	}
	for _, g := range e.callees(c) {
		if !inRepo(g) {
			p := ""
			if g.Pkg != nil {
				p = g.Pkg.Pkg.Path()
			} else if g.Object() != nil && g.Object().Pkg() != nil {
				p = g.Object().Pkg().Path()
			}
			ok := e.w.Specs.PureExt[p] && !(p == "reflect" && strings.HasPrefix(g.Name(), "Set")) || e.inits[f]
			e.oblige(f, in.Pos(), "call "+g.String(), ok, "external functions used are functions of their arguments")
			continue
		}
		for k, x := range e.args(c, g) {
			if k < len(g.Params) && refLike(x.Type()) {
				if m := e.shared(x); e.par[g.Params[k]]|m != e.par[g.Params[k]] {
					e.par[g.Params[k]] |= m
					e.chg = true
				}
			}
		}
		m := e.mut[g]
		if m == 0 {
			continue
		}
		as := e.args(c, g)
		for i := range as {
			if m>>uint(i)&1 != 0 {
				e.write(f, in.Pos(), e.roots(as[i]), fmt.Sprintf("argument %d of %s", i, funcKey(g)), "what the callee writes was made in this call")
			}
		}
	}
}

// globals: no package variable reaches an object that a call may write.
func (e *effects) globals() {
	for p, sp := range e.w.Pkgs {
		if strings.HasPrefix(p, "cmd/") {
			continue
		}
		var ns []string
		for n := range sp.Members {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			g, ok := sp.Members[n].(*ssa.Global)
			if !ok || n == "init$guard" {
				continue
			}
			bad := e.reach(deref(g.Type()), map[types.Type]bool{})
			name := p + ":" + n + "/frame[reach]"
			o := &Obl{Name: name, Kind: "frame", Tags: []string{e.prop}, Status: "proved", Solver: "frame rules", Src: "no package variable reaches an object that a call may write", Pos: e.w.Fset.Position(g.Pos()).String()}
			if bad != "" {
				o.Status, o.Solver = "failed", ""
				o.Src += ": " + bad
			}
			e.obls = append(e.obls, o)
		}
	}
	sort.SliceStable(e.obls, func(i, j int) bool { return e.obls[i].Name < e.obls[j].Name })
}

func (e *effects) reach(t types.Type, seen map[types.Type]bool) string {
	if seen[t] {
		return ""
	}
	seen[t] = true
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() != nil && !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
			if n.Obj().Pkg().Path() == "regexp" || n.Obj().Pkg().Path() == "errors" {
				return ""
			}
			if _, ok := n.Underlying().(*types.Basic); ok {
				return ""
			}
			return n.String()
		}
	}
	switch x := t.Underlying().(type) {
	case *types.Pointer:
		el := x.Elem()
		if n, ok := el.(*types.Named); ok {
			if n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) && !e.immutable(n) {
				if _, ok := n.Underlying().(*types.Struct); ok {
					return n.String()
				}
			}
		}
		return e.reach(el, seen)
	case *types.Slice:
		return e.reach(x.Elem(), seen)
	case *types.Array:
		return e.reach(x.Elem(), seen)
	case *types.Map:
		if s := e.reach(x.Key(), seen); s != "" {
			return s
		}
		return e.reach(x.Elem(), seen)
	case *types.Chan:
		return t.String()
	case *types.Interface:
		if n, ok := t.(*types.Named); !ok || n.Obj().Name() != "error" {
			return t.String()
		}
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			if s := e.reach(x.Field(i).Type(), seen); s != "" {
				return s
			}
		}
	}
	return ""
}
