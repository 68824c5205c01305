package main

// Symbolic execution of go/ssa functions into proof obligations.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type Addr struct {
	key  string // state key
	base *Term  // nil: a cell or global
	typ  types.Type
	path []acc
	own  ssa.Value
}

type acc struct {
	field int
	idx   *Term
	seq   bool
	typ   types.Type // type of the container
}

type Value struct {
	T   *Term
	A   *Addr
	Tup []Value
	Fn  *ssa.Function
	Bnd []Value
	Src *Addr // where a slice or map value was loaded from
}

type State struct{ m map[string]*Term }

func (s *State) clone() *State {
	m := make(map[string]*Term, len(s.m)+4)
	for k, v := range s.m {
		m[k] = v
	}
	return &State{m}
}

type Obl struct {
	Name   string
	Kind   string
	Tags   []string
	Goal   *Term
	At     int
	Cand   string
	Pos    string
	Status string
	Solver string
	Ms     int64
	Src    string
	sortBy string
	reach  *Term
	neg    *Term
}

type Exit struct {
	cond *Term
	st   *State
	vals []Value
	pos  token.Pos
	pv   *Term
	pc   *Contract // exceptional exit out of a call with this contract
}

type Loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	ord    int
	// per entry
	entrySt *State
	phis    []*ssa.Phi
	cands   []*candInst
	reach   *Term
	meas    []measInst
	id      string
}

type measInst struct {
	src string
	ev  func(st *State, vals map[ssa.Value]Value) *Term
	at  *Term
}

type candInst struct {
	key string
	src string
	ev  func(st *State, vals map[ssa.Value]Value) *Term
}

type Inc struct {
	from *ssa.BasicBlock
	cond *Term
	st   *State
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Value
	parent *Frame
	depth  int
	id     int
	rpo    []*ssa.BasicBlock
	loops  map[*ssa.BasicBlock]*Loop
	rets   []Exit
	pans   []Exit
	defers []*ssa.Defer
	hasRec bool
	recVal *Term // value recover() yields
	site   string
	path   string
	cur    *ssa.BasicBlock
}

type Unit struct {
	anyPanic   *Term           // stands for the value a callee panics with
	mu         sync.Mutex      // held while terms are made or written during the sessions
	ownedMaps  map[*Term]*Addr // maps that belong to an object by an invariant
	pend       []pending
	lazy       bool
	factsMemo  map[*Term]*facts
	nrets      int
	specAxDone map[*Axiom]bool
	uses       map[*Term][]*Term
	w          *World
	c          *Ctx
	root       *ssa.Function
	ctr        *Contract
	asm        []*Term
	asmSeen    map[int]bool
	obls       []*Obl
	dry        int
	entry      *State
	rootFr     *Frame
	dropped    map[string]bool
	reach      *Term
	st         *State
	fr         *Frame
	nfr        int
	allocs     []*Term
	allocTy    map[*Term]types.Type
	allocAt    map[*Term]map[*Frame]*ssa.BasicBlock
	havoc      map[*Term]*Term
	inInv      int
	invBase    *Term
	names      map[string]int
	bad        []string
	trusted    map[string]bool
	inlined    map[string]bool
	assumed    map[string]bool
	axDone     map[string]bool
	invDone    map[string]bool
	steps      int
	want       string // property
	heapSrt    map[string]string
	rootArgs   map[string]SVal
	covers     []*Term
	propSkip   bool
	ndec       int
	curInstr   ssa.Instruction
}

func NewUnit(w *World, fn *ssa.Function, ctr *Contract) *Unit {
	u := &Unit{w: w, c: NewCtx(w), root: fn, ctr: ctr, asmSeen: map[int]bool{}, uses: map[*Term][]*Term{}, dropped: map[string]bool{}, names: map[string]int{},
		trusted: map[string]bool{}, inlined: map[string]bool{}, assumed: map[string]bool{}, axDone: map[string]bool{}, havoc: map[*Term]*Term{}, heapSrt: map[string]string{}, invDone: map[string]bool{}}
	u.c.Datatype("Iface", "mkI", []string{"itag", "ival"}, []string{"Int", "Int"})
	return u
}

type unsupported struct{ msg string }

func (u *Unit) unsup(f string, a ...any) {
	msg := fmt.Sprintf(f, a...)
	if u.dry == 0 {
		u.bad = append(u.bad, msg)
		u.oblige("unsupported", []string{"*"}, u.c.False, msg)
	}
}

func (u *Unit) assume(fact *Term) {
	u.assumeIf(u.reach, fact)
}

func (u *Unit) assumeIf(r, fact *Term) {
	if u.dry > 0 {
		return
	}
	t := u.c.Implies(r, fact)
	if t == u.c.True || t.bv {
		return
	}
	u.push(t, u.reach)
}

func (u *Unit) oblige(kind string, tags []string, goal *Term, src string) {
	u.obligeIf(u.reach, kind, tags, goal, src, "")
}

// push adds an assumption, remembering the paths that use it.
func (u *Unit) push(t, r *Term) {
	if u.dry > 0 || r == nil || r == u.c.True {
		r = u.c.True
	}
	if !u.asmSeen[t.id] {
		u.asmSeen[t.id] = true
		u.asm = append(u.asm, t)
		u.uses[t] = []*Term{r}
		return
	}
	us := u.uses[t]
	for _, x := range us {
		if x == r || x == u.c.True {
			return
		}
	}
	if r == u.c.True || len(us) > 40 {
		u.uses[t] = []*Term{u.c.True}
		return
	}
	u.uses[t] = append(us, r)
}

func (u *Unit) obligeIf(r *Term, kind string, tags []string, goal *Term, src, cand string) {
	if u.dry > 0 {
		return
	}
	if len(tags) == 0 && cand == "" {
		return
	}
	if u.nrets > 8 && kind == "ensures" {
		goal = u.factsOf(r).simp(u.c, goal, 0)
	}
	g := u.c.Implies(r, goal)
	base := funcKey(u.root) + "/" + kind
	if src != "" {
		base += "[" + src + "]"
	}
	u.names[base]++
	n := base
	if k := u.names[base]; k > 1 {
		n = fmt.Sprintf("%s#%d", base, k)
	}
	pos := ""
	if u.curInstr != nil {
		pos = u.w.Fset.Position(u.curInstr.Pos()).String()
	}
	o := &Obl{Name: n, Kind: kind, Tags: tags, Goal: g, At: len(u.asm), Cand: cand, Src: src, Pos: pos, reach: r}
	if g == u.c.True {
		o.Status, o.Solver = "proved", "simplifier"
	}
	u.obls = append(u.obls, o)
	// once checked, it holds afterwards
	if cand == "" && kind != "ensures" && kind != "cover" {
		u.assumeIf(r, goal)
	}
}

// ---- sorts and values

func (u *Unit) sort(t types.Type) string {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsBoolean != 0:
			return "Bool"
		case t.Info()&types.IsString != 0:
			return "Str"
		}
		return "Int"
	case *types.Slice:
		return u.c.SeqDt(u.sortOf(t.Elem())).Sort
	case *types.Interface:
		return "Iface"
	case *types.Struct:
		return u.structDt(t, nil).Sort
	case *types.Array:
		return "(Array Int " + u.sortOf(t.Elem()) + ")"
	}
	return "Int"
}

func (u *Unit) sortOf(t types.Type) string {
	if s, ok := structOf(t); ok {
		return u.structDt(s, t).Sort
	}
	return u.sort(t)
}

func (u *Unit) structDt(s *types.Struct, t types.Type) *DtDecl {
	name := "S_" + sanitize(typeKeyOr(s, t))
	if d := u.c.dts[name]; d != nil {
		return d
	}
	var sel, srt []string
	for i := 0; i < s.NumFields(); i++ {
		sel = append(sel, fmt.Sprintf("%s.%s", name, s.Field(i).Name()))
		srt = append(srt, u.sortOf(s.Field(i).Type()))
	}
	if len(sel) == 0 {
		sel, srt = []string{name + ".$"}, []string{"Int"}
	}
	return u.c.Datatype(name, "mk"+name, sel, srt)
}

func typeKeyOr(s *types.Struct, t types.Type) string {
	if t != nil {
		if _, ok := t.(*types.Named); ok {
			return typeKey(t)
		}
	}
	return typeKey(s)
}

func (u *Unit) zero(t types.Type) *Term {
	switch x := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case x.Info()&types.IsBoolean != 0:
			return u.c.False
		case x.Info()&types.IsString != 0:
			return u.c.Str("")
		}
		return u.c.Int(0)
	case *types.Slice:
		es := u.sortOf(x.Elem())
		return u.c.MkSeq(es, u.c.Int(0), u.c.Const("nilarr_"+seqName(es), "(Array Int "+es+")"))
	case *types.Interface:
		return u.nilI()
	case *types.Struct:
		d := u.structDt(x, t)
		var as []*Term
		for i := 0; i < x.NumFields(); i++ {
			as = append(as, u.zero(x.Field(i).Type()))
		}
		if len(as) == 0 {
			as = append(as, u.c.Int(0))
		}
		return u.c.Ctor(d, as...)
	case *types.Array:
		return u.c.ConstArr(u.sort(t), u.zero(x.Elem()))
	}
	return u.c.Int(0)
}

func (u *Unit) nilI() *Term { return u.c.Ctor(u.c.dts["Iface"], u.c.Int(0), u.c.Int(0)) }
func (u *Unit) itag(t *Term) *Term {
	return u.c.Get(u.c.dts["Iface"], 0, t)
}
func (u *Unit) ival(t *Term) *Term { return u.c.Get(u.c.dts["Iface"], 1, t) }

func (u *Unit) box(v *Term, t types.Type) *Term {
	srt := v.Sort
	switch srt {
	case "Int":
		return v
	case "Bool":
		return u.c.Ite(v, u.c.Int(1), u.c.Int(0))
	case "Str":
		if v.Op == "unboxS" {
			return v.Args[0]
		}
		return u.c.mk("boxS", "Int", v)
	}
	n := "box_" + sanitize(srt)
	un := "unbox_" + sanitize(srt)
	u.c.Fun(n, []string{srt}, "Int")
	u.c.Fun(un, []string{"Int"}, srt)
	if !u.axDone[n] {
		u.axDone[n] = true
		b := u.c.BoundVar("b", srt)
		bx := u.c.mk(n, "Int", b)
		u.pushAsm(u.c.Quant("forall", []*Term{b}, u.c.Eq(u.c.mk(un, srt, bx), b), [][]*Term{{bx}}))
	}
	if v.Op == un {
		return v.Args[0]
	}
	return u.c.mk(n, "Int", v)
}

func (u *Unit) pushAsm(t *Term) {
	// global facts go first; they may be discovered in a dry run too
	u.push(t, u.c.True)
}

func (u *Unit) unbox(v *Term, srt string) *Term {
	switch srt {
	case "Int":
		return v
	case "Bool":
		return u.c.Eq(v, u.c.Int(1))
	case "Str":
		if v.Op == "boxS" {
			return v.Args[0]
		}
		return u.c.mk("unboxS", "Str", v)
	}
	n := "box_" + sanitize(srt)
	if v.Op == n {
		return v.Args[0]
	}
	un := "unbox_" + sanitize(srt)
	u.box(u.c.Const("dummy_"+sanitize(srt), srt), nil)
	return u.c.mk(un, srt, v)
}

func (u *Unit) mkIface(v *Term, t types.Type) *Term {
	return u.c.Ctor(u.c.dts["Iface"], u.c.Int(int64(u.w.tagOf(t))), u.box(v, t))
}

// get reads a state key.
func (u *Unit) get(st *State, key, srt string) *Term {
	if t, ok := st.m[key]; ok {
		return t
	}
	u.heapSrt[key] = srt
	if strings.HasPrefix(key, "V:") {
		if g := u.w.globals[key]; g != nil {
			if t := u.initTerm(u.w.initVal(g), deref(g.Type())); t != nil {
				return t
			}
		}
	}
	return u.c.Const(key+"@0", srt)
}

func (u *Unit) next(st *State) *Term { return u.get(st, "$next", "Int") }
func (u *Unit) P(st *State) *Term    { return u.get(st, "$P", "(Array Int Bool)") }

func (u *Unit) heap(st *State, key string, t types.Type) *Term {
	return u.get(st, key, "(Array Int "+u.sortOf(t)+")")
}

func isStructPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	_, ok = structOf(p.Elem())
	return ok
}

// facts that hold of every value of type t found in the heap.
func (u *Unit) typeFacts(st *State, v *Term, t types.Type, heap bool) []*Term {
	c := u.c
	if v.bv {
		return nil
	}
	var out []*Term
	switch x := t.Underlying().(type) {
	case *types.Pointer, *types.Map:
		if v.fresh {
			return nil
		}
		if n, ok := v.isInt(); ok && n == 0 {
			return nil
		}
		out = append(out, c.Le(c.Int(0), v), c.Lt(v, u.next(st)))
		if heap && isStructPtr(t) {
			ok := []*Term{c.Eq(v, c.Int(0)), c.Select(u.P(st), v)}
			for _, p := range u.pend {
				ok = append(ok, c.Eq(v, p.p))
			}
			out = append(out, c.Or(ok...))
		}
	case *types.Slice:
		out = append(out, c.Le(c.Int(0), c.SeqLen(v)))
	case *types.Interface:
		if v.Op == "mkI" {
			return nil
		}
		tag := u.itag(v)
		out = append(out, c.Le(c.Int(0), tag), c.Implies(c.Eq(tag, c.Int(0)), c.Eq(u.ival(v), c.Int(0))))
		// interfaces hold no typed nil pointers (checked at MakeInterface)
		pf := []*Term{c.Lt(c.Int(0), u.ival(v)), c.Lt(u.ival(v), u.next(st))}
		if heap {
			ok := []*Term{c.Select(u.P(st), u.ival(v))}
			for _, p := range u.pend {
				ok = append(ok, c.Eq(u.ival(v), p.p))
			}
			pf = append(pf, c.Or(ok...))
		}
		out = append(out, c.Implies(u.isPtrTag(tag), c.And(pf...)))
		if x.NumMethods() > 0 {
			out = append(out, c.Or(c.Eq(tag, c.Int(0)), u.implements(tag, t)))
		}
	case *types.Basic:
		if x.Kind() == types.Uint8 {
			out = append(out, c.Le(c.Int(0), v), c.Le(v, c.Int(255)))
		} else if x.Info()&types.IsUnsigned != 0 {
			out = append(out, c.Le(c.Int(0), v))
		}
	case *types.Struct:
		d := u.structDt(x, t)
		for i := 0; i < x.NumFields(); i++ {
			out = append(out, u.typeFacts(st, c.Get(d, i, v), x.Field(i).Type(), heap)...)
		}
	}
	return out
}

// isPtrTag: is the dynamic type a pointer to a struct of the repository?
func (u *Unit) isPtrTag(tag *Term) *Term {
	if n, ok := tag.isInt(); ok {
		return u.c.Bool(n > 0 && int(n) < len(u.w.tagTy) && u.w.tagTy[n] != nil && isStructPtr(u.w.tagTy[n]))
	}
	fn := "isptrtag"
	u.c.Fun(fn, []string{"Int"}, "Bool")
	if !u.axDone[fn] {
		u.axDone[fn] = true
		for _, ct := range u.w.allNamed {
			if isStructPtr(ct) {
				u.pushAsm(u.c.mk(fn, "Bool", u.c.Int(int64(u.w.tagOf(ct)))))
			}
		}
	}
	return u.c.mk(fn, "Bool", tag)
}

// implements: does dynamic type tag implement interface type t?
func (u *Unit) implements(tag *Term, t types.Type) *Term {
	it := t.Underlying().(*types.Interface)
	if it.NumMethods() == 0 {
		return u.c.Not(u.c.Eq(tag, u.c.Int(0)))
	}
	fn := "impl_" + sanitize(typeKey(t))
	u.c.Fun(fn, []string{"Int"}, "Bool")
	if !u.axDone[fn] {
		u.axDone[fn] = true
		var cl []*Term
		x := u.c.BoundVar("t", "Int")
		for _, ct := range u.w.allNamed {
			if types.IsInterface(ct) {
				continue
			}
			tg := u.c.Int(int64(u.w.tagOf(ct)))
			im := types.Implements(ct, it)
			f := u.c.mk(fn, "Bool", tg)
			if im {
				u.pushAsm(f)
				cl = append(cl, u.c.Eq(x, tg))
			} else {
				u.pushAsm(u.c.Not(f))
			}
		}
		for _, ct := range append([]types.Type{tStr, tInt, tBool}, u.w.allOther...) {
			if f := u.c.mk(fn, "Bool", u.c.Int(int64(u.w.tagOf(ct)))); types.Implements(ct, it) {
				u.pushAsm(f)
				cl = append(cl, u.c.Eq(x, u.c.Int(int64(u.w.tagOf(ct)))))
			} else {
				u.pushAsm(u.c.Not(f))
			}
		}
		u.pushAsm(u.c.Not(u.c.mk(fn, "Bool", u.c.Int(0))))
		if u.w.Specs.Closed[typeKey(t)] {
			ap := u.c.mk(fn, "Bool", x)
			u.pushAsm(u.c.Quant("forall", []*Term{x}, u.c.Implies(ap, u.c.Or(cl...)), [][]*Term{{ap}}))
		}
	}
	if n, ok := tag.isInt(); ok && n > 0 && int(n) < len(u.w.tagTy) {
		return u.c.Bool(types.Implements(u.w.tagTy[n], it))
	}
	return u.c.mk(fn, "Bool", tag)
}

// ---- addresses

func (u *Unit) addrTerm(st *State, a *Addr) *Term {
	// the root location's current value
	if a.base != nil {
		return u.c.Select(u.get(st, a.key, ""), a.base)
	}
	return u.get(st, a.key, "")
}

func (u *Unit) rootSort(a *Addr) string {
	t := a.typ
	if len(a.path) > 0 {
		t = a.path[0].typ
	}
	s := u.sortOf(t)
	if a.base != nil {
		return "(Array Int " + s + ")"
	}
	return s
}

func (u *Unit) loadRoot(st *State, a *Addr) *Term {
	h := u.get(st, a.key, u.rootSort(a))
	if a.base != nil {
		return u.c.Select(h, a.base)
	}
	return h
}

func (u *Unit) step(v *Term, p acc) *Term {
	switch x := p.typ.Underlying().(type) {
	case *types.Struct:
		return u.c.Get(u.structDt(x, p.typ), p.field, v)
	case *types.Array:
		return u.c.Select(v, p.idx)
	case *types.Slice:
		return u.c.SeqAt(v, p.idx)
	}
	panic("step")
}

func (u *Unit) setStep(v *Term, p acc, n *Term) *Term {
	switch x := p.typ.Underlying().(type) {
	case *types.Struct:
		return u.c.Set(u.structDt(x, p.typ), p.field, v, n)
	case *types.Array:
		return u.c.Store(v, p.idx, n)
	case *types.Slice:
		return u.c.MkSeq(u.sortOf(x.Elem()), u.c.SeqLen(v), u.c.Store(u.c.SeqArr(v), p.idx, n))
	}
	panic("setStep")
}

func (u *Unit) load(st *State, a *Addr) *Term {
	if a.key == "*struct" {
		// whole object
		s, _ := structOf(a.typ)
		d := u.structDt(s, a.typ)
		var as []*Term
		for i := 0; i < s.NumFields(); i++ {
			as = append(as, u.load(st, &Addr{key: fieldKey(a.typ, i), base: a.base, typ: s.Field(i).Type()}))
		}
		if len(as) == 0 {
			as = append(as, u.c.Int(0))
		}
		return u.c.Ctor(d, as...)
	}
	v := u.loadRoot(st, a)
	for _, p := range a.path {
		v = u.step(v, p)
	}
	return v
}

func (u *Unit) setRoot(st *State, a *Addr, v *Term) {
	srt := u.rootSort(a)
	if a.base != nil {
		st.m[a.key] = u.c.Store(u.get(st, a.key, srt), a.base, v)
	} else {
		st.m[a.key] = v
	}
	u.heapSrt[a.key] = srt
}

func (u *Unit) rawStore(st *State, a *Addr, v *Term) {
	if a.key == "*struct" {
		s, _ := structOf(a.typ)
		d := u.structDt(s, a.typ)
		for i := 0; i < s.NumFields(); i++ {
			u.rawStore(st, &Addr{key: fieldKey(a.typ, i), base: a.base, typ: s.Field(i).Type()}, u.c.Get(d, i, v))
		}
		return
	}
	if len(a.path) == 0 {
		u.setRoot(st, a, v)
		return
	}
	r := u.loadRoot(st, a)
	var rec func(x *Term, i int) *Term
	rec = func(x *Term, i int) *Term {
		if i == len(a.path) {
			return v
		}
		return u.setStep(x, a.path[i], rec(u.step(x, a.path[i]), i+1))
	}
	u.setRoot(st, a, rec(r, 0))
}

func (a *Addr) extend(p acc, t types.Type) *Addr {
	if a.key == "*struct" {
		s, _ := structOf(a.typ)
		return &Addr{key: fieldKey(a.typ, p.field), base: a.base, typ: s.Field(p.field).Type()}
	}
	b := *a
	b.path = append(append([]acc(nil), a.path...), p)
	b.typ = t
	return &b
}

// fieldAddr is the address of field i of the struct object at base.
func (u *Unit) fieldAddr(base *Term, t types.Type, i int) *Addr {
	s, _ := structOf(t)
	return &Addr{key: fieldKey(t, i), base: base, typ: s.Field(i).Type()}
}

// doLoad loads with the facts a load brings.
func (u *Unit) doLoad(a *Addr) *Term {
	v := u.load(u.st, a)
	u.loadFacts(u.st, a, v)
	return v
}

func isHeapKey(k string) bool {
	return strings.HasPrefix(k, "F:") || strings.HasPrefix(k, "V:") || strings.HasPrefix(k, "MV:")
}

func (u *Unit) loadFacts(st *State, a *Addr, v *Term) {
	if u.dry > 0 || v.bv {
		return
	}
	if a.key == "*struct" {
		s, _ := structOf(a.typ)
		for i := 0; i < s.NumFields(); i++ {
			b := u.fieldAddr(a.base, a.typ, i)
			u.loadFacts(st, b, u.load(st, b))
		}
		return
	}
	if !isHeapKey(a.key) {
		return
	}
	g := u.c.True
	if a.base != nil {
		if a.base.bv {
			return
		}
		g = u.c.And(u.c.Lt(u.c.Int(0), a.base), u.c.Lt(a.base, u.next(st)))
		if a.base.fresh {
			g = u.c.True
		}
	}
	for _, f := range u.typeFacts(st, v, a.typ, true) {
		u.assumeIf(u.c.True, u.c.Implies(g, f))
	}
	if a.base != nil && u.inInv == 0 && strings.HasPrefix(a.key, "F:") {
		u.instInv(st, a)
	}
}

// instInv assumes the invariants of a packed object that speak of the field.
func (u *Unit) instInv(st *State, a *Addr) {
	j := strings.LastIndex(a.key, ".")
	tk, f := a.key[2:j], a.key[j+1:]
	cl := u.w.invIdx[tk]
	if len(cl) == 0 || a.base.fresh && u.c.Select(u.P(st), a.base) == u.c.False {
		return
	}
	p := u.c.Select(u.P(st), a.base)
	if p == u.c.False {
		return
	}
	g := u.c.And(u.c.Not(u.c.Eq(a.base, u.c.Int(0))), p)
	for _, iv := range cl {
		if !u.w.invKeyed(iv, f) {
			continue
		}
		t := u.evalInv(st, iv, a.base)
		u.assumeIf(u.c.True, u.c.Implies(g, t))
	}
}

func (u *Unit) evalInv(st *State, iv *InvClause, p *Term) *Term {
	u.inInv++
	sb := u.invBase
	u.invBase = p
	defer func() { u.inInv--; u.invBase = sb }()
	t, err := u.w.resolveType("*"+iv.Type[strings.LastIndex(iv.Type, ".")+1:], iv.Pkg)
	if err != nil {
		panic(unsupported{err.Error()})
	}
	e := &SpecEnv{u: u, st: st, old: st, vars: map[string]SVal{iv.Var: {t: p, typ: t}}, pkg: iv.Pkg}
	return e.boolean(iv.E)
}

// pack is called when a pointer escapes: its object's invariant must hold.
func (u *Unit) pack(p *Term, t types.Type) {
	if p == nil || !isStructPtr(t) || !mayBeFresh(p) {
		return
	}
	c := u.c
	if p.Op == "ite" {
		sv := u.reach
		u.reach = c.And(sv, p.Args[0])
		u.pack(p.Args[1], t)
		u.reach = c.And(sv, c.Not(p.Args[0]))
		u.pack(p.Args[2], t)
		u.reach = sv
		return
	}
	if !p.fresh {
		return
	}
	if u.lazy {
		u.pend = append(u.pend, pending{p, t, u.reach})
		return
	}
	cur := c.Select(u.P(u.st), p)
	if cur == c.True {
		return
	}
	tk := typeKey(deref(t))
	u.packSets(p, tk, cur)
	u.ownMaps(p, deref(t))
	for _, iv := range u.w.invIdx[tk] {
		goal := u.evalInv(u.st, iv, p)
		u.obligeIf(u.reach, "inv", iv.Tags, c.Or(cur, goal), short(iv.Src), "")
	}
	u.st.m["$P"] = c.Store(u.P(u.st), p, c.True)
}

// pending: an object stored into another one, whose invariant is due at the
// end of the block or at the next call.
type pending struct {
	p     *Term
	t     types.Type
	reach *Term
}

func (u *Unit) packPending() {
	if len(u.pend) == 0 {
		return
	}
	ps := u.pend
	u.pend = nil
	sv := u.reach
	for _, x := range ps {
		u.reach = x.reach
		u.pack(x.p, x.t)
	}
	u.reach = sv
}

// mapInvTags: the tags of the invariants that speak of the contents of maps of
// type t.
func (w *World) mapInvTags(t types.Type) []string {
	var tags []string
	for _, ivs := range w.invIdx {
		for _, iv := range ivs {
			ty, err := w.resolveType(iv.Type[strings.LastIndex(iv.Type, ".")+1:], iv.Pkg)
			if err != nil {
				continue
			}
			s, ok := structOf(types.NewPointer(ty))
			if !ok {
				continue
			}
			for i := 0; i < s.NumFields(); i++ {
				if types.Identical(s.Field(i).Type().Underlying(), t.Underlying()) && w.invMentions(iv, s.Field(i).Name()) {
					tags = union(tags, iv.Tags)
				}
			}
		}
	}
	return tags
}

// ownMaps: a map an invariant speaks of belongs to one object.
func (u *Unit) ownMaps(p *Term, t types.Type) {
	s, ok := structOf(types.NewPointer(t))
	if !ok {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		if _, ok := s.Field(i).Type().Underlying().(*types.Map); ok {
			a := &Addr{key: fieldKey(t, i), base: p, typ: s.Field(i).Type()}
			u.ownMap(a, u.load(u.st, a))
		}
	}
}

func (u *Unit) ownMap(a *Addr, m *Term) {
	j := strings.LastIndex(a.key, ".")
	var tags []string
	for _, iv := range u.w.invIdx[a.key[2:j]] {
		if u.w.invMentions(iv, a.key[j+1:]) {
			tags = union(tags, iv.Tags)
		}
	}
	if len(tags) == 0 || u.dry > 0 {
		return
	}
	if n, ok := m.isInt(); ok && n == 0 {
		return
	}
	if o := u.ownedMaps[m]; o != nil && (o.base != a.base || o.key != a.key) || !m.fresh {
		u.oblige("inv", tags, u.c.Eq(m, u.c.Int(0)), "the map is the object's own: "+a.key[2:])
		return
	}
	if u.ownedMaps == nil {
		u.ownedMaps = map[*Term]*Addr{}
	}
	u.ownedMaps[m] = a
}

func (u *Unit) packSets(p *Term, tk string, cur *Term) {
	for _, ps := range u.w.Specs.PackSets {
		if ps.Type != tk {
			continue
		}
		gk := "F:" + ps.Type + "." + ps.Field
		env := u.rootSpecEnv(u.st)
		env.pkg = ps.Pkg
		t, _ := u.w.resolveType("*"+tk[strings.LastIndex(tk, ".")+1:], ps.Pkg)
		env.vars["this"] = SVal{t: p, typ: t}
		v, ok := env.tryEval(ps.E)
		if !ok {
			continue
		}
		h := u.get(u.st, gk, "(Array Int "+v.t.Sort+")")
		u.st.m[gk] = u.c.Store(h, p, u.c.Ite(cur, u.c.Select(h, p), v.t))
	}
}

func mayBeFresh(t *Term) bool {
	if t.fresh {
		return true
	}
	if t.Op == "ite" {
		return mayBeFresh(t.Args[1]) || mayBeFresh(t.Args[2])
	}
	return false
}

func short(s string) string {
	s = strings.Join(strings.Fields(s), " ")
	if len(s) > 70 {
		s = s[:70] + "…"
	}
	return s
}

// doStore stores with the checks a store brings.
func (u *Unit) doStore(a *Addr, v *Term, vt types.Type) {
	c := u.c
	if a.key == "*struct" {
		s, _ := structOf(a.typ)
		d := u.structDt(s, a.typ)
		for i := 0; i < s.NumFields(); i++ {
			u.doStore(&Addr{key: fieldKey(a.typ, i), base: a.base, typ: s.Field(i).Type()}, c.Get(d, i, v), s.Field(i).Type())
		}
		return
	}
	if isHeapKey(a.key) || len(a.path) > 0 {
		u.lazy = a.base != nil && strings.HasPrefix(a.key, "F:")
		u.escape(v, vt)
		u.lazy = false
	}
	if a.base != nil && strings.HasPrefix(a.key, "F:") {
		p := c.Select(u.P(u.st), a.base)
		if _, ok := vt.Underlying().(*types.Map); ok && p != c.False {
			u.ownMap(a, v)
		}
		u.frameCheck(a.key, a.base)
		if u.w.Specs.Frozen[a.key[2:]] {
			u.oblige("frozen", []string{"*"}, c.Not(p), a.key[2:])
		}
		if u.w.Specs.Grows[a.key[2:]] {
			u.oblige("grows", []string{"*"}, c.Or(c.Not(p), c.Eq(u.load(u.st, a), c.Int(0)), c.Not(c.Eq(v, c.Int(0)))), a.key[2:])
		}
		u.rawStore(u.st, a, v)
		u.recheck(a, p)
		return
	}
	if strings.HasPrefix(a.key, "V:") {
		u.frameCheck(a.key, nil)
	}
	u.rawStore(u.st, a, v)
}

func (u *Unit) recheck(a *Addr, p *Term) {
	if p == u.c.False || u.dry > 0 {
		return
	}
	j := strings.LastIndex(a.key, ".")
	tk, f := a.key[2:j], a.key[j+1:]
	for _, iv := range u.w.invIdx[tk] {
		if u.w.invMentions(iv, f) {
			u.obligeIf(u.reach, "inv", iv.Tags, u.c.Implies(p, u.evalInv(u.st, iv, a.base)), short(iv.Src), "")
		}
	}
}

// frameCheck: a store to an object that existed at entry must be declared.
func (u *Unit) frameCheck(key string, base *Term) {
	if u.dry > 0 || u.ctr == nil {
		return
	}
	locs, has := u.w.modLocs(u.ctr)
	if !has && !strings.HasPrefix(key, "G:") {
		return
	}
	c := u.c
	var ok []*Term
	governed := false
	env := u.rootSpecEnv(u.entry)
	for _, l := range locs {
		k, b, all := u.locOf(env, l.e)
		if k != key {
			continue
		}
		governed = true
		if all || b == nil {
			return
		}
		if base != nil {
			ok = append(ok, c.Eq(base, b))
		}
	}
	if !governed && !u.w.modNothing(u.ctr) && !strings.HasPrefix(key, "G:") {
		return
	}
	if base != nil {
		if base.fresh {
			return
		}
		ok = append(ok, c.Le(u.next(u.entry), base))
	}
	u.oblige("frame", u.frameTags(), c.Or(ok...), key[2:])
}

func (u *Unit) frameTags() []string {
	var t []string
	for _, cl := range u.ctr.Clauses {
		if cl.Kind == "modifies" {
			t = append(t, cl.Tags...)
		}
	}
	if len(t) == 0 {
		t = []string{"*"}
	}
	return t
}

// escape: v becomes visible to others.
func (u *Unit) escape(v *Term, t types.Type) {
	switch x := t.Underlying().(type) {
	case *types.Pointer:
		u.pack(v, t)
	case *types.Struct:
		d := u.structDt(x, t)
		for i := 0; i < x.NumFields(); i++ {
			if f := u.c.Get(d, i, v); mayBeFresh(f) {
				u.escape(f, x.Field(i).Type())
			}
		}
	}
}

func (u *Unit) alloc(t types.Type, hint string) *Term {
	c := u.c
	r := c.Fresh("new_"+hint, "Int")
	r.fresh = true
	nx := u.next(u.st)
	u.assumeIf(c.True, c.Eq(r, nx))
	u.st.m["$next"] = c.Add(r, c.Int(1))
	if u.dry == 0 {
		u.assumeIf(c.True, c.Le(c.Int(1), nx))
	}
	u.allocs = append(u.allocs, r)
	if t != nil {
		if u.allocTy == nil {
			u.allocTy = map[*Term]types.Type{}
		}
		u.allocTy[r] = t
		at := map[*Frame]*ssa.BasicBlock{}
		for f := u.fr; f != nil; f = f.parent {
			at[f] = f.cur
		}
		if u.allocAt == nil {
			u.allocAt = map[*Term]map[*Frame]*ssa.BasicBlock{}
		}
		u.allocAt[r] = at
	}
	u.st.m["$P"] = c.Store(u.P(u.st), r, c.False)
	if t != nil {
		if s, ok := structOf(t); ok {
			for i := 0; i < s.NumFields(); i++ {
				a := u.fieldAddr(r, t, i)
				u.rawStore(u.st, a, u.zero(s.Field(i).Type()))
			}
		}
		u.defines(r, t)
		for _, g := range u.w.Specs.Ghost[typeKey(t)] {
			if k := typeKey(t) + "." + g.Name; g.Type == "bool" && u.w.Specs.Grows[k] {
				u.assumeIf(c.True, c.Not(c.Select(u.get(u.st, "F:"+k, "(Array Int Bool)"), r)))
			}
		}
	}
	return r
}

// ---- frames and blocks

// defines assumes what the contracts of the functions being executed say of the
// ghost fields of an object they allocate (nothing else constrains those).
func (u *Unit) defines(r *Term, t types.Type) {
	tk := typeKey(t) + "."
	seen := map[string]bool{}
	for f := u.fr; f != nil; f = f.parent {
		for _, k := range u.w.defining(f.fn) {
			for _, cl := range k.Clauses {
				if cl.Kind != "defines" || !strings.HasPrefix(cl.Label, tk) || seen[cl.Label] {
					continue
				}
				env := &SpecEnv{u: u, st: u.st, old: u.st, vars: map[string]SVal{}, pkg: k.Pkg}
				for i, p := range f.fn.Params {
					if i < len(k.Params) && f.env[p].T != nil {
						env.vars[k.Params[i]] = SVal{t: f.env[p].T, typ: p.Type()}
					}
				}
				seen[cl.Label] = true
				v := env.eval(cl.E)
				u.assumeIf(u.c.True, u.c.Eq(u.c.Select(u.get(u.st, "F:"+cl.Label, "(Array Int "+v.t.Sort+")"), r), v.t))
			}
		}
	}
}

func (u *Unit) newFrame(fn *ssa.Function, parent *Frame) *Frame {
	u.nfr++
	fr := &Frame{fn: fn, env: map[ssa.Value]Value{}, parent: parent, id: u.nfr, loops: map[*ssa.BasicBlock]*Loop{}}
	if parent != nil {
		fr.depth = parent.depth + 1
	}
	// reverse postorder over forward edges
	seen := map[*ssa.BasicBlock]bool{}
	var po []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			s := b.Succs[i]
			if !seen[s] && !s.Dominates(b) {
				dfs(s)
			} else if !seen[s] {
				dfs(s)
			}
		}
		po = append(po, b)
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	for i := len(po) - 1; i >= 0; i-- {
		fr.rpo = append(fr.rpo, po[i])
	}
	if fn.Recover != nil {
		fr.hasRec = true
		if !seen[fn.Recover] {
			// where the function goes on after a recovered panic
			n := len(po)
			dfs(fn.Recover)
			for i := len(po) - 1; i >= n; i-- {
				fr.rpo = append(fr.rpo, po[i])
			}
		}
	}
	for _, b := range fr.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fr.loops[s]
				if l == nil {
					l = &Loop{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fr.loops[s] = l
				}
				var back func(x *ssa.BasicBlock)
				back = func(x *ssa.BasicBlock) {
					if l.blocks[x] {
						return
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						if seen[p] {
							back(p)
						}
					}
				}
				back(b)
			}
		}
	}
	var hs []*ssa.BasicBlock
	for h := range fr.loops {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Index < hs[j].Index })
	for i, h := range hs {
		fr.loops[h].ord = i
		fr.loops[h].id = fmt.Sprintf("%s.%d", fn.Name(), i)
	}
	return fr
}

func (u *Unit) strip(conds []*Term) []*Term {
	// drop conjuncts common to all
	if len(conds) < 2 {
		return conds
	}
	cnt := map[int]int{}
	for _, k := range conds {
		for _, x := range u.c.conj(k) {
			cnt[x.id]++
		}
	}
	out := make([]*Term, len(conds))
	for i, k := range conds {
		var r []*Term
		for _, x := range u.c.conj(k) {
			if cnt[x.id] < len(conds) {
				r = append(r, x)
			}
		}
		out[i] = u.c.And(r...)
	}
	return out
}

func (u *Unit) mergeTerms(conds []*Term, vals []*Term) *Term {
	v := vals[len(vals)-1]
	for i := len(vals) - 2; i >= 0; i-- {
		v = u.c.Ite(conds[i], vals[i], v)
	}
	return v
}

func (u *Unit) mergeStates(conds []*Term, sts []*State) *State {
	if len(sts) == 1 {
		return sts[0].clone()
	}
	out := &State{m: make(map[string]*Term, len(sts[0].m))}
	keys := map[string]bool{}
	for _, s := range sts {
		for k := range s.m {
			keys[k] = true
		}
	}
	ks := make([]string, 0, len(keys))
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		vals := make([]*Term, len(sts))
		same := true
		for i, s := range sts {
			if t, ok := s.m[k]; ok {
				vals[i] = t
			} else {
				srt := u.heapSrt[k]
				for _, s2 := range sts {
					if t, ok := s2.m[k]; ok {
						srt = t.Sort
					}
				}
				vals[i] = u.get(s, k, srt)
			}
			if vals[i] != vals[0] {
				same = false
			}
		}
		if same {
			out.m[k] = vals[0]
		} else {
			out.m[k] = u.mergeTerms(conds, vals)
		}
	}
	return out
}

type runOut struct {
	back []Inc
}

// run executes the blocks of fr from start. within restricts the blocks (a
// loop body in a dry run).
func (u *Unit) run(fr *Frame, start *ssa.BasicBlock, within map[*ssa.BasicBlock]bool, st0 *State, reach0 *Term) *runOut {
	out := &runOut{}
	svFr, svSt, svR := u.fr, u.st, u.reach
	defer func() { u.fr, u.st, u.reach = svFr, svSt, svR }()
	u.fr = fr
	inc := map[*ssa.BasicBlock][]Inc{}
	started := false
	for _, b := range fr.rpo {
		if within != nil && !within[b] {
			continue
		}
		var ins []Inc
		if b == start {
			started = true
			ins = []Inc{{nil, reach0, st0}}
		} else {
			if !started {
				continue
			}
			ins = inc[b]
		}
		var live []Inc
		for _, i := range ins {
			if i.cond != u.c.False {
				live = append(live, i)
			}
		}
		if len(live) == 0 {
			continue
		}
		conds := make([]*Term, len(live))
		sts := make([]*State, len(live))
		for i, x := range live {
			conds[i], sts[i] = x.cond, x.st
		}
		rel := u.strip(conds)
		u.reach = u.c.Or(conds...)
		l := fr.loops[b]
		if l == nil && fr.parent == nil && len(live) > 8 && onlyReturns(b) {
			// the end of a long chain of cases: one exit for each
			for i, x := range live {
				u.reach = x.cond
				var pv []Value
				var ph []*ssa.Phi
				for _, in := range b.Instrs {
					if p, ok := in.(*ssa.Phi); ok {
						ph = append(ph, p)
						pv = append(pv, u.phiVal(fr, p, live[i:i+1], []*Term{u.c.True}))
					}
				}
				for k, p := range ph {
					fr.env[p] = pv[k]
				}
				u.st = u.mergeStates([]*Term{u.c.True}, sts[i:i+1])
				u.block(fr, b, within, inc, out)
			}
			continue
		}
		if l != nil && !(b == start && within != nil) {
			u.enterLoop(fr, l, live, rel, sts)
		} else {
			if l == nil {
				// phis
				var pv []Value
				var ph []*ssa.Phi
				for _, in := range b.Instrs {
					p, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					ph = append(ph, p)
					pv = append(pv, u.phiVal(fr, p, live, rel))
				}
				for i, p := range ph {
					fr.env[p] = pv[i]
				}
			}
			u.st = u.mergeStates(rel, sts)
		}
		u.block(fr, b, within, inc, out)
	}
	return out
}

func onlyReturns(b *ssa.BasicBlock) bool {
	for _, in := range b.Instrs {
		switch in.(type) {
		case *ssa.Phi, *ssa.Return, *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func (u *Unit) phiVal(fr *Frame, p *ssa.Phi, live []Inc, rel []*Term) Value {
	var vs []Value
	for _, x := range live {
		k := 0
		for i, q := range p.Block().Preds {
			if q == x.from {
				k = i
			}
		}
		vs = append(vs, u.val(fr, p.Edges[k]))
	}
	if len(vs) == 1 {
		return vs[0]
	}
	ts := make([]*Term, len(vs))
	for i, v := range vs {
		if v.T == nil {
			if v.A != nil || v.Fn != nil {
				same := true
				for _, w := range vs {
					if w.A != v.A || w.Fn != v.Fn {
						same = false
					}
				}
				if same {
					return v
				}
			}
			u.unsup("phi of addresses")
			return Value{T: u.c.Fresh("phi", u.sortOf(p.Type()))}
		}
		ts[i] = v.T
	}
	return Value{T: u.mergeTerms(rel, ts)}
}

func (u *Unit) edge(fr *Frame, b, s *ssa.BasicBlock, cond *Term, within map[*ssa.BasicBlock]bool, inc map[*ssa.BasicBlock][]Inc, out *runOut) {
	if cond == u.c.False {
		return
	}
	if l := fr.loops[s]; l != nil && s.Dominates(b) {
		x := Inc{b, cond, u.st.clone()}
		if within != nil && s == fr.dryHead(within) {
			out.back = append(out.back, x)
		}
		if u.dry == 0 {
			u.backEdge(fr, l, x)
		} else {
			// pack what the back edge carries
			sv := u.st
			u.st = x.st
			u.packPhis(fr, l, b)
			u.st = sv
		}
		return
	}
	if within != nil && !within[s] {
		return
	}
	inc[s] = append(inc[s], Inc{b, cond, u.st.clone()})
}

// dryHead: the header of the loop whose blocks are given.
func (fr *Frame) dryHead(within map[*ssa.BasicBlock]bool) *ssa.BasicBlock {
	for h, l := range fr.loops {
		if len(l.blocks) == len(within) && within[h] {
			same := true
			for b := range within {
				if !l.blocks[b] {
					same = false
					break
				}
			}
			if same {
				return h
			}
		}
	}
	return nil
}

func (u *Unit) block(fr *Frame, b *ssa.BasicBlock, within map[*ssa.BasicBlock]bool, inc map[*ssa.BasicBlock][]Inc, out *runOut) {
	u.steps++
	fr.cur = b
	if u.steps > 400000 {
		panic(unsupported{"too many steps"})
	}
	for _, in := range b.Instrs {
		u.curInstr = in
		switch in := in.(type) {
		case *ssa.If, *ssa.Panic:
			u.packPending()
		case *ssa.Jump:
			if len(b.Succs[0].Preds) > 1 || fr.loops[b.Succs[0]] != nil {
				u.packPending()
			}
		case *ssa.Return:
			// a function inlined which has one way out: as if in the caller
			if fr.parent == nil || len(fr.rpo) > 1 {
				u.packPending()
			}
			_ = in
		}
		switch in := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			cv := u.val(fr, in.Cond).T
			r := u.reach
			u.edge(fr, b, b.Succs[0], u.c.And(r, cv), within, inc, out)
			u.edge(fr, b, b.Succs[1], u.c.And(r, u.c.Not(cv)), within, inc, out)
			return
		case *ssa.Jump:
			u.edge(fr, b, b.Succs[0], u.reach, within, inc, out)
			return
		case *ssa.Return:
			var vs []Value
			for _, r := range in.Results {
				vs = append(vs, u.val(fr, r))
			}
			fr.rets = append(fr.rets, Exit{cond: u.reach, st: u.st.clone(), vals: vs, pos: in.Pos()})
			return
		case *ssa.Panic:
			u.doPanic(fr, u.val(fr, in.X).T)
			return
		default:
			u.instr(fr, in)
			if u.reach == u.c.False {
				return
			}
		}
	}
}

func (u *Unit) doPanic(fr *Frame, pv *Term) {
	f := fr
	for f != nil && !f.hasRec {
		f = f.parent
	}
	if f != nil {
		f.pans = append(f.pans, Exit{cond: u.reach, st: u.st.clone(), pv: pv})
		return
	}
	if u.dry > 0 {
		return
	}
	u.checkPanic(pv)
}

// checkPanic: the root function may end with panic value pv.
func (u *Unit) checkPanic(pv *Term) {
	if u.ctr == nil {
		return
	}
	if u.ctr.NoPanic {
		u.oblige("no-panic", u.safetyTags(), u.c.False, "panic")
		return
	}
	env := u.rootSpecEnv(u.st)
	for _, cl := range u.ctr.Clauses {
		if cl.Kind != "panics" {
			continue
		}
		env.vars[cl.Label] = SVal{t: pv, typ: types.NewInterfaceType(nil, nil)}
		env.pkg = u.ctr.Pkg
		u.oblige("panics", cl.Tags, env.boolean(cl.E), short(cl.Src))
	}
}

func (u *Unit) safetyTags() []string {
	t := u.w.Specs.Safety[pkgOf(u.root)]
	return t
}

// ---- loops

func (u *Unit) packPhis(fr *Frame, l *Loop, from *ssa.BasicBlock) {
	for _, in := range l.head.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, q := range l.head.Preds {
			if q == from {
				if v := u.val(fr, p.Edges[i]); v.T != nil {
					u.escape(v.T, p.Type())
				}
			}
		}
	}
}

type modset struct {
	full map[string]bool
	tgt  map[string]map[*Term]bool
	ptg  map[*Term]bool
}

func (u *Unit) enterLoop(fr *Frame, l *Loop, live []Inc, rel []*Term, sts []*State) {
	c := u.c
	reach := u.reach
	// pack pointers carried into the loop
	l.phis = nil
	for _, in := range l.head.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			l.phis = append(l.phis, p)
		} else {
			break
		}
	}
	for i, x := range live {
		u.st = x.st
		u.reach = x.cond
		u.packPhis(fr, l, x.from)
		sts[i] = u.st
	}
	u.reach = reach
	st := u.mergeStates(rel, sts)
	init := map[ssa.Value]Value{}
	for _, p := range l.phis {
		init[p] = u.phiVal(fr, p, live, rel)
	}
	ms := &modset{full: map[string]bool{}, tgt: map[string]map[*Term]bool{}, ptg: map[*Term]bool{}}
	setPhis := func() {
		for _, p := range l.phis {
			if init[p].T == nil {
				fr.env[p] = init[p]
				continue
			}
			fr.env[p] = Value{T: c.Fresh("phi_"+p.Name(), u.sortOf(p.Type()))}
		}
	}
	for iter := 0; iter < 8; iter++ {
		mark := c.n
		hs := u.havocState(st, ms, true)
		setPhis()
		u.dry++
		nAl := len(u.allocs)
		svRets, svPans, svDef := fr.rets, fr.pans, fr.defers
		o := u.run(fr, l.head, l.blocks, hs, c.True)
		fr.rets, fr.pans, fr.defers = svRets, svPans, svDef
		u.allocs = u.allocs[:nAl]
		u.dry--
		if !u.diff(ms, hs, o.back, mark) {
			break
		}
	}
	u.reach = reach
	setPhis()
	hs := u.havocState(st, ms, false)
	u.st = hs
	l.entrySt = st
	l.reach = reach
	for _, p := range l.phis {
		if v := fr.env[p].T; v != nil {
			for _, f := range u.typeFacts(hs, v, p.Type(), true) {
				u.assume(f)
			}
		}
	}
	if u.dry > 0 {
		return
	}
	l.cands = u.candidates(fr, l, st, init)
	phv := map[ssa.Value]Value{}
	for _, p := range l.phis {
		phv[p] = fr.env[p]
	}
	for _, cd := range l.cands {
		if u.dropped[cd.key] {
			continue
		}
		u.obligeIf(reach, "loop-entry", nil, cd.ev(st, init), cd.src, cd.key)
	}
	for _, cd := range l.cands {
		if !u.dropped[cd.key] {
			u.assumeIf(reach, cd.ev(hs, phv))
		}
	}
	l.meas = u.measures(fr, l)
	for i := range l.meas {
		l.meas[i].at = l.meas[i].ev(hs, phv)
	}
}

func (u *Unit) backEdge(fr *Frame, l *Loop, x Inc) {
	svR, svS := u.reach, u.st
	u.reach, u.st = x.cond, x.st
	u.packPhis(fr, l, x.from)
	vals := map[ssa.Value]Value{}
	for _, p := range l.phis {
		for i, q := range l.head.Preds {
			if q == x.from {
				vals[p] = u.val(fr, p.Edges[i])
			}
		}
	}
	for _, cd := range l.cands {
		if !u.dropped[cd.key] {
			u.obligeIf(x.cond, "loop-step", nil, cd.ev(u.st, vals), cd.src, cd.key)
		}
	}
	if len(l.meas) > 0 {
		// the loop must decrease one of its measures
		var gs []*Term
		for _, m := range l.meas {
			now := m.ev(u.st, vals)
			gs = append(gs, u.c.And(u.c.Lt(now, m.at), u.c.Le(u.c.Int(0), m.at)))
		}
		u.ndec++
		u.obligeIf(x.cond, "decreases", []string{"C18"}, u.c.Or(gs...), "loop "+l.id, "")
		_ = svS
	}
	u.reach, u.st = svR, svS
}

func (u *Unit) havocState(st *State, ms *modset, dry bool) *State {
	c := u.c
	hs := st.clone()
	nx := c.Fresh("next", "Int")
	if !dry {
		u.assumeIf(c.True, c.Le(u.next(st), nx))
	}
	hs.m["$next"] = nx
	P := u.P(st)
	for _, t := range sortTerms(ms.ptg) {
		b := c.Fresh("packed", "Bool")
		u.assumeIf(c.True, c.Implies(c.Select(P, t), b))
		P = c.Store(P, t, b)
	}
	hs.m["$P"] = P
	var ks []string
	for k := range ms.full {
		ks = append(ks, k)
	}
	for k := range ms.tgt {
		if !ms.full[k] {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		old := u.get(st, k, u.heapSrt[k])
		if ms.full[k] {
			h := c.Fresh(k, old.Sort)
			hs.m[k] = h
			if strings.HasPrefix(old.Sort, "(Array Int") && isObjKey(k) {
				u.preserve(old, h, st, P, ms.tgt[k], ms.ptg)
				u.havoc[h] = old
			}
		} else {
			_, es := arrSorts(old.Sort)
			h := old
			for _, t := range sortTerms(ms.tgt[k]) {
				h = c.Store(h, t, c.Fresh("at_"+k, es))
			}
			hs.m[k] = h
		}
	}
	return hs
}

func isObjKey(k string) bool {
	return strings.HasPrefix(k, "F:") || strings.HasPrefix(k, "MV:") || strings.HasPrefix(k, "MD:")
}

// preserve: objects only this activation knows keep their fields.
func (u *Unit) preserve(old, h *Term, st *State, P *Term, not, not2 map[*Term]bool) {
	c := u.c
	for _, r := range u.allocs {
		if not[r] || not2[r] {
			continue
		}
		p := c.Select(P, r)
		if p == c.True {
			continue
		}
		u.assumeIf(c.True, c.Or(p, c.Eq(c.Select(h, r), c.Select(old, r))))
	}
}

func sortTerms(m map[*Term]bool) []*Term {
	var ts []*Term
	for t := range m {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	return ts
}

// diff extends ms by what a dry run changed; it reports whether ms grew.
func (u *Unit) diff(ms *modset, hs *State, backs []Inc, mark int) bool {
	grew := false
	for _, b := range backs {
		for _, k := range sortedKeys(b.st.m) {
			v := b.st.m[k]
			if k == "$next" || ms.full[k] && !strings.HasPrefix(v.Sort, "(Array Int") {
				continue
			}
			h, ok := hs.m[k]
			if !ok {
				h = u.get(hs, k, v.Sort)
			}
			if v == h {
				continue
			}
			if strings.HasPrefix(k, "c:") && ms.full[k] {
				continue
			}
			if !strings.HasPrefix(v.Sort, "(Array Int") || !(isObjKey(k) || k == "$P") {
				if !ms.full[k] {
					ms.full[k] = true
					grew = true
				}
				continue
			}
			tg := map[*Term]bool{}
			full := !u.targets(v, h, tg, mark, map[*Term]bool{})
			if k == "$P" {
				for t := range tg {
					if !ms.ptg[t] {
						ms.ptg[t] = true
						grew = true
					}
				}
				continue
			}
			if full && !ms.full[k] {
				ms.full[k] = true
				grew = true
			}
			if ms.tgt[k] == nil {
				ms.tgt[k] = map[*Term]bool{}
			}
			for t := range tg {
				if !ms.tgt[k][t] {
					ms.tgt[k][t] = true
					grew = true
				}
			}
		}
	}
	return grew
}

// targets collects the loop-invariant indices stored between h and v; it is
// false when some other index may have been written.
func (u *Unit) targets(v, h *Term, out map[*Term]bool, mark int, seen map[*Term]bool) bool {
	if v == h || seen[v] {
		return true
	}
	seen[v] = true
	switch {
	case v.Op == "store":
		i := v.Args[1]
		ok := true
		if i.fresh && i.id > mark {
			// allocated in the loop
		} else if u.invariantTerm(i, mark) {
			out[i] = true
		} else {
			ok = false
		}
		return u.targets(v.Args[0], h, out, mark, seen) && ok
	case v.Op == "ite":
		a := u.targets(v.Args[1], h, out, mark, seen)
		b := u.targets(v.Args[2], h, out, mark, seen)
		return a && b
	}
	if o, ok := u.havoc[v]; ok {
		u.targets(o, h, out, mark, seen)
	}
	return false
}

func (u *Unit) invariantTerm(t *Term, mark int) bool {
	if len(t.Args) == 0 {
		return t.id <= mark || t.isStr() || t.isConstLit()
	}
	for _, a := range t.Args {
		if !u.invariantTerm(a, mark) {
			return false
		}
	}
	return true
}

func (t *Term) isConstLit() bool {
	if _, ok := t.isInt(); ok {
		return true
	}
	return t.Op == "true" || t.Op == "false"
}

// ---- values

func (u *Unit) val(fr *Frame, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return Value{T: u.constant(v)}
	case *ssa.Function:
		return Value{Fn: v, T: u.c.Int(int64(1000000 + u.w.tagOf(v.Signature)))}
	case *ssa.Global:
		return Value{A: &Addr{key: globalKey(v), typ: deref(v.Type())}}
	case *ssa.Builtin:
		return Value{}
	}
	if x, ok := fr.env[v]; ok {
		if _, ok := v.(*ssa.MakeSlice); ok && x.A != nil {
			return Value{T: u.load(u.st, x.A), Src: x.A}
		}
		return x
	}
	panic(unsupported{fmt.Sprintf("no value for %s in %s", v.Name(), fr.fn.Name())})
}

func (u *Unit) constant(v *ssa.Const) *Term {
	if v.Value == nil {
		return u.zero(v.Type())
	}
	switch v.Value.Kind() {
	case constant.Bool:
		return u.c.Bool(constant.BoolVal(v.Value))
	case constant.String:
		return u.c.Str(constant.StringVal(v.Value))
	case constant.Int:
		n, ok := constant.Int64Val(v.Value)
		if !ok {
			return u.c.Fresh("bigint", "Int")
		}
		return u.c.Int(n)
	}
	return u.c.Fresh("const", u.sortOf(v.Type()))
}

func (u *Unit) nilCheck(p *Term, what string) {
	if p.fresh {
		return
	}
	u.oblige("nil", u.safetyTags(), u.c.Not(u.c.Eq(p, u.c.Int(0))), what)
}

func describe(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.Parameter:
		return v.Name()
	case *ssa.UnOp:
		return describe(v.X)
	case *ssa.FieldAddr:
		s, ok := structOf(deref(v.X.Type()))
		if ok {
			return describe(v.X) + "." + s.Field(v.Field).Name()
		}
	case *ssa.IndexAddr:
		return describe(v.X) + "[]"
	case *ssa.Call:
		if f := v.Call.StaticCallee(); f != nil {
			return f.Name() + "()"
		}
		return "call"
	case *ssa.Extract:
		return describe(v.Tuple)
	case *ssa.Phi:
		return "phi " + v.Comment
	case *ssa.TypeAssert:
		return describe(v.X) + ".(" + typeKey(v.AssertedType) + ")"
	case *ssa.Alloc:
		return v.Comment
	case *ssa.Global:
		return v.Name()
	}
	return typeKey(v.Type())
}
