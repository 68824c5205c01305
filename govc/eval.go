package main

// Evaluation of contract expressions.

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type SVal struct {
	t   *Term
	typ types.Type
	src *Addr
}

type SpecEnv struct {
	u     *Unit
	st    *State
	old   *State
	lold  *State
	vars  map[string]SVal
	pkg   string
	depth int
	facts *facts // what the path settles; lets implications off it go unevaluated
}

type specErr struct{ msg string }

func (e *SpecEnv) fail(f string, a ...any) { panic(specErr{fmt.Sprintf(f, a...)}) }

var tInt = types.Typ[types.Int]
var tBool = types.Typ[types.Bool]
var tStr = types.Typ[types.String]
var tNil = types.Typ[types.UntypedNil]
var tAny = types.NewInterfaceType(nil, nil)

func (e *SpecEnv) boolean(x *SExpr) *Term {
	v := e.eval(x)
	if v.t.Sort != "Bool" {
		e.fail("boolean expected: %s", x.String())
	}
	return v.t
}

func (e *SpecEnv) tryEval(x *SExpr) (v SVal, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(specErr); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	return e.eval(x), true
}

func (x *SExpr) String() string {
	switch x.Op {
	case "id", "type":
		return x.S
	case "int":
		return fmt.Sprint(x.N)
	case "str":
		return fmt.Sprintf("%q", x.S)
	case "sel":
		return x.A[0].String() + "." + x.S
	case "bin":
		return "(" + x.A[0].String() + " " + x.S + " " + x.A[1].String() + ")"
	case "call":
		var as []string
		for _, a := range x.A {
			as = append(as, a.String())
		}
		return x.S + "(" + strings.Join(as, ", ") + ")"
	case "un":
		return x.S + x.A[0].String()
	case "idx":
		return x.A[0].String() + "[" + x.A[1].String() + "]"
	}
	return x.Op
}

func (e *SpecEnv) with(st *State) *SpecEnv {
	n := *e
	n.st = st
	return &n
}

func (e *SpecEnv) bind(name string, v SVal) *SpecEnv {
	n := *e
	n.vars = make(map[string]SVal, len(e.vars)+1)
	for k, x := range e.vars {
		n.vars[k] = x
	}
	n.vars[name] = v
	return &n
}

func (e *SpecEnv) ident(name string) SVal {
	c := e.u.c
	switch name {
	case "true":
		return SVal{t: c.True, typ: tBool}
	case "false":
		return SVal{t: c.False, typ: tBool}
	case "nil":
		return SVal{t: c.Int(0), typ: tNil}
	}
	if v, ok := e.vars[name]; ok {
		return v
	}
	if strings.HasPrefix(name, "$") {
		for _, g := range e.u.w.Specs.Globals {
			if g.Name == name {
				t, err := e.u.w.resolveType(g.Type, "go")
				if err != nil {
					e.fail("%v", err)
				}
				return SVal{t: e.u.get(e.st, "G:"+name, e.u.sortOf(t)), typ: t}
			}
		}
	}
	if fn := e.u.w.Specs.Fns[name]; fn != nil && len(fn.Params) == 0 {
		return e.apply(fn, nil)
	}
	if p := e.u.w.Pkgs[e.pkg]; p != nil {
		if v, ok := e.member(p, name); ok {
			return v
		}
	}
	e.fail("unknown name %q", name)
	return SVal{}
}

func (e *SpecEnv) member(p *ssa.Package, name string) (SVal, bool) {
	switch m := p.Members[name].(type) {
	case *ssa.NamedConst:
		return SVal{t: e.u.constant(m.Value), typ: m.Type()}, true
	case *ssa.Global:
		t := deref(m.Type())
		if k := e.u.w.consts[m]; k != nil {
			return SVal{t: e.u.constant(k), typ: t}, true
		}
		a := &Addr{key: globalKey(m), typ: t}
		return SVal{t: e.u.load(e.st, a), typ: t, src: a}, true
	}
	return SVal{}, false
}

// coerce adapts nil to the type of the other operand.
func (e *SpecEnv) coerce(a, b SVal) (SVal, SVal) {
	if a.typ == tNil && b.typ != tNil {
		a = SVal{t: e.u.zero(b.typ), typ: b.typ}
	} else if b.typ == tNil && a.typ != tNil {
		b = SVal{t: e.u.zero(a.typ), typ: a.typ}
	}
	return a, b
}

func (e *SpecEnv) eval(x *SExpr) SVal {
	u, c := e.u, e.u.c
	switch x.Op {
	case "id":
		return e.ident(x.S)
	case "int":
		return SVal{t: c.Int(x.N), typ: tInt}
	case "str":
		return SVal{t: c.Str(x.S), typ: tStr}
	case "sel":
		if x.A[0].Op == "id" {
			if _, ok := e.vars[x.A[0].S]; !ok {
				if p := u.w.Pkgs[x.A[0].S]; p != nil {
					if v, ok := e.member(p, x.S); ok {
						return v
					}
				} else {
					for _, q := range u.w.Prog.AllPackages() {
						if q.Pkg.Path() == x.A[0].S {
							if v, ok := e.member(q, x.S); ok {
								return v
							}
						}
					}
				}
			}
		}
		return e.sel(e.eval(x.A[0]), x.S)
	case "idx":
		return e.index(e.eval(x.A[0]), e.eval(x.A[1]))
	case "slice":
		s := e.eval(x.A[0])
		lo := c.Int(0)
		if x.A[1] != nil {
			lo = e.eval(x.A[1]).t
		}
		var hi *Term
		if x.A[2] != nil {
			hi = e.eval(x.A[2]).t
		}
		if s.t.Sort == "Str" {
			if hi == nil {
				hi = c.Slen(s.t)
			}
			return SVal{t: u.ssub(s.t, lo, hi), typ: s.typ}
		}
		if hi == nil {
			hi = c.SeqLen(s.t)
		}
		return SVal{t: u.subseq(s.t, lo, hi), typ: s.typ}
	case "un":
		v := e.eval(x.A[0])
		switch x.S {
		case "!":
			return SVal{t: c.Not(v.t), typ: tBool}
		case "-":
			return SVal{t: c.Sub(c.Int(0), v.t), typ: tInt}
		}
		e.fail("operator %s", x.S)
	case "bin":
		return e.bin(x)
	case "forall", "exists":
		n := *e
		n.vars = make(map[string]SVal, len(e.vars)+len(x.Vars))
		for k, v := range e.vars {
			n.vars[k] = v
		}
		var bs []*Term
		for _, v := range x.Vars {
			t, err := u.w.resolveType(v.Type, e.pkg)
			if err != nil {
				e.fail("%v", err)
			}
			b := c.BoundVar(v.Name, u.sortOf(t))
			bs = append(bs, b)
			n.vars[v.Name] = SVal{t: b, typ: t}
		}
		body := n.boolean(x.A[0])
		var pats [][]*Term
		for _, p := range x.Pats {
			var ps []*Term
			for _, y := range p {
				ps = append(ps, patOf(n.eval(y).t, bs))
			}
			pats = append(pats, ps)
		}
		return SVal{t: c.Quant(x.Op, bs, body, pats), typ: tBool}
	case "call":
		return e.call(x)
	}
	e.fail("cannot evaluate %s", x.Op)
	return SVal{}
}

func (e *SpecEnv) bin(x *SExpr) SVal {
	u, c := e.u, e.u.c
	switch x.S {
	case "&&":
		a := e.boolean(x.A[0])
		if a == c.False {
			return SVal{t: a, typ: tBool}
		}
		return SVal{t: c.And(a, e.boolean(x.A[1])), typ: tBool}
	case "||":
		a := e.boolean(x.A[0])
		if a == c.True {
			return SVal{t: a, typ: tBool}
		}
		return SVal{t: c.Or(a, e.boolean(x.A[1])), typ: tBool}
	case "==>":
		a := e.boolean(x.A[0])
		if a == c.False || e.facts != nil && !a.bv && e.facts.eval3(c, a, 0) == 0 {
			return SVal{t: c.True, typ: tBool}
		}
		return SVal{t: c.Implies(a, e.boolean(x.A[1])), typ: tBool}
	case "<==>":
		return SVal{t: c.Eq(e.boolean(x.A[0]), e.boolean(x.A[1])), typ: tBool}
	case "in":
		// x in {..}: membership in a list literal call set(...)
		v := e.eval(x.A[0])
		if x.A[1].Op == "call" && x.A[1].S == "set" {
			var os []*Term
			for _, y := range x.A[1].A {
				a, b := e.coerce(v, e.eval(y))
				os = append(os, c.Eq(a.t, b.t))
			}
			return SVal{t: c.Or(os...), typ: tBool}
		}
		m := e.eval(x.A[1])
		return SVal{t: e.has(m, v), typ: tBool}
	}
	a, b := e.coerce(e.eval(x.A[0]), e.eval(x.A[1]))
	if a.t.Sort != b.t.Sort {
		e.fail("sorts %s and %s in %s", a.t.Sort, b.t.Sort, x.String())
	}
	switch x.S {
	case "==":
		return SVal{t: c.Eq(a.t, b.t), typ: tBool}
	case "!=":
		return SVal{t: c.Not(c.Eq(a.t, b.t)), typ: tBool}
	case "<", "<=", ">", ">=":
		if a.t.Sort == "Str" {
			e.fail("string order")
		}
		return SVal{t: c.Cmp(x.S, a.t, b.t), typ: tBool}
	case "+":
		if a.t.Sort == "Str" {
			return SVal{t: c.Scat(a.t, b.t), typ: tStr}
		}
		return SVal{t: c.Add(a.t, b.t), typ: tInt}
	case "-":
		return SVal{t: c.Sub(a.t, b.t), typ: tInt}
	case "*":
		if m, ok := a.t.isInt(); ok {
			if n, ok := b.t.isInt(); ok {
				return SVal{t: c.Int(m * n), typ: tInt}
			}
		}
		return SVal{t: c.mk("*", "Int", a.t, b.t), typ: tInt}
	}
	_ = u
	e.fail("operator %s", x.S)
	return SVal{}
}

func (e *SpecEnv) has(m, k SVal) *Term {
	c := e.u.c
	d, _, _, _ := e.u.mapArrs(e.st, m.typ)
	return c.And(c.Not(c.Eq(m.t, c.Int(0))), c.Select(c.Select(d, m.t), k.t))
}

func (e *SpecEnv) sel(x SVal, f string) SVal {
	u, c := e.u, e.u.c
	t := x.typ
	isPtr := false
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t, isPtr = p.Elem(), true
	}
	if isPtr {
		for _, g := range u.w.Specs.Ghost[typeKey(t)] {
			if g.Name == f {
				gt, err := u.w.resolveType(g.Type, "go")
				if err != nil {
					e.fail("%v", err)
				}
				k := "F:" + typeKey(t) + "." + f
				e.foreign(x.t, k)
				v := c.Select(u.get(e.st, k, "(Array Int "+u.sortOf(gt)+")"), x.t)
				if u.inInv == 0 && u.dry == 0 && !x.t.bv {
					u.instInv(e.st, &Addr{key: k, base: x.t, typ: gt})
				}
				return SVal{t: v, typ: gt}
			}
		}
	}
	s, ok := structOf(t)
	if !ok {
		e.fail("field %s of %s", f, typeKey(x.typ))
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() != f {
			continue
		}
		ft := s.Field(i).Type()
		if !isPtr {
			return SVal{t: c.Get(u.structDt(s, t), i, x.t), typ: ft}
		}
		a := u.fieldAddr(x.t, t, i)
		e.foreign(x.t, a.key)
		v := u.load(e.st, a)
		u.loadFacts(e.st, a, v)
		return SVal{t: v, typ: ft, src: a}
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Embedded() {
			if st2, ok := structOf(deref(s.Field(i).Type())); ok {
				for j := 0; j < st2.NumFields(); j++ {
					if st2.Field(j).Name() == f {
						return e.sel(e.sel(x, s.Field(i).Name()), f)
					}
				}
			}
		}
	}
	e.fail("no field %s in %s", f, typeKey(t))
	return SVal{}
}

// patOf: a pattern cannot have connectives; of a conjunction (has: the map is
// not nil, and the key is in it) the conjunct that mentions the variables.
func patOf(t *Term, bs []*Term) *Term {
	if t.Op != "and" {
		return t
	}
	for _, a := range t.Args {
		if a.bv {
			return a
		}
	}
	return t
}

// foreign: an invariant of one object may read another one only in fields that
// do not change once the object is shared, or grow.
func (e *SpecEnv) foreign(base *Term, key string) {
	u := e.u
	if u.inInv == 0 || base == u.invBase || !strings.HasPrefix(key, "F:") {
		return
	}
	if sp := u.w.Specs; sp.Frozen[key[2:]] || sp.Grows[key[2:]] {
		return
	}
	if os.Getenv("GOVC_FOREIGN") != "" {
		fmt.Fprintln(os.Stderr, "foreign", key)
		return
	}
	e.fail("an invariant reads %s of another object, which is neither frozen nor growing", key[2:])
}

func (e *SpecEnv) index(x, i SVal) SVal {
	u, c := e.u, e.u.c
	switch t := x.typ.Underlying().(type) {
	case *types.Slice:
		v := c.SeqAt(x.t, i.t)
		if u.dry == 0 && !v.bv {
			g := c.And(c.Le(c.Int(0), i.t), c.Lt(i.t, c.SeqLen(x.t)))
			for _, f := range u.typeFacts(e.st, v, t.Elem(), true) {
				if x.src != nil && x.src.base != nil {
					g = c.And(g, c.Lt(c.Int(0), x.src.base), c.Lt(x.src.base, u.next(e.st)))
				}
				if x.src != nil {
					u.assumeIf(c.True, c.Implies(g, f))
				}
			}
		}
		return SVal{t: v, typ: t.Elem()}
	case *types.Map:
		_, vv, _, _ := u.mapArrs(e.st, x.typ)
		return SVal{t: c.Select(c.Select(vv, x.t), i.t), typ: t.Elem()}
	case *types.Array:
		return SVal{t: c.Select(x.t, i.t), typ: t.Elem()}
	case *types.Basic:
		if n, ok := i.t.isInt(); ok && x.t.isStr() && n >= 0 && int(n) < len(x.t.Lit) {
			return SVal{t: c.Int(int64(x.t.Lit[n])), typ: tInt}
		}
		return SVal{t: c.mk("sat", "Int", x.t, i.t), typ: tInt}
	}
	e.fail("index of %s", typeKey(x.typ))
	return SVal{}
}

func (e *SpecEnv) apply(fn *SpecFn, args []SVal) SVal {
	u, c := e.u, e.u.c
	if len(args) != len(fn.Params) {
		e.fail("%s: %d arguments", fn.Name, len(args))
	}
	rt, err := u.w.resolveType(fn.Res, fn.Pkg)
	if err != nil {
		e.fail("%v", err)
	}
	for i, p := range fn.Params {
		pt, err := u.w.resolveType(p.Type, fn.Pkg)
		if err != nil {
			e.fail("%v", err)
		}
		if args[i].typ == tNil {
			args[i] = SVal{t: u.zero(pt), typ: pt}
		}
		if s := u.sortOf(pt); s != args[i].t.Sort {
			e.fail("%s: argument %d has sort %s, want %s", fn.Name, i+1, args[i].t.Sort, s)
		}
		if types.IsInterface(args[i].typ) || !types.IsInterface(pt) {
			if args[i].t.Sort == "Int" || args[i].t.Sort == "Iface" {
				args[i].typ = pt
			}
		}
	}
	if fn.Body != nil {
		if e.depth > 60 {
			e.fail("%s: expansion too deep", fn.Name)
		}
		n := &SpecEnv{u: u, st: e.st, old: e.old, lold: e.lold, vars: map[string]SVal{}, pkg: fn.Pkg, depth: e.depth + 1, facts: e.facts}
		for i, p := range fn.Params {
			n.vars[p.Name] = args[i]
		}
		v := n.eval(fn.Body)
		v.typ = rt
		return v
	}
	var ss []string
	var ts []*Term
	for _, a := range args {
		ss = append(ss, a.t.Sort)
		ts = append(ts, a.t)
	}
	rs := u.sortOf(rt)
	name := "u_" + fn.Name
	if len(args) == 0 {
		return SVal{t: c.Const(name, rs), typ: rt}
	}
	c.Fun(name, ss, rs)
	v := c.mk(name, rs, ts...)
	if u.dry == 0 && !v.bv {
		if _, ok := rt.Underlying().(*types.Slice); ok {
			u.assumeIf(c.True, c.Le(c.Int(0), c.SeqLen(v)))
		}
	}
	return SVal{t: v, typ: rt}
}

func (e *SpecEnv) call(x *SExpr) SVal {
	u, c := e.u, e.u.c
	arg := func(i int) SVal {
		if i >= len(x.A) {
			e.fail("%s: too few arguments", x.S)
		}
		return e.eval(x.A[i])
	}
	switch x.S {
	case "old":
		return e.with(e.old).eval(x.A[0])
	case "loopold":
		if e.lold == nil {
			e.fail("loopold outside a loop")
		}
		return e.with(e.lold).eval(x.A[0])
	case "ite":
		g := e.boolean(x.A[0])
		if g == c.True {
			return arg(1)
		}
		if g == c.False {
			return arg(2)
		}
		a, b := e.coerce(arg(1), arg(2))
		return SVal{t: c.Ite(g, a.t, b.t), typ: a.typ}
	case "let":
		// let(x, v, body)
		v := arg(1)
		return e.bind(x.A[0].S, v).eval(x.A[2])
	case "len":
		v := arg(0)
		if v.t.Sort == "Str" {
			return SVal{t: c.Slen(v.t), typ: tInt}
		}
		if u.dry == 0 && !v.t.bv && v.src != nil {
			u.assumeIf(c.True, c.Le(c.Int(0), c.SeqLen(v.t)))
		}
		return SVal{t: c.SeqLen(v.t), typ: tInt}
	case "distinct":
		// all arguments differ (literals)
		for i := range x.A {
			for j := 0; j < i; j++ {
				if !c.isLit(arg(i).t) || !c.isLit(arg(j).t) || arg(i).t == arg(j).t {
					return SVal{t: c.False, typ: tBool}
				}
			}
		}
		return SVal{t: c.True, typ: tBool}
	case "fresh":
		return SVal{t: c.Le(u.next(e.old), arg(0).t), typ: tBool}
	case "isalloc":
		v := arg(0).t
		return SVal{t: c.And(c.Lt(c.Int(0), v), c.Lt(v, u.next(e.st))), typ: tBool}
	case "packed":
		return SVal{t: c.Select(u.P(e.st), arg(0).t), typ: tBool}
	case "tagis":
		t, err := u.w.resolveType(x.A[1].S, e.pkg)
		if err != nil {
			e.fail("%v", err)
		}
		return SVal{t: u.isType(u.itag(arg(0).t), t), typ: tBool}
	case "implements":
		t, err := u.w.resolveType(x.A[1].S, e.pkg)
		if err != nil {
			e.fail("%v", err)
		}
		return SVal{t: u.implements(u.itag(arg(0).t), t), typ: tBool}
	case "as":
		t, err := u.w.resolveType(x.A[1].S, e.pkg)
		if err != nil {
			e.fail("%v", err)
		}
		return SVal{t: u.unbox(u.ival(arg(0).t), u.sortOf(t)), typ: t}
	case "tag":
		return SVal{t: u.itag(arg(0).t), typ: tInt}
	case "payload":
		return SVal{t: u.ival(arg(0).t), typ: tInt}
	case "iface":
		v := arg(0)
		return SVal{t: u.mkIface(v.t, v.typ), typ: tAny}
	case "mkiface":
		v := arg(0)
		t, err := u.w.resolveType(x.A[1].S, e.pkg)
		if err != nil {
			e.fail("%v", err)
		}
		return SVal{t: u.mkIface(v.t, t), typ: tAny}
	case "ref":
		return SVal{t: arg(0).t, typ: tInt}
	case "rx":
		s := arg(0)
		r := x.A[1].S
		if s.t.isStr() {
			if v, ok := u.w.rxEvalID(int64(u.w.rxID(r)), s.t.Lit); ok {
				return SVal{t: c.Bool(v), typ: tBool}
			}
		}
		return SVal{t: c.mk("rx", "Bool", s.t, c.Int(int64(u.w.rxID(r)))), typ: tBool}
	case "rxv":
		// rxv(s, r): r is a program value, a literal on every path
		return SVal{t: u.rxApp(arg(0).t, arg(1).t), typ: tBool}
	case "has":
		return SVal{t: e.has(arg(0), arg(1)), typ: tBool}
	case "itoa":
		return SVal{t: u.itoa(arg(0).t), typ: tStr}
	case "typename":
		return SVal{t: u.typeName(arg(0).t), typ: tStr}
	case "seqeq":
		a, b := e.coerce(arg(0), arg(1))
		i := c.BoundVar("i", "Int")
		sa, sb := c.SeqAt(a.t, i), c.SeqAt(b.t, i)
		q := c.Quant("forall", []*Term{i}, c.Implies(c.And(c.Le(c.Int(0), i), c.Lt(i, c.SeqLen(a.t))), c.Eq(sa, sb)), nil)
		return SVal{t: c.And(c.Eq(c.SeqLen(a.t), c.SeqLen(b.t)), q), typ: tBool}
	case "append1":
		a, b := arg(0), arg(1)
		es := c.dts[a.t.Sort].Srt[1]
		_, es = arrSorts(es)
		return SVal{t: c.MkSeq(es, c.Add(c.SeqLen(a.t), c.Int(1)), c.Store(c.SeqArr(a.t), c.SeqLen(a.t), b.t)), typ: a.typ}
	case "unchanged":
		// unchanged(e): e evaluates to the same value before and after
		return SVal{t: c.Eq(e.eval(x.A[0]).t, e.with(e.old).eval(x.A[0]).t), typ: tBool}
	case "mapsame":
		// mapsame(m): the map has the same contents before and after
		m := arg(0)
		d1, v1, _, _ := u.mapArrs(e.st, m.typ)
		d0, v0, _, _ := u.mapArrs(e.old, m.typ)
		return SVal{t: c.And(c.Eq(c.Select(d1, m.t), c.Select(d0, m.t)), c.Eq(c.Select(v1, m.t), c.Select(v0, m.t))), typ: tBool}
	}
	fn := u.w.Specs.Fns[x.S]
	if fn == nil {
		e.fail("unknown function %q", x.S)
	}
	var args []SVal
	for i := range x.A {
		args = append(args, arg(i))
	}
	return e.apply(fn, args)
}

func (u *Unit) rxApp(s, r *Term) *Term {
	c := u.c
	if r.Op == "ite" {
		return c.Ite(r.Args[0], u.rxApp(s, r.Args[1]), u.rxApp(s, r.Args[2]))
	}
	if !r.isStr() {
		c.Fun("rx_dyn", []string{"Str", "Str"}, "Bool")
		return c.mk("rx_dyn", "Bool", s, r)
	}
	return u.rxTest(s, int64(u.w.rxID(r.Lit)))
}

func (u *Unit) rxTest(s *Term, id int64) *Term {
	if s.isStr() {
		if v, ok := u.w.rxEvalID(id, s.Lit); ok {
			return u.c.Bool(v)
		}
	}
	if s.Op == "ite" {
		return u.c.Ite(s.Args[0], u.rxTest(s.Args[1], id), u.rxTest(s.Args[2], id))
	}
	return u.c.mk("rx", "Bool", s, u.c.Int(id))
}

// rxMatch: MatchString of a compiled expression
func (u *Unit) rxMatch(r, s *Term) *Term {
	c := u.c
	if r.Op == "ite" {
		return c.Ite(r.Args[0], u.rxMatch(r.Args[1], s), u.rxMatch(r.Args[2], s))
	}
	if r.Op == "rxobj" {
		if n, ok := r.Args[0].isInt(); ok {
			return u.rxTest(s, n)
		}
	}
	c.Fun("rx_obj", []string{"Int", "Str"}, "Bool")
	return c.mk("rx_obj", "Bool", r, s)
}

func (u *Unit) rxObj(g string) *Term {
	u.c.Fun("rxobj", []string{"Int"}, "Int")
	t := u.c.mk("rxobj", "Int", u.c.Int(int64(u.w.rxGoID(g))))
	if !u.axDone["rxobj:"+g] {
		u.axDone["rxobj:"+g] = true
		u.pushAsm(u.c.Lt(u.c.Int(0), t))
	}
	return t
}

func (u *Unit) itoa(n *Term) *Term {
	if k, ok := n.isInt(); ok {
		return u.c.Str(fmt.Sprint(k))
	}
	u.c.Fun("itoa", []string{"Int"}, "Str")
	return u.c.mk("itoa", "Str", n)
}

func (u *Unit) typeName(tag *Term) *Term {
	u.c.Fun("typename", []string{"Int"}, "Str")
	return u.c.mk("typename", "Str", tag)
}

// ---- modifies clauses

type modLoc struct{ e *SExpr }

func (w *World) modLocs(k *Contract) ([]modLoc, bool) {
	var out []modLoc
	has := false
	for _, cl := range k.Clauses {
		if cl.Kind == "modifies" {
			has = true
			for _, l := range cl.Locs {
				out = append(out, modLoc{l})
			}
		}
	}
	return out, has
}

// modNothing: the contract says "modifies nothing" (and nothing else).
func (w *World) modNothing(k *Contract) bool {
	n, has := 0, false
	for _, cl := range k.Clauses {
		if cl.Kind == "modifies" {
			has = true
			n += len(cl.Locs)
		}
	}
	return has && n == 0
}

// locOf resolves a location: x.f (one object), any(T.f) (all), m[*]: map
// contents written as contents(x.f), $g (ghost).
func (u *Unit) locOf(env *SpecEnv, l *SExpr) (key string, base *Term, all bool) {
	switch {
	case l.Op == "id" && strings.HasPrefix(l.S, "$"):
		return "G:" + l.S, nil, true
	case l.Op == "call" && l.S == "any":
		a := l.A[0] // T.f
		ts := a.A[0].S
		if a.A[0].Op == "sel" {
			ts = a.A[0].A[0].S + "." + ts
		}
		t, err := u.w.resolveType(ts, env.pkg)
		if err != nil {
			env.fail("%v", err)
		}
		return "F:" + typeKey(t) + "." + a.S, nil, true
	case l.Op == "call" && l.S == "contents":
		m := env.eval(l.A[0])
		dk, _ := mapKeys(m.typ)
		u.mapArrs(env.st, m.typ)
		return dk, m.t, false
	case l.Op == "sel":
		x := env.eval(l.A[0])
		if _, ok := u.w.Specs.ghostField(typeKey(deref(x.typ)), l.S); ok {
			return "F:" + typeKey(deref(x.typ)) + "." + l.S, x.t, false
		}
		v := env.sel(x, l.S)
		if v.src == nil {
			env.fail("not a location: %s", l.String())
		}
		return v.src.key, v.src.base, false
	}
	env.fail("not a location: %s", l.String())
	return
}

func (sp *Specs) ghostField(tk, f string) (SVar, bool) {
	for _, g := range sp.Ghost[tk] {
		if g.Name == f {
			return g, true
		}
	}
	return SVar{}, false
}

func (u *Unit) locSort(env *SpecEnv, l *SExpr, key string) string {
	if s := u.keySort(key); s != "" {
		return s
	}
	return u.heapSrt[key]
}

func (u *Unit) keySort(key string) string {
	if s := u.heapSrt[key]; s != "" {
		return s
	}
	t := u.w.keyTypes[key]
	if t == nil {
		if strings.HasPrefix(key, "G:") {
			for _, g := range u.w.Specs.Globals {
				if "G:"+g.Name == key {
					gt, _ := u.w.resolveType(g.Type, "go")
					return u.sortOf(gt)
				}
			}
		}
		if strings.HasPrefix(key, "F:") {
			j := strings.LastIndex(key, ".")
			if g, ok := u.w.Specs.ghostField(key[2:j], key[j+1:]); ok {
				gt, _ := u.w.resolveType(g.Type, "go")
				return "(Array Int " + u.sortOf(gt) + ")"
			}
		}
		return ""
	}
	switch key[:2] {
	case "F:":
		return "(Array Int " + u.sortOf(t) + ")"
	case "V:":
		return u.sortOf(t)
	case "MD":
		mt := t.Underlying().(*types.Map)
		return "(Array Int (Array " + u.sortOf(mt.Key()) + " Bool))"
	case "MV":
		mt := t.Underlying().(*types.Map)
		return "(Array Int (Array " + u.sortOf(mt.Key()) + " " + u.sortOf(mt.Elem()) + "))"
	}
	return ""
}

func sortMods(ms []Mod) {
	sort.Slice(ms, func(i, j int) bool {
		if ms[i].Key != ms[j].Key {
			return ms[i].Key < ms[j].Key
		}
		return ms[i].Root < ms[j].Root
	})
}

// ---- invariant clauses

func (w *World) fieldsOf(x *SExpr, v string, depth int, out map[string]bool) {
	if x == nil || depth > 12 {
		return
	}
	if x.Op == "sel" && x.A[0].Op == "id" && x.A[0].S == v {
		out[x.S] = true
	}
	if x.Op == "call" {
		if fn := w.Specs.Fns[x.S]; fn != nil && fn.Body != nil {
			for i, a := range x.A {
				if a.Op == "id" && a.S == v && i < len(fn.Params) {
					w.fieldsOf(fn.Body, fn.Params[i].Name, depth+1, out)
				}
			}
		}
	}
	for _, a := range x.A {
		w.fieldsOf(a, v, depth, out)
	}
}

func (w *World) invFields(iv *InvClause) map[string]bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.invF == nil {
		w.invF = map[*InvClause]map[string]bool{}
	}
	if m, ok := w.invF[iv]; ok {
		return m
	}
	m := map[string]bool{}
	w.fieldsOf(iv.E, iv.Var, 0, m)
	w.invF[iv] = m
	return m
}

func (w *World) invKeyed(iv *InvClause, f string) bool {
	m := w.invFields(iv)
	if f == "type_" && len(m) > 1 {
		return false
	}
	return m[f]
}

func (w *World) invMentions(iv *InvClause, f string) bool { return w.invFields(iv)[f] }

// ---- environments

func (u *Unit) rootSpecEnv(st *State) *SpecEnv {
	e := &SpecEnv{u: u, st: st, old: u.entry, vars: map[string]SVal{}, pkg: pkgOf(u.root)}
	for k, v := range u.rootArgs {
		e.vars[k] = v
	}
	return e
}

// ---- loop candidates

type metaChoice struct {
	name string
	typ  types.Type
	phi  *ssa.Phi
	t    *Term
	cell *Addr
}

func (u *Unit) candidates(fr *Frame, l *Loop, entry *State, init map[ssa.Value]Value) []*candInst {
	c := u.c
	var out []*candInst
	lid := fmt.Sprintf("%s/%s", fr.path, l.id)
	for _, p := range l.phis {
		p := p
		if init[p].T == nil {
			continue
		}
		iv := init[p].T
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			out = append(out, &candInst{key: lid + "/ge-init/" + p.Name(), src: "counter grows", ev: func(st *State, vals map[ssa.Value]Value) *Term {
				return c.Le(iv, vals[p].T)
			}})
			for _, b := range upperBounds(l, p) {
				b := b
				if bv, ok := u.boundVal(fr, b.v); ok {
					out = append(out, &candInst{key: lid + "/le-bound/" + p.Name() + b.v.Name(), src: "counter bounded", ev: func(st *State, vals map[ssa.Value]Value) *Term {
						return c.Or(c.Le(c.Add(vals[p].T, c.Int(b.off)), bv), c.Eq(vals[p].T, iv))
					}})
				}
			}
		}
		if isStructPtr(p.Type()) {
			out = append(out, &candInst{key: lid + "/nonnil/" + p.Name(), src: "pointer not nil", ev: func(st *State, vals map[ssa.Value]Value) *Term {
				return c.Not(c.Eq(vals[p].T, c.Int(0)))
			}})
		}
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			out = append(out, &candInst{key: lid + "/const/" + p.Name(), src: "flag constant", ev: func(st *State, vals map[ssa.Value]Value) *Term {
				return c.Eq(vals[p].T, iv)
			}})
		}
	}
	out = append(out, u.objCandidates(fr, l, lid, entry)...)
	var cls []*Clause
	var pkgs []string
	for i, cl := range u.w.Specs.Cands {
		if u.w.Specs.CandPkg[i] == pkgOf(fr.fn) && !hasTag(cl.Tags, "measure") {
			cls = append(cls, cl)
			pkgs = append(pkgs, u.w.Specs.CandPkg[i])
		}
	}
	if u.ctr != nil {
		for _, cl := range u.ctr.Clauses {
			if cl.Kind == "loopcand" && !hasTag(cl.Tags, "measure") {
				cls = append(cls, cl)
				pkgs = append(pkgs, u.ctr.Pkg)
			}
		}
	}
	for i, cl := range cls {
		for _, in := range u.instances(fr, l, cl, pkgs[i], entry, init) {
			in.key = lid + in.key
			out = append(out, &in.candInst)
		}
	}
	return out
}

// objCandidates: what is due of an object once it is visible may already hold
// while it is built.
func (u *Unit) objCandidates(fr *Frame, l *Loop, lid string, entry *State) []*candInst {
	var out []*candInst
	for i, r := range u.allocs {
		t := u.allocTy[r]
		if t == nil {
			continue
		}
		if !u.allocBefore(r, fr, l) {
			continue
		}
		if _, ok := structOf(t); !ok || u.c.Select(u.P(entry), r) == u.c.True {
			continue
		}
		for j, iv := range u.w.invIdx[typeKey(t)] {
			if !hasTag(iv.Tags, u.want) {
				continue
			}
			iv, r := iv, r
			out = append(out, &candInst{key: fmt.Sprintf("%s/obj%d/inv%d", lid, i, j), src: short(iv.Src), ev: func(st *State, vals map[ssa.Value]Value) *Term {
				return u.evalInv(st, iv, r)
			}})
		}
	}
	return out
}

// allocBefore: was r made on every way to the loop?
func (u *Unit) allocBefore(r *Term, fr *Frame, l *Loop) bool {
	for f := fr; f != nil; f = f.parent {
		if b := u.allocAt[r][f]; b != nil {
			to := f.cur
			if f == fr {
				to = l.head
			}
			return to != nil && b.Dominates(to)
		}
	}
	return false
}

func hasTag(ts []string, t string) bool {
	for _, x := range ts {
		if x == t {
			return true
		}
	}
	return false
}

type inst struct {
	candInst
	val func(st *State, vals map[ssa.Value]Value) SVal
}

func (u *Unit) instances(fr *Frame, l *Loop, cl *Clause, pkg string, entry *State, init map[ssa.Value]Value) []*inst {
	var out []*inst
	base := u.rootSpecEnv(entry)
	base.pkg = pkg
	base.lold = entry
	var rec func(i int, bind map[string]metaChoice, key string)
	rec = func(i int, bind map[string]metaChoice, key string) {
		// two numbers never stand for the same value
		if i > 0 {
			x := bind[cl.Vars[i-1].Name]
			for _, v := range cl.Vars[:i-1] {
				if y := bind[v.Name]; y.typ == tInt && x.phi == y.phi && x.cell == y.cell && x.t == y.t {
					return
				}
			}
		}
		if i == len(cl.Vars) {
			b := map[string]metaChoice{}
			for k, v := range bind {
				b[k] = v
			}
			mk := func(st *State, vals map[ssa.Value]Value) *SpecEnv {
				e := *base
				e.st = st
				e.vars = map[string]SVal{}
				for k, v := range base.vars {
					e.vars[k] = v
				}
				if it := stringIter(l); it != nil {
					if x := st.m[iterKey(fr, it)]; x != nil {
						e.vars["$iter"] = SVal{t: x, typ: tInt}
					}
				}
				for k, m := range b {
					if m.phi != nil {
						e.vars[k] = SVal{t: vals[m.phi].T, typ: m.typ}
						e.vars[k+"0"] = SVal{t: init[m.phi].T, typ: m.typ}
					} else if m.cell != nil {
						e.vars[k] = SVal{t: u.load(st, m.cell), typ: m.typ}
						e.vars[k+"0"] = SVal{t: u.load(entry, m.cell), typ: m.typ}
					} else {
						e.vars[k] = SVal{t: m.t, typ: m.typ}
						e.vars[k+"0"] = e.vars[k]
					}
				}
				return &e
			}
			in := &inst{}
			in.key = fmt.Sprintf("/c%s:%d%s", cl.File, cl.Line, key)
			in.src = short(cl.Src)
			in.ev = func(st *State, vals map[ssa.Value]Value) *Term { return mk(st, vals).boolean(cl.E) }
			in.val = func(st *State, vals map[ssa.Value]Value) SVal { return mk(st, vals).eval(cl.E) }
			// must evaluate
			u.dry++
			_, ok := mk(entry, init).tryEval(cl.E)
			u.dry--
			if ok {
				out = append(out, in)
			}
			return
		}
		v := cl.Vars[i]
		t, err := u.w.resolveType(v.Type, pkg)
		if err != nil {
			panic(specErr{err.Error()})
		}
		for _, p := range l.phis {
			if types.Identical(p.Type(), t) && init[p].T != nil {
				bind[v.Name] = metaChoice{typ: t, phi: p}
				rec(i+1, bind, key+"/"+p.Name())
			}
		}
		for _, x := range u.loopOperands(fr, l, t) {
			bind[v.Name] = metaChoice{typ: t, t: fr.env[x].T, cell: fr.env[x].A}
			rec(i+1, bind, key+"/"+x.Name())
		}
		if _, ok := t.Underlying().(*types.Pointer); ok {
			ms := u.metaTerms(fr, t, entry)
			if len(ms) == 0 {
				for _, x := range u.loopValues(fr, l, t) {
					if fr.env[x].T != nil {
						ms = append(ms, fr.env[x].T)
					}
				}
			}
			for k, x := range ms {
				bind[v.Name] = metaChoice{typ: t, t: x}
				rec(i+1, bind, fmt.Sprintf("%s/t%d", key, k))
			}
		}
		delete(bind, v.Name)
	}
	rec(0, map[string]metaChoice{}, "")
	return out
}

// loopOperands: values of type t from outside the loop that the loop uses.
func (u *Unit) loopOperands(fr *Frame, l *Loop, t types.Type) []ssa.Value {
	if _, ok := t.Underlying().(*types.Pointer); ok {
		return nil
	}
	return u.loopValues(fr, l, t)
}

func (u *Unit) loopValues(fr *Frame, l *Loop, t types.Type) []ssa.Value {
	var out []ssa.Value
	seen := map[*Term]bool{}
	cells := map[ssa.Value]bool{}
	for _, b := range fr.rpo {
		if !l.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				v := *op
				if v == nil || !types.Identical(v.Type(), t) {
					continue
				}
				if _, ok := v.(*ssa.Const); ok {
					continue
				}
				if d, ok := v.(ssa.Instruction); ok && l.blocks[d.Block()] {
					continue
				}
				x, ok := fr.env[v]
				if _, mk := v.(*ssa.MakeSlice); mk && ok && x.A != nil && !cells[v] {
					cells[v] = true
					out = append(out, v)
					continue
				}
				if !ok || x.T == nil || seen[x.T] {
					continue
				}
				seen[x.T] = true
				out = append(out, v)
			}
		}
	}
	return out
}

// metaTerms: terms of pointer type t reachable from the frame's parameters.
func (u *Unit) metaTerms(fr *Frame, t types.Type, st *State) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	add := func(x *Term) {
		if x != nil && !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	u.dry++
	defer func() { u.dry-- }()
	for f := fr; f != nil; f = f.parent {
		for _, p := range f.fn.Params {
			v := f.env[p].T
			if v == nil {
				continue
			}
			if types.Identical(p.Type(), t) {
				add(v)
			}
			pt, ok := p.Type().Underlying().(*types.Pointer)
			if !ok {
				continue
			}
			s, ok := structOf(pt.Elem())
			if !ok {
				continue
			}
			for i := 0; i < s.NumFields(); i++ {
				if types.Identical(s.Field(i).Type(), t) {
					add(u.load(st, u.fieldAddr(v, pt.Elem(), i)))
				}
				if s.Field(i).Embedded() {
					if s2, ok := structOf(deref(s.Field(i).Type())); ok && isStructPtr(s.Field(i).Type()) {
						in := u.load(st, u.fieldAddr(v, pt.Elem(), i))
						for j := 0; j < s2.NumFields(); j++ {
							if types.Identical(s2.Field(j).Type(), t) {
								add(u.load(st, u.fieldAddr(in, deref(s.Field(i).Type()), j)))
							}
						}
					}
				}
			}
		}
		break
	}
	if len(out) == 0 && fr.parent != nil {
		return u.metaTerms(fr.parent, t, st)
	}
	return out
}

type bound struct {
	v   ssa.Value
	off int64
}

// upperBounds finds comparisons phi(+k) < v, with v from outside the loop.
func upperBounds(l *Loop, p *ssa.Phi) []bound {
	var out []bound
	look := func(x ssa.Value, off int64) {
		for _, r := range *x.Referrers() {
			if b, ok := r.(*ssa.BinOp); ok && l.blocks[b.Block()] {
				switch b.Op.String() {
				case "<", "!=", "<=":
					if b.X == x {
						out = append(out, bound{b.Y, 0})
					}
				}
			}
		}
	}
	look(p, 0)
	for _, r := range *p.Referrers() {
		if b, ok := r.(*ssa.BinOp); ok && b.Op.String() == "+" && b.X == p {
			if k, ok := b.Y.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int {
				look(b, k.Int64())
			}
		}
	}
	return out
}

// boundVal is the term of a value that is known at the loop head.
func (u *Unit) boundVal(fr *Frame, v ssa.Value) (*Term, bool) {
	if k, ok := v.(*ssa.Const); ok {
		return u.constant(k), true
	}
	if x, ok := fr.env[v]; ok && x.T != nil {
		// defined before the loop?
		return x.T, true
	}
	return nil, false
}

func (u *Unit) measures(fr *Frame, l *Loop) []measInst {
	if u.want != "C18" {
		return nil
	}
	c := u.c
	var out []measInst
	for _, p := range l.phis {
		p := p
		for _, b := range upperBounds(l, p) {
			if in, ok := b.v.(ssa.Instruction); ok && l.blocks[in.Block()] {
				continue
			}
			if bv, ok := u.boundVal(fr, b.v); ok {
				out = append(out, measInst{src: "bound - counter", ev: func(st *State, vals map[ssa.Value]Value) *Term {
					return c.Add(c.Sub(bv, vals[p].T), c.Int(1))
				}})
			}
		}
	}
	add := func(cl *Clause, pkg string) {
		ini := map[ssa.Value]Value{}
		for _, p := range l.phis {
			ini[p] = fr.env[p]
		}
		for _, in := range u.instances(fr, l, cl, pkg, l.entrySt, ini) {
			in := in
			out = append(out, measInst{src: in.src, ev: func(st *State, vals map[ssa.Value]Value) *Term { return in.val(st, vals).t }})
		}
	}
	for i, cl := range u.w.Specs.Cands {
		if u.w.Specs.CandPkg[i] == pkgOf(fr.fn) && hasTag(cl.Tags, "measure") {
			add(cl, u.w.Specs.CandPkg[i])
		}
	}
	if u.ctr != nil {
		for _, cl := range u.ctr.Clauses {
			if cl.Kind == "loopcand" && hasTag(cl.Tags, "measure") {
				add(cl, u.ctr.Pkg)
			}
		}
	}
	if len(out) == 0 {
		// nothing to decrease: the obligation cannot be discharged
		out = append(out, measInst{src: "no measure", ev: func(st *State, vals map[ssa.Value]Value) *Term { return c.Int(0) }})
	}
	return out
}

func (u *Unit) recDecreases(env *SpecEnv, k *Contract)                      {}
func (u *Unit) recDecreasesSCC(env *SpecEnv, k *Contract, fn *ssa.Function) {}

// stringIter: the range over a string that the loop runs, if it is one.
func stringIter(l *Loop) *ssa.Range {
	for _, in := range l.head.Instrs {
		if n, ok := in.(*ssa.Next); ok && n.IsString {
			r, _ := n.Iter.(*ssa.Range)
			return r
		}
	}
	return nil
}
