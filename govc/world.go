package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path"
	"regexp"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/vim-jp/go-vimlparser"

type World struct {
	Prog   *ssa.Program
	Pkgs   map[string]*ssa.Package // short name -> package
	Specs  *Specs
	Fset   *token.FileSet
	Funcs  []*ssa.Function
	byKey  map[string]*ssa.Function
	mods   map[*ssa.Function]map[Mod]bool
	frsh   map[*ssa.Function]bool
	consts map[*ssa.Global]*ssa.Const
	stored map[*ssa.Global]bool
	impls  map[string][]types.Type

	mu       sync.Mutex
	tags     map[string]int
	tagTy    []types.Type
	rxIDs    map[string]int
	rxNm     []string
	rxC      map[string]*regexp.Regexp
	rxRels   map[[2]int64]*rxRel
	vimRx    map[string]string
	ctr      map[ctrKey]*Contract
	inl      map[*ssa.Function]*Contract // contracts of functions that callers inline
	defs     map[*ssa.Function][]*Contract
	used     map[*Contract]bool
	invIdx   map[string][]*InvClause
	trusted  map[string]bool
	allNamed []types.Type
	allOther []types.Type
	keyTypes map[string]types.Type
	invF     map[*InvClause]map[string]bool
	inits    map[*ssa.Package]map[*ssa.Global]*CVal
	globals  map[string]*ssa.Global
}

// Mod is one entry of an inferred modifies set: a heap key, and the parameter
// whose object is written (-1: some other object).
type Mod struct {
	Key  string
	Root int
}

func LoadWorld(repo string, sp *Specs) (*World, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Tests: false, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local")}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("load: %v", e)
		}
	}
	prog, spk := ssautil.Packages(ps, ssa.InstantiateGenerics)
	w := &World{Prog: prog, Pkgs: map[string]*ssa.Package{}, Specs: sp, Fset: prog.Fset, byKey: map[string]*ssa.Function{},
		tags: map[string]int{}, rxIDs: map[string]int{}, rxC: map[string]*regexp.Regexp{}, ctr: map[ctrKey]*Contract{}, inl: map[*ssa.Function]*Contract{}, used: map[*Contract]bool{}, trusted: map[string]bool{}}
	w.tagTy = append(w.tagTy, nil)
	w.rxNm = append(w.rxNm, "")
	for _, p := range spk {
		if p == nil {
			return nil, fmt.Errorf("package without ssa")
		}
		p.Build()
		w.Pkgs[shortPkg(p.Pkg.Path())] = p
	}
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		w.Funcs = append(w.Funcs, f)
		if f.Parent() == nil {
			w.byKey[funcKey(f)] = f
		}
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, p := range w.Pkgs {
		for _, m := range p.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				if n, ok := m.Type().(*types.Named); ok {
					w.allNamed = append(w.allNamed, n, types.NewPointer(n))
					for i := 0; i < n.NumMethods(); i++ {
						add(prog.FuncValue(n.Method(i)))
					}
				}
			}
		}
	}
	sort.Slice(w.Funcs, func(i, j int) bool { return w.Funcs[i].String() < w.Funcs[j].String() })
	sort.Slice(w.allNamed, func(i, j int) bool { return w.allNamed[i].String() < w.allNamed[j].String() })
	for _, t := range w.allNamed {
		w.tagOf(t)
	}
	for _, t := range []types.Type{tStr, tInt, tBool, errType} {
		w.tagOf(t)
	}
	// other types values are tested for or made of
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var t types.Type
				switch in := in.(type) {
				case *ssa.TypeAssert:
					t = in.AssertedType
				case *ssa.MakeInterface:
					t = in.X.Type()
				}
				if t == nil || types.IsInterface(t) {
					continue
				}
				if n := len(w.tagTy); w.tagOf(t) == n {
					w.allOther = append(w.allOther, t)
				}
			}
		}
	}
	w.globals = map[string]*ssa.Global{}
	for _, p := range w.Pkgs {
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok {
				w.globals[globalKey(g)] = g
			}
		}
	}
	w.noteKeys()
	w.scanGlobals()
	w.inferMods()
	w.invIdx = map[string][]*InvClause{}
	for _, iv := range sp.Invs {
		w.invIdx[iv.Type] = append(w.invIdx[iv.Type], iv)
	}
	return w, nil
}

func shortPkg(p string) string {
	if p == modPath {
		return "root"
	}
	if strings.HasPrefix(p, modPath+"/") {
		return strings.TrimPrefix(p, modPath+"/")
	}
	return p
}

func inRepo(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg == nil {
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return strings.HasPrefix(o.Pkg().Path(), modPath)
		}
		return false
	}
	return strings.HasPrefix(f.Pkg.Pkg.Path(), modPath)
}

func pkgOf(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return shortPkg(f.Pkg.Pkg.Path())
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return shortPkg(o.Pkg().Path())
	}
	return ""
}

// funcKey is "pkg:Name" or "pkg:Type.Name".
func funcKey(f *ssa.Function) string {
	if !inRepo(f) {
		return f.String()
	}
	n := f.Name()
	if f.Parent() != nil {
		return funcKey(f.Parent()) + "$" + n
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if nm, ok := t.(*types.Named); ok {
			n = nm.Obj().Name() + "." + n
		}
	}
	return pkgOf(f) + ":" + n
}

// typeKey names a type.
func typeKey(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return shortPkg(p.Path()) })
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func structOf(t types.Type) (*types.Struct, bool) {
	s, ok := t.Underlying().(*types.Struct)
	return s, ok
}

func (w *World) tagOf(t types.Type) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	k := typeKey(t)
	if n, ok := w.tags[k]; ok {
		return n
	}
	n := len(w.tagTy)
	w.tags[k] = n
	w.tagTy = append(w.tagTy, t)
	return n
}

// scanGlobals finds package variables that are only assigned in init.
func (w *World) scanGlobals() {
	w.consts = map[*ssa.Global]*ssa.Const{}
	w.stored = map[*ssa.Global]bool{}
	for _, p := range w.Pkgs {
		init := p.Func("init")
		cnt := map[*ssa.Global]int{}
		if init != nil {
			for _, b := range init.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok {
						if g, ok := s.Addr.(*ssa.Global); ok {
							cnt[g]++
							if c, ok := s.Val.(*ssa.Const); ok && cnt[g] == 1 {
								w.consts[g] = c
							} else {
								delete(w.consts, g)
							}
						}
					}
				}
			}
		}
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok && cnt[g] == 0 {
				// zero value, if never stored
				if b, ok := deref(g.Type()).Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					w.consts[g] = ssa.NewConst(constant.MakeInt64(0), deref(g.Type()))
				}
			}
		}
	}
	for _, f := range w.Funcs {
		if f.Synthetic != "" && f.Name() == "init" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch in := in.(type) {
					case *ssa.UnOp:
						continue
					case *ssa.Store:
						if in.Addr == g {
							w.stored[g] = true
						}
					case *ssa.FieldAddr, *ssa.IndexAddr:
						// may be written through; be conservative
						w.addrStored(in.(ssa.Value), g)
					default:
						w.stored[g] = true
					}
				}
			}
		}
	}
	for g := range w.stored {
		delete(w.consts, g)
	}
}

func (w *World) addrStored(v ssa.Value, g *ssa.Global) {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp:
		case *ssa.FieldAddr:
			w.addrStored(r, g)
		case *ssa.IndexAddr:
			w.addrStored(r, g)
		default:
			w.stored[g] = true
		}
	}
}

// ---- inferred modifies sets

const (
	rootFresh = -2
	rootOther = -1
)

func (w *World) rootOf(v ssa.Value, f *ssa.Function, seen map[ssa.Value]bool) int {
	if seen[v] {
		return rootFresh
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
		return rootFresh
	case *ssa.Const:
		return rootFresh
	case *ssa.Parameter:
		for i, p := range f.Params {
			if p == v {
				return i
			}
		}
	case *ssa.Call:
		if c := v.Call.StaticCallee(); c != nil && w.frsh[c] {
			return rootFresh
		}
	case *ssa.Phi:
		r := rootFresh
		for _, e := range v.Edges {
			x := w.rootOf(e, f, seen)
			if x == rootFresh {
				continue
			}
			if r == rootFresh {
				r = x
			} else if r != x {
				r = rootOther
			}
		}
		return r
	case *ssa.UnOp:
		// a local cell holding a fresh object
		if a, ok := v.X.(*ssa.Alloc); ok && v.Op == token.MUL {
			if _, isS := structOf(deref(a.Type())); !isS {
				return rootOther
			}
		}
	case *ssa.ChangeType:
		return w.rootOf(v.X, f, seen)
	}
	return rootOther
}

// addrKey resolves an address to a heap key and base pointer.
func (w *World) addrKey(a ssa.Value) (string, ssa.Value) {
	switch a := a.(type) {
	case *ssa.FieldAddr:
		// interior?
		switch x := a.X.(type) {
		case *ssa.FieldAddr, *ssa.IndexAddr:
			k, b := w.addrKey(x)
			if k != "" {
				return k, b
			}
		case *ssa.Alloc:
			if !x.Heap {
				return "", nil
			}
		case *ssa.Global:
			return globalKey(x), nil
		}
		return fieldKey(deref(a.X.Type()), a.Field), a.X
	case *ssa.IndexAddr:
		if _, ok := a.X.Type().Underlying().(*types.Pointer); ok {
			switch x := a.X.(type) {
			case *ssa.Alloc:
				return "", nil
			case *ssa.Global:
				return globalKey(x), nil
			default:
				return w.addrKey(x)
			}
		}
		if u, ok := a.X.(*ssa.UnOp); ok && u.Op == token.MUL {
			return w.addrKey(u.X)
		}
		return "", nil
	case *ssa.Global:
		return globalKey(a), nil
	case *ssa.Alloc:
		return "", nil
	case *ssa.FreeVar:
		return "", nil
	case *ssa.UnOp, *ssa.Phi, *ssa.Parameter, *ssa.Call, *ssa.Extract:
		// *p = struct value
		if s, ok := structOf(deref(a.Type())); ok {
			_ = s
			return "S:" + typeKey(deref(a.Type())), a
		}
		return "?:" + typeKey(deref(a.Type())), a
	}
	return "?:" + typeKey(deref(a.Type())), nil
}

func globalKey(g *ssa.Global) string {
	return "V:" + shortPkg(g.Pkg.Pkg.Path()) + "." + g.Name()
}

func fieldKey(t types.Type, i int) string {
	s, _ := structOf(t)
	return "F:" + typeKey(t) + "." + s.Field(i).Name()
}

func mapKeys(t types.Type) (string, string) {
	k := typeKey(t.Underlying())
	return "MD:" + k, "MV:" + k
}

func callees(c *ssa.CallCommon) *ssa.Function {
	if f := c.StaticCallee(); f != nil {
		return f
	}
	return nil
}

func (w *World) inferMods() {
	w.mods = map[*ssa.Function]map[Mod]bool{}
	w.frsh = map[*ssa.Function]bool{}
	// fresh results: optimistic fixpoint downwards
	for _, f := range w.Funcs {
		if f.Signature.Results().Len() >= 1 && len(f.Blocks) > 0 {
			if _, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Pointer); ok {
				w.frsh[f] = true
			}
		}
		w.mods[f] = map[Mod]bool{}
	}
	for ch := true; ch; {
		ch = false
		for _, f := range w.Funcs {
			if !w.frsh[f] {
				continue
			}
			for _, b := range f.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					if w.rootOf(r.Results[0], f, map[ssa.Value]bool{}) != rootFresh {
						w.frsh[f] = false
						ch = true
					}
				}
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for _, f := range w.Funcs {
			add := func(k string, base ssa.Value) {
				if k == "" {
					return
				}
				r := rootOther
				if base != nil {
					r = w.rootOf(base, f, map[ssa.Value]bool{})
					if r == rootFresh {
						return
					}
				}
				var ks []string
				if strings.HasPrefix(k, "S:") {
					s, _ := structOf(deref(base.Type()))
					for i := 0; i < s.NumFields(); i++ {
						ks = append(ks, fieldKey(deref(base.Type()), i))
					}
				} else {
					ks = []string{k}
				}
				for _, k := range ks {
					m := Mod{k, r}
					if !w.mods[f][m] {
						w.mods[f][m] = true
						ch = true
					}
				}
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch in := in.(type) {
					case *ssa.Store:
						k, base := w.addrKey(in.Addr)
						add(k, base)
					case *ssa.MapUpdate:
						d, v := mapKeys(in.Map.Type())
						add(d, in.Map)
						add(v, in.Map)
					case ssa.CallInstruction:
						c := in.Common()
						g := c.StaticCallee()
						if g == nil {
							if c.IsInvoke() {
								for _, g := range w.implsOf(c) {
									w.addCallMods(f, g, nil, add)
								}
							}
							continue
						}
						if !inRepo(g) {
							continue
						}
						if _, ok := w.mods[g]; !ok {
							// wrappers etc.
							w.mods[g] = map[Mod]bool{}
							w.Funcs = append(w.Funcs, g)
							ch = true
						}
						w.addCallMods(f, g, c.Args, add)
					case *ssa.MakeClosure:
						if g, ok := in.Fn.(*ssa.Function); ok {
							w.addCallMods(f, g, nil, add)
						}
					}
				}
			}
		}
	}
}

func (w *World) addCallMods(f, g *ssa.Function, args []ssa.Value, add func(string, ssa.Value)) {
	if c := w.contractFor(g); c != nil && c.Pure {
		return
	}
	for m := range w.mods[g] {
		if m.Root >= 0 && m.Root < len(args) {
			add(m.Key, args[m.Root])
		} else {
			add(m.Key, nil)
		}
	}
}

// implsOf lists the repository methods an interface call may reach.
func (w *World) implsOf(c *ssa.CallCommon) []*ssa.Function {
	it, ok := c.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for _, t := range w.allNamed {
		if types.IsInterface(t) || !types.Implements(t, it) {
			continue
		}
		sel := w.Prog.MethodSets.MethodSet(t).Lookup(c.Method.Pkg(), c.Method.Name())
		if sel == nil {
			continue
		}
		if f := w.Prog.MethodValue(sel); f != nil {
			out = append(out, f)
		}
	}
	return out
}

// ---- contracts

type ctrKey struct {
	f    *ssa.Function
	from string
}

func (w *World) contractFor(f *ssa.Function) *Contract { return w.contractAt(f, "") }

// rootContract is the contract a function itself is verified against.
func (w *World) rootContract(f *ssa.Function) *Contract {
	if k := w.contractFor(f); k != nil {
		return k
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.inl[f]
}

// contractAt: the contract of f for calls from a package; contracts of
// external functions hold in the package that declares them.
func (w *World) contractAt(f *ssa.Function, from string) *Contract {
	if inRepo(f) {
		from = ""
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	if c, ok := w.ctr[ctrKey{f, from}]; ok {
		return c
	}
	key := funcKey(f)
	var res *Contract
	for _, c := range w.Specs.Contracts {
		if c.Invoke {
			continue
		}
		ok := false
		if c.Extern {
			ok = c.Pattern == f.String() && c.Pkg == from
		} else if inRepo(f) && f.Parent() == nil {
			ok, _ = path.Match(c.Pkg+":"+c.Pattern, key)
		}
		if !ok {
			continue
		}
		w.used[c] = true
		if res == nil {
			cc := *c
			cc.Clauses = append([]*Clause(nil), c.Clauses...)
			res = &cc
		} else {
			exact := !strings.Contains(c.Pattern, "*")
			if exact {
				res.Params, res.Results = c.Params, c.Results
			}
			res.Clauses = append(res.Clauses, c.Clauses...)
			res.Trusted = res.Trusted || c.Trusted
			res.Inline = res.Inline || c.Inline
			res.Parts = res.Parts || c.Parts
			res.NoPanic = res.NoPanic || c.NoPanic
			res.Pure = res.Pure || c.Pure
			res.Skip = append(res.Skip, c.Skip...)
		}
	}
	if res != nil && res.Inline {
		// callers run its body; it is verified against its own clauses as well
		for _, cl := range res.Clauses {
			if cl.Kind == "ensures" {
				w.inl[f] = res
			}
		}
		res = nil
	}
	w.ctr[ctrKey{f, from}] = res
	return res
}

// defining lists the contracts of f with a defines clause.
func (w *World) defining(f *ssa.Function) []*Contract {
	w.mu.Lock()
	defer w.mu.Unlock()
	if r, ok := w.defs[f]; ok {
		return r
	}
	var r []*Contract
	if inRepo(f) && f.Parent() == nil {
		for _, c := range w.Specs.Contracts {
			if c.Extern || c.Invoke || c.Pkg+":"+c.Pattern != funcKey(f) {
				continue
			}
			for _, cl := range c.Clauses {
				if cl.Kind == "defines" {
					r = append(r, c)
					break
				}
			}
		}
	}
	if w.defs == nil {
		w.defs = map[*ssa.Function][]*Contract{}
	}
	w.defs[f] = r
	return r
}

// pseudo: the contract of an operation that several library functions share.
func (w *World) pseudo(name, from string) *Contract {
	for _, c := range w.Specs.Contracts {
		if c.Extern && c.Pattern == name && c.Pkg == from {
			return c
		}
	}
	return nil
}

func (w *World) invokeContract(m *types.Func, from string) *Contract {
	n := m.FullName()
	k := ""
	if r := m.Type().(*types.Signature).Recv(); r != nil {
		k = typeKey(r.Type()) + "." + m.Name()
	}
	for _, c := range w.Specs.Contracts {
		if c.Invoke && (c.Pattern == n || c.Pkg+"."+c.Pattern == k || c.Pattern == k && c.Pkg == from) {
			return c
		}
	}
	return nil
}

// resolveType resolves a type expression of the contract language.
func (w *World) resolveType(s, pkg string) (types.Type, error) {
	s = strings.TrimSpace(s)
	switch {
	case strings.HasPrefix(s, "*"):
		t, err := w.resolveType(s[1:], pkg)
		if err != nil {
			return nil, err
		}
		return types.NewPointer(t), nil
	case strings.HasPrefix(s, "[]"):
		t, err := w.resolveType(s[2:], pkg)
		if err != nil {
			return nil, err
		}
		return types.NewSlice(t), nil
	case strings.HasPrefix(s, "map["):
		d := 0
		for i := 3; i < len(s); i++ {
			if s[i] == '[' {
				d++
			} else if s[i] == ']' {
				d--
				if d == 0 {
					k, err := w.resolveType(s[4:i], pkg)
					if err != nil {
						return nil, err
					}
					v, err := w.resolveType(s[i+1:], pkg)
					if err != nil {
						return nil, err
					}
					return types.NewMap(k, v), nil
				}
			}
		}
	}
	if strings.HasPrefix(s, "func(") {
		// func(T, ...) R
		j := strings.LastIndex(s, ")")
		var ps []*types.Var
		for _, x := range splitTop(s[5:j], ',') {
			t, err := w.resolveType(x, pkg)
			if err != nil {
				return nil, err
			}
			ps = append(ps, types.NewVar(0, nil, "", t))
		}
		var rs []*types.Var
		if r := strings.TrimSpace(s[j+1:]); r != "" {
			t, err := w.resolveType(r, pkg)
			if err != nil {
				return nil, err
			}
			rs = append(rs, types.NewVar(0, nil, "", t))
		}
		return types.NewSignatureType(nil, nil, nil, types.NewTuple(ps...), types.NewTuple(rs...), false), nil
	}
	switch s {
	case "int":
		return types.Typ[types.Int], nil
	case "bool":
		return types.Typ[types.Bool], nil
	case "string":
		return types.Typ[types.String], nil
	case "byte":
		return types.Typ[types.Byte], nil
	case "any":
		return types.NewInterfaceType(nil, nil), nil
	case "error":
		return types.Universe.Lookup("error").Type(), nil
	}
	p := pkg
	n := s
	if i := strings.LastIndex(s, "."); i >= 0 {
		p, n = s[:i], s[i+1:]
	}
	if sp := w.Pkgs[p]; sp != nil {
		if o := sp.Pkg.Scope().Lookup(n); o != nil {
			if tn, ok := o.(*types.TypeName); ok {
				return tn.Type(), nil
			}
		}
	} else {
		for _, q := range w.Prog.AllPackages() {
			if q.Pkg.Path() == p || q.Pkg.Name() == p {
				if o := q.Pkg.Scope().Lookup(n); o != nil {
					if tn, ok := o.(*types.TypeName); ok {
						return tn.Type(), nil
					}
				}
			}
		}
	}
	return nil, fmt.Errorf("unknown type %q in %s", s, pkg)
}

// noteKeys records the Go type behind every heap key.
func (w *World) noteKeys() {
	w.keyTypes = map[string]types.Type{}
	note := func(t types.Type) {
		if s, ok := structOf(t); ok {
			for i := 0; i < s.NumFields(); i++ {
				w.keyTypes[fieldKey(t, i)] = s.Field(i).Type()
			}
		}
	}
	for _, t := range w.allNamed {
		note(t)
	}
	for _, p := range w.Pkgs {
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok {
				w.keyTypes[globalKey(g)] = deref(g.Type())
			}
		}
	}
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.MapUpdate:
					d, v := mapKeys(in.Map.Type())
					w.keyTypes[d], w.keyTypes[v] = in.Map.Type(), in.Map.Type()
				case *ssa.FieldAddr:
					note(deref(in.X.Type()))
				}
			}
		}
	}
}
