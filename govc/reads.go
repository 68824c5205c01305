package main

// Reads clauses: the fields a function may read, itself or in what it calls.
// A function that reads nothing but the listed fields (and its arguments,
// variables of its own, package variables that only initialisation writes and
// functions of the allow-listed packages) gives a result that depends on
// nothing else.  Each field read outside the list is one failed obligation.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (w *World) readChecks(prop string) []*Obl {
	var out []*Obl
	for _, c := range w.Specs.Contracts {
		if c.Reads == nil || !hasTag(c.ReadTags, prop) && prop != "all" {
			continue
		}
		var f *ssa.Function
		for _, g := range w.Funcs {
			if funcKey(g) == c.Pkg+":"+c.Pattern {
				f = g
			}
		}
		if f == nil {
			out = append(out, &Obl{Name: c.Pkg + ":" + c.Pattern + "/reads", Kind: "frame", Tags: c.ReadTags, Status: "failed", Src: "no such function"})
			continue
		}
		out = append(out, w.reads(f, c)...)
	}
	return out
}

func (w *World) reads(root *ssa.Function, c *Contract) []*Obl {
	e := &effects{w: w, inits: map[*ssa.Function]bool{}, impl: map[string][]*ssa.Function{}}
	for _, f := range w.Funcs {
		if !strings.HasPrefix(pkgOf(f), "cmd/") {
			e.fns = append(e.fns, f)
			if f.Signature.Recv() != nil {
				e.impl[f.Name()] = append(e.impl[f.Name()], f)
			}
		}
	}
	for _, sp := range w.Pkgs {
		if in := sp.Func("init"); in != nil {
			e.inits[in] = true
			for _, b := range in.Blocks {
				for _, i := range b.Instrs {
					if k, ok := i.(*ssa.Call); ok && k.Call.StaticCallee() != nil && inRepo(k.Call.StaticCallee()) {
						e.inits[k.Call.StaticCallee()] = true
					}
				}
			}
		}
	}
	e.initOnly()
	written := map[*ssa.Global]bool{}
	for _, f := range e.fns {
		if e.inits[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if s, ok := i.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						written[g] = true
					}
				}
			}
		}
	}
	allowed := map[string]bool{}
	for _, r := range c.Reads {
		allowed[r] = true
	}
	seen := map[*ssa.Function]bool{root: true}
	work := []*ssa.Function{root}
	res := map[string]*Obl{}
	see := func(f *ssa.Function, pos token.Pos, what string, ok bool) {
		n := funcKey(root) + "/reads[" + what + "]"
		o := res[n]
		if o == nil {
			o = &Obl{Name: n, Kind: "frame", Tags: c.ReadTags, Status: "proved", Solver: "frame rules", Src: "reads only " + strings.Join(c.Reads, ", "), Pos: w.Fset.Position(pos).String()}
			res[n] = o
		}
		if !ok {
			o.Status, o.Solver = "failed", ""
			o.Src = fmt.Sprintf("%s reads %s, which is not in: %s", funcKey(f), what, strings.Join(c.Reads, ", "))
		}
	}
	short := func(t types.Type, k int) string {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		n := t.String()
		if i := strings.LastIndexAny(n, "./"); i >= 0 {
			n = n[i+1:]
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return n
		}
		return n + "." + st.Field(k).Name()
	}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.UnOp:
					if x.Op != token.MUL {
						break
					}
					a := x.X
					for {
						if ix, ok := a.(*ssa.IndexAddr); ok {
							a = ix.X
							if _, ok := a.Type().Underlying().(*types.Slice); ok {
								a = nil // its place was read from somewhere seen
								break
							}
							continue
						}
						break
					}
					switch y := a.(type) {
					case nil, *ssa.Alloc, *ssa.FreeVar:
					case *ssa.Global:
						see(f, x.Pos(), "package variable "+y.Name(), !written[y])
					case *ssa.FieldAddr:
						if _, ok := y.X.(*ssa.Alloc); ok {
							break
						}
						n := short(y.X.Type(), y.Field)
						see(f, x.Pos(), n, allowed[n])
					default:
						// a whole object read through a pointer
						t := a.Type().Underlying().(*types.Pointer).Elem()
						if st, ok := t.Underlying().(*types.Struct); ok {
							for k := 0; k < st.NumFields(); k++ {
								n := short(t, k)
								see(f, x.Pos(), n, allowed[n])
							}
						} else {
							see(f, x.Pos(), "memory of type "+t.String(), false)
						}
					}
				}
				if k, ok := in.(ssa.CallInstruction); ok {
					cc := k.Common()
					if _, ok := cc.Value.(*ssa.Builtin); ok {
						continue
					}
					gs := e.callees(cc)
					if len(gs) == 0 {
						see(f, in.Pos(), "call of a function value", false)
					}
					for _, g := range gs {
						if inRepo(g) {
							if !seen[g] {
								seen[g] = true
								work = append(work, g)
							}
							continue
						}
						p := ""
						if g.Pkg != nil {
							p = g.Pkg.Pkg.Path()
						} else if g.Object() != nil && g.Object().Pkg() != nil {
							p = g.Object().Pkg().Path()
						}
						see(f, in.Pos(), "call of package "+p, w.Specs.PureExt[p])
					}
				}
			}
		}
	}
	var out []*Obl
	for _, o := range res {
		out = append(out, o)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out
}
