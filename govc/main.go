package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

func main() {
	if p := os.Getenv("GOVC_PROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: govc check|list|dump ...")
		os.Exit(2)
	}
	fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	prop := fs.String("prop", "", "")
	fnPat := fs.String("fn", "", "only functions whose key contains this")
	verbose := fs.Bool("v", false, "")
	rl := fs.Int("rl", 40000000, "")
	crl := fs.Int("crl", 6000000, "")
	fb := fs.Duration("fb", 20*time.Second, "")
	nofb := fs.Bool("nofb", false, "")
	out := fs.String("out", "", "write the result as JSON")
	dump := fs.String("dump", "", "write the SMT script of failed obligations here")
	only := fs.String("only", "", "only contract files whose name contains this")
	tier := fs.String("tier", "quick", "")
	fs.Parse(os.Args[2:])
	checking = *prop
	if os.Args[1] == "run" {
		opt := Options{Want: *prop, RL: *rl, CandRL: *crl, Fallback: *fb, Cross: *tier == "thorough"}
		os.Exit(runProperty(runOpts{*repo, *verif, *prop, *tier}, opt))
	}
	sp, err := LoadSpecsOnly(filepath.Join(*verif, "contracts"), *only)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	w, err := LoadWorld(*repo, sp)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	switch os.Args[1] {
	case "list":
		for _, f := range w.roots() {
			fmt.Println(funcKey(f))
		}
	case "tables":
		for _, td := range sp.Tables {
			if err := w.dumpTables(td.Pkg, td.Names); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
		}
	case "rx":
		rxTable(w)
	case "ssa":
		for _, f := range w.Funcs {
			if strings.Contains(funcKey(f), *fnPat) {
				f.WriteTo(os.Stdout)
			}
		}
	case "check":
		opt := Options{Want: *prop, RL: *rl, CandRL: *crl, Fallback: *fb, Verbose: *verbose, NoFB: *nofb}
		rep := runCheck(w, opt, *fnPat, *dump)
		rep.print(*verbose)
		if *out != "" {
			b, _ := json.MarshalIndent(rep.JSON(), "", " ")
			os.WriteFile(*out, b, 0644)
		}
		if len(rep.failed()) > 0 {
			pprof.StopCPUProfile()
			os.Exit(1)
		}
	}
}

type Report struct {
	Prop    string
	Results []*Result
	Extra   []*Obl
	Wall    time.Duration
	w       *World
	cross   map[string]int
}

func runCheck(w *World, opt Options, pat, dump string) *Report {
	t0 := time.Now()
	rep := &Report{Prop: opt.Want, w: w}
	roots := w.roots()
	var todo []*ssa.Function
	for _, f := range roots {
		if pat == "" || strings.Contains(funcKey(f), pat) {
			todo = append(todo, f)
		}
	}
	// bigger first
	sort.SliceStable(todo, func(i, j int) bool { return len(todo[i].Blocks) > len(todo[j].Blocks) })
	res := make([]*Result, len(todo))
	var wg sync.WaitGroup
	var mu sync.Mutex
	rep.cross = map[string]int{}
	sem := make(chan bool, runtime.NumCPU())
	unitsLeft.Store(int64(len(todo)))
	for i, f := range todo {
		wg.Add(1)
		sem <- true
		go func(i int, f *ssa.Function) {
			defer wg.Done()
			defer func() { <-sem }()
			res[i] = Verify(w, f, w.rootContract(f), opt)
			unitsLeft.Add(-1)
			if dump != "" {
				for k, o := range res[i].Obls {
					if o.Status != "proved" && o.Goal != nil {
						os.MkdirAll(dump, 0755)
						os.WriteFile(filepath.Join(dump, fmt.Sprintf("%s_%d.smt2", sanitize(res[i].Name), k)), []byte("; "+o.Name+"\n"+res[i].unit.script(o, true)), 0644)
					}
				}
			}
			if opt.Cross && res[i].unit != nil {
				c := res[i].unit.crossCheck(res[i], opt)
				mu.Lock()
				for k, n := range c {
					rep.cross[k] += n
				}
				mu.Unlock()
			}
			if res[i].unit != nil {
				res[i].unit = nil
			}
		}(i, f)
	}
	wg.Wait()
	rep.Results = res
	rep.Extra = w.extraChecks(opt.Want)
	rep.Wall = time.Since(t0)
	return rep
}

func (r *Report) failed() []*Obl {
	var out []*Obl
	for _, x := range r.Results {
		for _, o := range x.Obls {
			if o.Status != "proved" {
				out = append(out, o)
			}
		}
	}
	for _, o := range r.Extra {
		if o.Status != "proved" {
			out = append(out, o)
		}
	}
	return out
}

func (r *Report) counts() (n, ok int) {
	for _, x := range r.Results {
		for _, o := range x.Obls {
			n++
			if o.Status == "proved" {
				ok++
			}
		}
	}
	for _, o := range r.Extra {
		n++
		if o.Status == "proved" {
			ok++
		}
	}
	return
}

func (r *Report) print(v bool) {
	n, ok := r.counts()
	for _, x := range r.Results {
		if v && len(x.Obls) > 0 {
			k := 0
			for _, o := range x.Obls {
				if o.Status == "proved" {
					k++
				}
			}
			fmt.Printf("%-50s %3d/%3d  rounds %d cands %d dropped %d  %dms solver, %dms wall\n", x.Name, k, len(x.Obls), x.Rounds, x.Cands, x.Dropped, x.SolverMs, x.Wall.Milliseconds())
		}
	}
	for _, o := range r.failed() {
		fmt.Printf("FAILED %s (%s) %s\n", o.Name, o.Pos, o.Src)
	}
	fmt.Printf("%s: %d obligations, %d discharged, %.1fs\n", r.Prop, n, ok, r.Wall.Seconds())
}

func (r *Report) JSON() any {
	n, ok := r.counts()
	m := map[string]any{"property": r.Prop, "obligations": n, "discharged": ok, "wall_s": r.Wall.Seconds()}
	by := map[string]int{}
	var fns []any
	tr, as, in := map[string]bool{}, map[string]bool{}, map[string]bool{}
	var ms int64
	all := []*Obl{}
	for _, x := range r.Results {
		if len(x.Obls) == 0 {
			continue
		}
		fns = append(fns, map[string]any{"function": x.Name, "obligations": len(x.Obls)})
		ms += x.SolverMs
		for k := range x.Trusted {
			tr[k] = true
		}
		for k := range x.Assumed {
			as[k] = true
		}
		for k := range x.Inlined {
			in[k] = true
		}
		all = append(all, x.Obls...)
	}
	all = append(all, r.Extra...)
	var fl []any
	for _, o := range all {
		if o.Status == "proved" {
			by[o.Solver]++
		} else {
			fl = append(fl, map[string]any{"name": o.Name, "kind": o.Kind, "pos": o.Pos, "detail": o.Src})
		}
	}
	m["functions"] = fns
	m["by_backend"] = by
	m["solver_ms"] = ms
	m["trusted"] = sortStrings(tr)
	m["assumed"] = sortStrings(as)
	m["inlined"] = sortStrings(in)
	m["failed"] = fl
	return m
}

// extraChecks: statements about the specification and the read-only tables.
func (w *World) extraChecks(prop string) []*Obl {
	var out []*Obl
	if w.Specs.FrameTags[prop] {
		out = append(out, w.effectChecks(prop)...)
	}
	out = append(out, w.readChecks(prop)...)
	for _, td := range w.Specs.Tables {
		if hasTag(td.Tags, prop) || prop == "all" {
			out = append(out, w.tableChecks(td, w.Specs.Dir)...)
		}
	}
	for _, a := range w.Specs.Chk {
		if !hasTag(a.Tags, prop) && prop != "all" {
			continue
		}
		o := &Obl{Name: "check/" + a.Name, Kind: "check", Tags: a.Tags, Status: "failed", Src: short(a.Src)}
		out = append(out, o)
		func() {
			defer func() {
				if r := recover(); r != nil {
					o.Src += fmt.Sprint(" ", r)
				}
			}()
			u := NewUnit(w, nil, nil)
			st := &State{m: map[string]*Term{}}
			u.entry, u.st, u.reach = st, st, u.c.True
			env := &SpecEnv{u: u, st: st, old: st, vars: map[string]SVal{}, pkg: a.Pkg}
			o.Goal = env.boolean(a.E)
			if o.Goal == u.c.True {
				o.Status, o.Solver = "proved", "evaluation"
				return
			}
			o.At = len(u.asm)
			s := newSession(u)
			s.check(o, 40000000)
			s.close()
		}()
	}
	return out
}
