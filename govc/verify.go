package main

// Verification of one function: execution, candidate fixpoint, discharge.

import (
	"fmt"
	"go/types"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Result struct {
	Fn       *ssa.Function
	Name     string
	Obls     []*Obl
	Trusted  map[string]bool
	Inlined  map[string]bool
	Assumed  map[string]bool
	Err      string
	Wall     time.Duration
	Rounds   int
	Cands    int
	Dropped  int
	SolverMs int64
	Covered  bool
	unit     *Unit
}

type Options struct {
	Want     string
	RL       int // rlimit of the first attempt
	CandRL   int
	Fallback time.Duration
	Verbose  bool
	NoFB     bool
	Cross    bool
}

func (u *Unit) exec() {
	c := u.c
	fn := u.root
	u.reach = c.True
	st := &State{m: map[string]*Term{}}
	st.m["$next"] = u.get(st, "$next", "Int")
	st.m["$P"] = u.get(st, "$P", "(Array Int Bool)")
	u.pushAsm(c.Le(c.Int(1), u.next(st)))
	u.entry = st.clone()
	u.st = st
	u.rootArgs = map[string]SVal{}
	fr := u.newFrame(fn, nil)
	fr.path = fn.Name()
	u.rootFr, u.fr = fr, fr
	for i, p := range fn.Params {
		t := c.Const("arg_"+fmt.Sprint(i), u.sortOf(p.Type()))
		for _, f := range u.typeFacts(st, t, p.Type(), true) {
			u.pushAsm(f)
		}
		if i == 0 && fn.Signature.Recv() != nil && isStructPtr(p.Type()) {
			u.pushAsm(c.Not(c.Eq(t, c.Int(0))))
		}
		fr.env[p] = Value{T: t}
		sv := SVal{t: t, typ: p.Type()}
		if u.ctr != nil && i < len(u.ctr.Params) {
			u.rootArgs[u.ctr.Params[i]] = sv
		}
	}
	env := u.rootSpecEnv(u.entry)
	if u.ctr != nil {
		env.pkg = u.ctr.Pkg
		for _, cl := range u.ctr.Clauses {
			if cl.Kind == "requires" {
				u.assume(env.boolean(cl.E))
			}
		}
	}
	u.initMeasure(env)
	u.run(fr, fn.Blocks[0], nil, st, c.True)
	u.afterPanics(fr)
	u.nrets = len(fr.rets)
}

// exits checks the postconditions at every return.
func (u *Unit) exits(fr *Frame) {
	c := u.c
	u.nrets = len(fr.rets)
	for _, r := range fr.rets {
		if r.cond == c.False {
			continue
		}
		u.covers = append(u.covers, r.cond)
	}
	if u.ctr == nil {
		return
	}
	for _, r := range fr.rets {
		if r.cond == c.False {
			continue
		}
		u.st, u.reach = r.st, r.cond
		rs := u.root.Signature.Results()
		for i, v := range r.vals {
			if v.T != nil {
				u.escape(v.T, rs.At(i).Type())
			}
		}
		env := u.rootSpecEnv(u.st)
		env.pkg = u.ctr.Pkg
		if u.nrets > 8 {
			env.facts = u.factsOf(r.cond)
		}
		for i, v := range r.vals {
			if v.T == nil {
				v.T = c.Fresh("ret", u.sortOf(rs.At(i).Type()))
			}
			sv := SVal{t: v.T, typ: rs.At(i).Type()}
			if rs.Len() == 1 {
				env.vars["result"] = sv
			}
			env.vars[fmt.Sprintf("result%d", i+1)] = sv
			if i < len(u.ctr.Results) {
				env.vars[u.ctr.Results[i]] = sv
			}
		}
		u.curInstr = nil
		for _, cl := range u.ctr.Clauses {
			if cl.Kind != "ensures" && cl.Kind != "unfolds" {
				continue
			}
			if len(cl.Tags) == 0 {
				cl.Tags = []string{"*"}
			}
			u.oblige("ensures", cl.Tags, env.boolean(cl.E), short(cl.Src))
			u.obls[len(u.obls)-1].Pos = u.w.Fset.Position(r.pos).String()
		}
	}
}

func (u *Unit) safeExec() (err string) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case unsupported:
				err = "unsupported: " + r.msg
			case specErr:
				err = "contract does not fit the code: " + r.msg
			default:
				if os.Getenv("GOVC_PANIC") != "" {
					panic(r)
				}
				err = fmt.Sprint("engine: ", r)
			}
			if u.curInstr != nil {
				err += " at " + u.w.Fset.Position(u.curInstr.Pos()).String()
			}
		}
	}()
	if u.rootFr == nil {
		u.exec()
	} else {
		u.exits(u.rootFr)
	}
	u.addAxioms()
	return ""
}

// addAxioms adds the axioms about the uninterpreted functions in use.
func (u *Unit) addAxioms() {
	if u.specAxDone == nil {
		u.specAxDone = map[*Axiom]bool{}
	}
	done := u.specAxDone
	var pre []*Term
	sv := u.asm
	u.asm = nil
	svr := u.reach
	u.reach = u.c.True
	for {
		n := len(done)
		for _, a := range u.w.Specs.Axioms {
			if done[a] {
				continue
			}
			need := map[string]bool{}
			u.w.ufunsOf(a.E, need, 0)
			ok := len(need) > 0
			for f := range need {
				if u.c.funs["u_"+f] == nil && u.c.tab["u_"+f+"|"] == nil {
					ok = false
				}
			}
			if a.Global != "" && u.heapSrt["V:"+a.Pkg+"."+a.Global] != "" {
				ok = true
			}
			if !ok {
				continue
			}
			done[a] = true
			env := &SpecEnv{u: u, st: u.entry, old: u.entry, vars: map[string]SVal{}, pkg: a.Pkg}
			pre = append(pre, env.boolean(a.E))
			kind := "axiom"
			if a.Lemma {
				kind = "lemma"
			}
			u.trusted[kind+" "+a.Name] = true
		}
		if len(done) == n {
			break
		}
	}
	extra := u.asm
	u.asm = sv
	u.reach = svr
	if len(pre)+len(extra) > 0 {
		k := len(pre) + len(extra)
		u.asm = append(append(append([]*Term{}, extra...), pre...), u.asm...)
		for _, o := range u.obls {
			o.At += k
		}
	}
}

// ufunsOf collects the uninterpreted functions an axiom's triggers mention
// (all its functions, when it has no trigger).
func (w *World) ufunsOf(x *SExpr, out map[string]bool, d int) {
	if x == nil || d > 20 {
		return
	}
	if (x.Op == "forall" || x.Op == "exists") && len(x.Pats) > 0 {
		for _, p := range x.Pats {
			for _, y := range p {
				w.ufunsIn(y, out, d)
			}
		}
		return
	}
	if x.Op == "call" || x.Op == "id" {
		if fn := w.Specs.Fns[x.S]; fn != nil {
			if fn.Body == nil {
				out[x.S] = true
			}
		}
	}
	for _, a := range x.A {
		w.ufunsOf(a, out, d+1)
	}
}

func (w *World) ufunsIn(x *SExpr, out map[string]bool, d int) {
	if x == nil || d > 30 {
		return
	}
	if x.Op == "call" || x.Op == "id" {
		if fn := w.Specs.Fns[x.S]; fn != nil {
			if fn.Body == nil {
				if len(fn.Params) > 0 {
					out[x.S] = true
				}
			} else {
				w.ufunsIn(fn.Body, out, d+1)
			}
		}
	}
	for _, a := range x.A {
		w.ufunsIn(a, out, d+1)
	}
}

func wanted(o *Obl, want string) bool {
	if o.Cand != "" {
		return false
	}
	for _, t := range o.Tags {
		if t == want || t == "*" || want == "all" {
			return true
		}
	}
	return false
}

func wantedStrict(o *Obl, want string) bool {
	for _, t := range o.Tags {
		if t == want || want == "all" {
			return true
		}
	}
	return false
}

func Verify(w *World, fn *ssa.Function, ctr *Contract, opt Options) *Result {
	t0 := time.Now()
	res := &Result{Fn: fn, Name: funcKey(fn)}
	defer func() { res.Wall = time.Since(t0) }()
	dropped := map[string]bool{}
	var u *Unit
	for round := 1; ; round++ {
		u = NewUnit(w, fn, ctr)
		u.want = opt.Want
		u.dropped = dropped
		if e := u.safeExec(); e != "" {
			res.Err = e
			res.unit = u
			res.Obls = []*Obl{{Name: res.Name + "/translate", Kind: "translate", Tags: []string{"*"}, Status: "failed", Src: e}}
			return res
		}
		res.Rounds = round
		any := false
		for _, o := range u.obls {
			if wantedStrict(o, opt.Want) && o.Cand == "" {
				any = true
			}
		}
		for _, cl := range ctr.Clauses {
			if (cl.Kind == "ensures" || cl.Kind == "unfolds") && (len(cl.Tags) == 0 || hasTag(cl.Tags, opt.Want) || opt.Want == "all") {
				any = true
			}
		}
		if !any {
			// nothing of this property here
			res.unit = u
			for _, o := range u.obls {
				if o.Kind == "unsupported" {
					_ = o
				}
			}
			return res
		}
		nc := 0
		for _, o := range u.obls {
			if o.Cand != "" && o.Status == "" {
				nc++
			}
		}
		if nc == 0 {
			break
		}
		res.Cands = nc
		n := len(dropped)
		if u.sliced() {
			var cs []*Obl
			for _, o := range u.obls {
				if o.Cand == "" || o.Status != "" || dropped[o.Cand] {
					continue
				}
				cs = append(cs, o)
			}
			res.SolverMs += u.checkAll(cs, opt.CandRL)
			for _, o := range cs {
				if o.Status != "proved" {
					dropped[o.Cand] = true
					if os.Getenv("GOVC_DROPS") != "" {
						fmt.Fprintf(os.Stderr, "  round %d drops %s %s %s %s\n", round, o.Kind, o.Status, o.Cand, o.Src)
					}
				}
			}
		} else {
			var cs []*Obl
			for _, o := range u.obls {
				if o.Cand == "" || o.Status != "" || dropped[o.Cand] {
					continue
				}
				cs = append(cs, o)
			}
			res.SolverMs += u.tryAll(cs, opt.CandRL)
			for _, o := range cs {
				if o.Status != "proved" {
					dropped[o.Cand] = true
					if os.Getenv("GOVC_DROPS") != "" {
						fmt.Fprintln(os.Stderr, "DROP-init", o.Cand)
						if d := os.Getenv("GOVC_DROPDIR"); d != "" {
							os.WriteFile(d+"/"+strings.ReplaceAll(o.Cand, "/", "_")+".smt2", []byte(u.script(o, true)), 0644)
						}
					}
				}
			}
		}
		if opt.Verbose {
			fmt.Fprintf(os.Stderr, "  %s round %d: %d candidates, %d dropped\n", res.Name, round, nc, len(dropped)-n)
		}
		if len(dropped) == n {
			break
		}
		if round > 12 {
			// give up on all candidates still failing: drop every loop candidate
			for _, o := range u.obls {
				if o.Cand != "" {
					dropped[o.Cand] = true
				}
			}
		}
	}
	res.Dropped = len(dropped)
	res.unit = u
	if e := u.safeExec(); e != "" {
		res.Err = e
		res.Obls = []*Obl{{Name: res.Name + "/translate", Kind: "translate", Tags: []string{"*"}, Status: "failed", Src: e}}
		return res
	}
	res.Trusted, res.Inlined, res.Assumed = u.trusted, u.inlined, u.assumed
	var todo []*Obl
	for _, o := range u.obls {
		if !wanted(o, opt.Want) {
			continue
		}
		res.Obls = append(res.Obls, o)
		if o.Status != "" {
			continue
		}
		if o.Goal == u.c.False && o.Kind == "unsupported" {
			o.Status = "failed"
			continue
		}
		todo = append(todo, o)
	}
	res.SolverMs += u.checkAll(todo, opt.RL)
	s := newSession(u)
	// reachability: some exit must not be refutable
	s.flush(len(u.asm))
	cov := u.c.Or(u.covers...)
	if len(u.covers) == 0 {
		cov = u.c.True
	}
	s.s.limit = 4 * time.Second
	res.Covered = s.ask(cov, opt.CandRL) != "unsat"
	res.SolverMs += s.ms
	if f := os.Getenv("GOVC_COVER"); f != "" {
		os.WriteFile(f, []byte(s.s.log.String()), 0644)
	}
	s.close()
	if !res.Covered {
		res.Obls = append(res.Obls, &Obl{Name: res.Name + "/reachable", Kind: "cover", Tags: []string{"*"}, Status: "failed", Src: "no exit is reachable under the contract's assumptions"})
	}
	if !opt.NoFB {
		for _, o := range res.Obls {
			if o.Status == "failed" && o.Goal != nil && o.Kind != "unsupported" {
				t := time.Now()
				if b := u.fallback(o, opt); b != "" {
					o.Status, o.Solver = "proved", b
				}
				o.Ms += time.Since(t).Milliseconds()
				res.SolverMs += time.Since(t).Milliseconds()
			}
		}
	}
	return res
}

// again: what a session's state makes a solver miss, it may find from scratch
// (only for the candidates a contract states).
func (u *Unit) again(o *Obl) bool {
	if !strings.Contains(o.Cand, ".vc:") {
		return false
	}
	t := time.Now()
	u.mu.Lock()
	text := u.script(o, true)
	u.mu.Unlock()
	ok := RunScript("z3", []string{"-in", "-smt2", "-t:2000"}, text, 4*time.Second) == "unsat"
	o.Ms += time.Since(t).Milliseconds()
	if ok {
		o.Status, o.Solver = "proved", "z3"
	}
	return ok
}

// ---- solver session over one unit

type session struct {
	u    *Unit
	e    *Emitter
	s    *Solver
	sent int
	ms   int64
}

const z3opts = "(set-option :smt.mbqi false)\n(set-option :smt.auto_config false)\n(set-option :smt.relevancy 2)\n(set-option :smt.case_split 3)\n(set-option :smt.arith.nl false)\n(set-option :smt.qi.eager_threshold 100)\n"

func newSession(u *Unit) *session {
	s, err := StartSolver(solverBin(), "-in", "-smt2", "-T:600")
	if err != nil {
		panic(err)
	}
	ss := &session{u: u, e: NewEmitter(u.c), s: s}
	s.Send(z3opts + prelude)
	return ss
}

func solverBin() string {
	if b := os.Getenv("GOVC_Z3"); b != "" {
		return b
	}
	return "z3"
}

func (s *session) flush(at int) {
	for ; s.sent < at; s.sent++ {
		s.e.Assert(s.u.asm[s.sent])
	}
	s.s.Send(s.e.Take())
}

func (s *session) ask(g *Term, rl int) string {
	s.u.mu.Lock()
	r := s.e.ref(g)
	s.u.mu.Unlock()
	s.s.Send(s.e.Take())
	s.s.Send(fmt.Sprintf("(push 1)\n(assert %s)\n(set-option :rlimit %d)\n", r, rl))
	a := s.s.Ask("(check-sat)\n")
	s.s.Send("(pop 1)\n")
	return a
}

// unitsLeft counts the functions not yet done in this run.
var unitsLeft atomic.Int64

// tryAll checks candidates, in several sessions when there are many.
func (u *Unit) tryAll(cs []*Obl, rl int) int64 {
	n := len(cs) / 60
	if k := runtime.NumCPU(); int64(n) > int64(k)/max(unitsLeft.Load(), 1) {
		n = int(int64(k) / max(unitsLeft.Load(), 1))
	}
	if n < 1 {
		n = 1
	}
	var wg sync.WaitGroup
	ms := make([]int64, n)
	bad := map[string]bool{}
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			s := newSession(u)
			for i := k; i < len(cs); i += n {
				u.mu.Lock()
				skip := bad[cs[i].Cand]
				u.mu.Unlock()
				if !skip && !s.check(cs[i], rl) && !u.again(cs[i]) {
					u.mu.Lock()
					bad[cs[i].Cand] = true
					u.mu.Unlock()
				}
			}
			s.close()
			ms[k] = s.ms
		}(k)
	}
	wg.Wait()
	var t int64
	for _, m := range ms {
		t += m
	}
	return t
}

func (s *session) check(o *Obl, rl int) bool {
	if s.s.dead {
		s.restart(o.At)
	}
	s.u.mu.Lock()
	s.flush(o.At)
	g := s.u.c.Not(o.Goal)
	s.u.mu.Unlock()
	t := time.Now()
	a := s.ask(g, rl)
	d := time.Since(t).Milliseconds()
	s.ms += d
	s.u.mu.Lock()
	defer s.u.mu.Unlock()
	o.Ms += d
	if os.Getenv("GOVC_SLOW") != "" && d > 500 {
		fmt.Fprintf(os.Stderr, "    slow %dms %s %s cand=%s\n", d, a, o.Name, o.Cand)
	}
	if a == "unsat" {
		o.Status, o.Solver = "proved", "z3"
		return true
	}
	o.Status = "failed"
	return false
}

func (s *session) restart(at int) {
	n := newSession(s.u)
	n.ms = s.ms
	s.s.Close()
	*s = *n
}

func (s *session) close() { s.s.Close() }

// script is the whole obligation as one SMT-LIB file.
func (u *Unit) script(o *Obl, forZ3 bool) string {
	e := NewEmitter(u.c)
	var b strings.Builder
	if forZ3 {
		b.WriteString(z3opts)
		b.WriteString(prelude)
	} else {
		b.WriteString("(set-logic ALL)\n")
		p := strings.Replace(prelude, "(set-option :print-success false)", "", 1)
		b.WriteString(p)
	}
	for _, a := range u.sliceAsm(o) {
		e.Assert(a)
	}
	r := e.ref(u.c.Not(o.Goal))
	b.WriteString(e.Take())
	fmt.Fprintf(&b, "(assert %s)\n(check-sat)\n", r)
	s := b.String()
	if !forZ3 {
		s = cvc5Datatypes(s)
	}
	return s
}

func (u *Unit) sliceAsm(o *Obl) []*Term { return u.relevant(o.reach, o.At) }

// cvc5Datatypes rewrites z3's old datatype syntax.
func cvc5Datatypes(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "(declare-datatypes () ((") {
			in := strings.TrimSuffix(strings.TrimPrefix(l, "(declare-datatypes () (("), "))")
			j := strings.Index(in, " ")
			l = fmt.Sprintf("(declare-datatypes ((%s 0)) ((%s)))", in[:j], strings.TrimSpace(in[j:]))
		}
		out = append(out, l)
	}
	return strings.Join(out, "\n")
}

func (u *Unit) fallback(o *Obl, opt Options) string {
	z := u.script(o, true)
	cv := u.script(o, false)
	type r struct{ name, ans string }
	ch := make(chan r, 4)
	lim := opt.Fallback
	ms := fmt.Sprint(lim.Milliseconds())
	n := 0
	start := func(name, bin string, args []string, s string) {
		n++
		go func() { ch <- r{name, RunScript(bin, args, s, lim+2*time.Second)} }()
	}
	start("z3", "z3", []string{"-in", "-smt2", "-t:" + ms}, z)
	start("z3-new", "z3-new", []string{"-in", "-smt2", "-t:" + ms}, z)
	start("cvc5", "cvc5", []string{"--lang=smt2", "--tlimit=" + ms}, cv)
	for i := 0; i < n; i++ {
		x := <-ch
		if x.ans == "unsat" {
			return x.name
		}
	}
	return ""
}

// roots lists the functions verified on their own for a property.
func (w *World) roots() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range w.Funcs {
		if f.Parent() != nil || len(f.Blocks) == 0 || f.Synthetic != "" {
			continue
		}
		k := w.rootContract(f)
		if k == nil || k.Extern || k.Trusted || k.onlySummary() {
			continue
		}
		out = append(out, f)
	}
	return out
}

func sortStrings(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (u *Unit) initMeasure(env *SpecEnv) {}

var _ = types.Identical

// crossCheck asks other solvers, from scratch, about every obligation z3
// discharged in the incremental session.
func (u *Unit) crossCheck(r *Result, opt Options) map[string]int {
	out := map[string]int{}
	for _, o := range r.Obls {
		if o.Status != "proved" || o.Goal == nil || o.Goal == u.c.True {
			continue
		}
		out["asked"]++
		if a := RunScript("z3-new", []string{"-in", "-smt2", "-t:20000"}, u.script(o, true), 22*time.Second); a == "unsat" {
			out["z3-new agrees"]++
		} else if a := RunScript("cvc5", []string{"--lang=smt2", "--tlimit=20000"}, u.script(o, false), 22*time.Second); a == "unsat" {
			out["cvc5 agrees"]++
		} else {
			out["undecided by both"]++
		}
	}
	return out
}

// onlySummary: the contract only names the call's effect on ghost history.
func (k *Contract) onlySummary() bool {
	if k.NoPanic {
		return false
	}
	n := 0
	for _, c := range k.Clauses {
		if c.Kind == "summary" {
			n++
		} else if c.Kind != "modifies" {
			return false
		}
	}
	return n > 0
}
