package main

// Path slicing: obligations are discharged under the assumptions that can
// matter on their path.  Leaving assumptions out is always sound.

import (
	"fmt"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"
)

var slowLog = os.Getenv("GOVC_SLOW") != ""
var stderr = os.Stderr

// facts is what a path condition settles: truth of literals, and the constants
// a term may be equal to (in) or differs from (out).
type facts struct {
	lit  map[*Term]bool
	in   map[*Term]map[int64]bool
	out  map[*Term]map[int64]bool
	memo map[*Term]int8
}

func eqConst(t *Term) (*Term, int64, bool) {
	if t.Op == "=" && len(t.Args) == 2 {
		if n, ok := t.Args[1].isInt(); ok {
			return t.Args[0], n, true
		}
		if n, ok := t.Args[0].isInt(); ok {
			return t.Args[1], n, true
		}
	}
	return nil, 0, false
}

func (u *Unit) factsOf(r *Term) *facts {
	if u.factsMemo == nil {
		u.factsMemo = map[*Term]*facts{}
	}
	if f := u.factsMemo[r]; f != nil {
		return f
	}
	f := &facts{lit: map[*Term]bool{}, in: map[*Term]map[int64]bool{}, out: map[*Term]map[int64]bool{}}
	u.learn(f, r, true, 0)
	u.factsMemo[r] = f
	return f
}

func (f *facts) addIn(x *Term, s map[int64]bool) {
	if old := f.in[x]; old != nil {
		n := map[int64]bool{}
		for k := range old {
			if s[k] {
				n[k] = true
			}
		}
		f.in[x] = n
		return
	}
	n := map[int64]bool{}
	for k := range s {
		n[k] = true
	}
	f.in[x] = n
}

func (u *Unit) learn(f *facts, t *Term, v bool, d int) {
	if d > 200 || t.bv {
		return
	}
	switch {
	case t.Op == "not":
		u.learn(f, t.Args[0], !v, d+1)
		return
	case t.Op == "and" && v, t.Op == "or" && !v:
		for _, a := range t.Args {
			u.learn(f, a, v, d+1)
		}
		return
	case t.Op == "=>" && !v:
		u.learn(f, t.Args[0], true, d+1)
		u.learn(f, t.Args[1], false, d+1)
		return
	}
	f.lit[t] = v
	if x, n, ok := eqConst(t); ok {
		if v {
			f.addIn(x, map[int64]bool{n: true})
		} else {
			if f.out[x] == nil {
				f.out[x] = map[int64]bool{}
			}
			f.out[x][n] = true
		}
		return
	}
	if t.Op == "or" && v || t.Op == "and" && !v {
		if len(t.Args) > 64 {
			return
		}
		// what all the cases agree on
		var cs []*facts
		for _, a := range t.Args {
			g := &facts{lit: map[*Term]bool{}, in: map[*Term]map[int64]bool{}, out: map[*Term]map[int64]bool{}}
			u.learn(g, a, v, d+20)
			cs = append(cs, g)
		}
		g0 := cs[0]
		for x, b := range g0.lit {
			ok := true
			for _, g := range cs[1:] {
				if bb, has := g.lit[x]; !has || bb != b {
					ok = false
					break
				}
			}
			if ok {
				f.lit[x] = b
			}
		}
		for x, s := range g0.in {
			all := map[int64]bool{}
			for k := range s {
				all[k] = true
			}
			ok := true
			for _, g := range cs[1:] {
				s2 := g.in[x]
				if s2 == nil {
					ok = false
					break
				}
				for k := range s2 {
					all[k] = true
				}
			}
			if ok {
				f.addIn(x, all)
			}
		}
		for x, s := range g0.out {
			for k := range s {
				ok := true
				for _, g := range cs[1:] {
					if !g.out[x][k] {
						ok = false
						break
					}
				}
				if ok {
					if f.out[x] == nil {
						f.out[x] = map[int64]bool{}
					}
					f.out[x][k] = true
				}
			}
		}
	}
}

// eval3 is the value of a formula under the facts: 1, 0, or -1 for unknown.
func (f *facts) eval3(c *Ctx, t *Term, d int) int {
	if t == c.True {
		return 1
	}
	if t == c.False {
		return 0
	}
	if len(t.Args) == 0 {
		if b, ok := f.lit[t]; ok {
			if b {
				return 1
			}
			return 0
		}
		return -1
	}
	if v, ok := f.memo[t]; ok {
		return int(v)
	}
	v := f.eval3x(c, t, d)
	if f.memo == nil {
		f.memo = map[*Term]int8{}
	}
	f.memo[t] = int8(v)
	return v
}

func (f *facts) eval3x(c *Ctx, t *Term, d int) int {
	if b, ok := f.lit[t]; ok {
		if b {
			return 1
		}
		return 0
	}
	if d > 60 {
		return -1
	}
	switch t.Op {
	case "not":
		if r := f.eval3(c, t.Args[0], d+1); r >= 0 {
			return 1 - r
		}
		return -1
	case "and":
		res := 1
		for _, a := range t.Args {
			switch f.eval3(c, a, d+1) {
			case 0:
				return 0
			case -1:
				res = -1
			}
		}
		return res
	case "or":
		res := 0
		for _, a := range t.Args {
			switch f.eval3(c, a, d+1) {
			case 1:
				return 1
			case -1:
				res = -1
			}
		}
		return res
	case "=>":
		a := f.eval3(c, t.Args[0], d+1)
		if a == 0 {
			return 1
		}
		b := f.eval3(c, t.Args[1], d+1)
		if b == 1 || a == 1 && b == 0 {
			return b
		}
		return -1
	case "=":
		if x, n, ok := eqConst(t); ok {
			if s := f.in[x]; s != nil {
				if !s[n] {
					return 0
				}
				if len(s) == 1 {
					return 1
				}
			}
			if f.out[x][n] {
				return 0
			}
		}
	}
	return -1
}

// simp simplifies a formula under the facts.
func (f *facts) simp(c *Ctx, t *Term, d int) *Term {
	if t.Sort != "Bool" || d > 40 {
		return t
	}
	switch f.eval3(c, t, 0) {
	case 1:
		return c.True
	case 0:
		return c.False
	}
	switch t.Op {
	case "and", "or":
		var as []*Term
		for _, a := range t.Args {
			as = append(as, f.simp(c, a, d+1))
		}
		if t.Op == "and" {
			return c.And(as...)
		}
		return c.Or(as...)
	case "=>":
		return c.Implies(f.simp(c, t.Args[0], d+1), f.simp(c, t.Args[1], d+1))
	case "not":
		return c.Not(f.simp(c, t.Args[0], d+1))
	case "ite":
		switch f.eval3(c, t.Args[0], 0) {
		case 1:
			return f.simp(c, t.Args[1], d+1)
		case 0:
			return f.simp(c, t.Args[2], d+1)
		}
	}
	return t
}

// off: the assumption only matters on paths other than the one with facts f.
func (u *Unit) off(f *facts, a *Term) bool {
	if a.Op == "=>" && f.eval3(u.c, a.Args[0], 0) == 0 {
		return true
	}
	us := u.uses[a]
	if len(us) == 0 {
		return false
	}
	for _, r := range us {
		if f.eval3(u.c, r, 0) != 0 {
			return false
		}
	}
	return true
}

// relevant lists the assumptions not switched off by the path condition.
func (u *Unit) relevant(r *Term, at int) []*Term {
	if r == nil || r == u.c.True {
		return u.asm[:at]
	}
	f := u.factsOf(r)
	var out []*Term
	for _, a := range u.asm[:at] {
		if u.off(f, a) {
			continue
		}
		out = append(out, a)
	}
	return out
}

// sliced reports whether the unit is large enough for per-path sessions.
func (u *Unit) sliced() bool {
	if os.Getenv("GOVC_NOSLICE") != "" {
		return false
	}
	return u.nrets > 8 || len(u.asm) > 1200 || os.Getenv("GOVC_SLICE") != ""
}

// checkAll discharges the obligations, path by path when that pays.
func (u *Unit) checkAll(os_ []*Obl, rl int) int64 {
	if len(os_) == 0 {
		return 0
	}
	if p := os.Getenv("GOVC_SCRIPT"); p != "" {
		for k, o := range os_ {
			if strings.Contains(o.Name+o.Cand, p) {
				os.WriteFile(fmt.Sprintf("/tmp/script_%d.smt2", k), []byte("; "+o.Name+"\n"+u.script(o, true)), 0644)
			}
		}
	}
	if !u.sliced() {
		s := newSession(u)
		for _, o := range os_ {
			s.check(o, rl)
		}
		s.close()
		return s.ms
	}
	groups := map[*Term][]*Obl{}
	var order []*Term
	for _, o := range os_ {
		r := o.reach
		if groups[r] == nil {
			order = append(order, r)
		}
		groups[r] = append(groups[r], o)
	}
	type job struct {
		os []*Obl
		f  *facts
	}
	var jobs []*job
	for _, r := range order {
		j := &job{os: groups[r]}
		if r != nil {
			j.f = u.factsOf(r)
		}
		jobs = append(jobs, j)
	}
	prep := func(j *job) (goals []string) {
		e := NewEmitter(u.c)
		sent := 0
		for _, o := range j.os {
			for ; sent < o.At; sent++ {
				a := u.asm[sent]
				if j.f != nil && u.off(j.f, a) {
					continue
				}
				e.Assert(a)
			}
			gr := e.ref(o.neg)
			goals = append(goals, e.Take(), gr)
		}
		return goals
	}
	for _, o := range os_ {
		o.neg = u.c.Not(o.Goal) // make the term now: the workers only read
	}
	var mu sync.Mutex
	var total int64
	ch := make(chan *job)
	var wg sync.WaitGroup
	for i := 0; i < parallel(); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				ms := runJob(j.os, prep(j), rl)
				mu.Lock()
				total += ms
				mu.Unlock()
			}
		}()
	}
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	wg.Wait()
	return total
}

func parallel() int {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	return n
}

func runJob(obls []*Obl, goals []string, rl int) int64 {
	start := func() *Solver {
		s, err := StartSolver(solverBin(), "-in", "-smt2", "-T:600")
		if err != nil {
			panic(err)
		}
		s.Send(z3opts + prelude)
		return s
	}
	s := start()
	var total int64
	ask := func(g string, lim int, wall time.Duration) string {
		s.Send("(push 1)\n(assert " + g + ")\n(set-option :rlimit " + strconv.Itoa(lim) + ")\n")
		s.limit = wall
		a := s.Ask("(check-sat)\n")
		s.Send("(pop 1)\n")
		return a
	}
	for i, o := range obls {
		s.Send(goals[2*i])
		t := time.Now()
		a := ask(goals[2*i+1], rl, 5*time.Second)
		if s.dead {
			// start over, with this question first
			for try := 0; try < 2; try++ {
				s.Close()
				s = start()
				for k := 0; k <= i; k++ {
					s.Send(goals[2*k])
				}
				if try == 0 {
					a = ask(goals[2*i+1], rl, 20*time.Second)
				}
				if !s.dead {
					break
				}
			}
		}
		d := time.Since(t).Milliseconds()
		o.Ms += d
		total += d
		if slowLog && d > 500 {
			fmt.Fprintf(stderr, "    slow %dms %s %s cand=%s\n", d, a, o.Name, o.Cand)
		}
		if a == "unsat" {
			o.Status, o.Solver = "proved", "z3"
		} else {
			o.Status = "failed"
		}
	}
	s.Close()
	return total
}
