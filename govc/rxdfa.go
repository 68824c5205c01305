package main

// Languages of regular expressions: which strings contain a match.  Two
// patterns are compared by exploring the product of their automata, so that
// the predicate a pattern denotes does not depend on how it is written.

import (
	"fmt"
	"regexp"
	"regexp/syntax"
	"sort"
)

type rxAut struct {
	prog *syntax.Prog
}

func rxCompile(p string) (*rxAut, bool) {
	re, err := syntax.Parse(p, syntax.Perl)
	if err != nil {
		return nil, false
	}
	prog, err := syntax.Compile(re.Simplify())
	if err != nil {
		return nil, false
	}
	return &rxAut{prog}, true
}

func (a *rxAut) bounds(m map[rune]bool) bool {
	for i := range a.prog.Inst {
		in := &a.prog.Inst[i]
		switch in.Op {
		case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
			if len(in.Rune) == 1 {
				if syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
					return false
				}
				m[in.Rune[0]], m[in.Rune[0]+1] = true, true
			}
			for j := 0; j+1 < len(in.Rune); j += 2 {
				m[in.Rune[j]], m[in.Rune[j+1]+1] = true, true
			}
		}
	}
	return true
}

// a state is the sorted set of program counters waiting before the next
// position, or accepting
type rxState struct {
	pcs []int
	acc bool
}

func (s rxState) key() string { return fmt.Sprint(s.pcs, s.acc) }

// step: at a position between prev and next (-1: none), add a new start, close
// under empty moves, and consume next.
func (a *rxAut) step(s rxState, prev, next rune) rxState {
	if s.acc {
		return s
	}
	flags := syntax.EmptyOpContext(prev, next)
	seen := map[int]bool{}
	out := map[int]bool{}
	acc := false
	var visit func(pc int)
	visit = func(pc int) {
		if seen[pc] {
			return
		}
		seen[pc] = true
		in := &a.prog.Inst[pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			visit(int(in.Out))
			visit(int(in.Arg))
		case syntax.InstCapture, syntax.InstNop:
			visit(int(in.Out))
		case syntax.InstEmptyWidth:
			if syntax.EmptyOp(in.Arg)&^flags == 0 {
				visit(int(in.Out))
			}
		case syntax.InstMatch:
			acc = true
		case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
			if next >= 0 && in.MatchRune(next) {
				out[int(in.Out)] = true
			}
		}
	}
	for _, pc := range s.pcs {
		visit(pc)
	}
	visit(a.prog.Start)
	if acc {
		return rxState{acc: true}
	}
	var r rxState
	for pc := range out {
		r.pcs = append(r.pcs, pc)
	}
	sort.Ints(r.pcs)
	return r
}

type rxRel struct{ le, ge, disj bool }

// relate compares the languages of two Go patterns.
func rxRelate(p, q string) (rxRel, bool) {
	a, ok1 := rxCompile(p)
	b, ok2 := rxCompile(q)
	if !ok1 || !ok2 {
		return rxRel{}, false
	}
	m := map[rune]bool{0: true, '\n': true, '\n' + 1: true, '0': true, '9' + 1: true, 'A': true, 'Z' + 1: true, '_': true, '_' + 1: true, 'a': true, 'z' + 1: true}
	if !a.bounds(m) || !b.bounds(m) {
		return rxRel{}, false
	}
	var reps []rune
	for r := range m {
		if r >= 0 && r <= 0x10FFFF {
			reps = append(reps, r)
		}
	}
	sort.Slice(reps, func(i, j int) bool { return reps[i] < reps[j] })
	pc := func(r rune) rune { // what of the previous rune matters
		switch {
		case r < 0 || r == '\n':
			return r
		case r >= '0' && r <= '9' || r >= 'A' && r <= 'Z' || r == '_' || r >= 'a' && r <= 'z':
			return 'a'
		}
		return ' '
	}
	type st struct {
		a, b rxState
		prev rune
	}
	rel := rxRel{true, true, true}
	seen := map[string]bool{}
	work := []st{{prev: -1}}
	for n := 0; len(work) > 0; n++ {
		if n > 20000 {
			return rxRel{}, false
		}
		s := work[len(work)-1]
		work = work[:len(work)-1]
		k := s.a.key() + s.b.key() + fmt.Sprint(s.prev)
		if seen[k] {
			continue
		}
		seen[k] = true
		ea, eb := a.step(s.a, s.prev, -1).acc, b.step(s.b, s.prev, -1).acc
		if ea && !eb {
			rel.le = false
		}
		if eb && !ea {
			rel.ge = false
		}
		if ea && eb {
			rel.disj = false
		}
		if !rel.le && !rel.ge && !rel.disj {
			return rel, true
		}
		if s.a.acc && s.b.acc {
			continue
		}
		for _, r := range reps {
			work = append(work, st{a.step(s.a, s.prev, r), b.step(s.b, s.prev, r), pc(r)})
		}
	}
	return rel, true
}

// rxCanon is the identity of the language of a Go pattern.  Called with w.mu
// held.
func (w *World) rxCanonID(g string) int {
	if n, ok := w.rxIDs[g]; ok {
		return n
	}
	for i := 1; i < len(w.rxNm); i++ {
		if rel, ok := rxRelate(g, w.rxNm[i]); ok && rel.le && rel.ge {
			w.rxIDs[g] = i
			return i
		}
	}
	n := len(w.rxNm)
	w.rxIDs[g] = n
	w.rxNm = append(w.rxNm, g)
	return n
}

// rxGoID identifies the language of a Go pattern.
func (w *World) rxGoID(g string) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.rxCanonID(g)
}

// rxID identifies the language of a Vim pattern.
func (w *World) rxID(r string) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	g, ok := vimToGo(r)
	if ok {
		if _, err := regexp.Compile(g); err != nil {
			ok = false
		}
	}
	if !ok {
		g = "\x00vim:" + r
		if n, ok := w.rxIDs[g]; ok {
			return n
		}
		n := len(w.rxNm)
		w.rxIDs[g] = n
		w.rxNm = append(w.rxNm, g)
		return n
	}
	return w.rxCanonID(g)
}

func (w *World) rxName(id int64) string {
	w.mu.Lock()
	defer w.mu.Unlock()
	if id <= 0 || int(id) >= len(w.rxNm) {
		return ""
	}
	return w.rxNm[id]
}

// rxEvalID evaluates a language on a literal.
func (w *World) rxEvalID(id int64, s string) (bool, bool) {
	g := w.rxName(id)
	w.mu.Lock()
	defer w.mu.Unlock()
	re, ok := w.rxC[g]
	if !ok {
		if g != "" && g[0] != 0 {
			re, _ = regexp.Compile(g)
		}
		w.rxC[g] = re
	}
	if re == nil {
		return false, false
	}
	return re.MatchString(s), true
}

func (w *World) rxRelID(a, b int64) (rxRel, bool) {
	p, q := w.rxName(a), w.rxName(b)
	if p == "" || q == "" || p[0] == 0 || q[0] == 0 {
		return rxRel{}, false
	}
	k := [2]int64{a, b}
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.rxRels == nil {
		w.rxRels = map[[2]int64]*rxRel{}
	}
	if r, ok := w.rxRels[k]; ok {
		if r == nil {
			return rxRel{}, false
		}
		return *r, true
	}
	r, ok := rxRelate(p, q)
	if ok {
		w.rxRels[k] = &r
	} else {
		w.rxRels[k] = nil
	}
	return r, ok
}
