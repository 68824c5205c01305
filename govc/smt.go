package main

// Solver sessions.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Emitter turns terms into SMT-LIB text, sharing subterms with define-fun.
type Emitter struct {
	c     *Ctx
	out   *strings.Builder
	done  map[int]string
	decl  map[string]bool
	lits  []*Term
	regs  []int64
	litID map[string]int
	rxs   map[int64]bool
}

func NewEmitter(c *Ctx) *Emitter {
	return &Emitter{c: c, out: &strings.Builder{}, done: map[int]string{}, decl: map[string]bool{}, litID: map[string]int{}, rxs: map[int64]bool{}}
}

const prelude = `
(set-option :print-success false)
(declare-sort Str 0)
(declare-datatypes () ((Iface (mkI (itag Int) (ival Int)))))
(declare-fun slen (Str) Int)
(declare-fun scat (Str Str) Str)
(declare-fun strid (Str) Int)
(declare-fun ssub (Str Int Int) Str)
(declare-fun sat (Str Int) Int)
(declare-fun slt (Str Str) Bool)
(declare-fun boxS (Str) Int)
(declare-fun unboxS (Int) Str)
(declare-fun rx (Str Int) Bool)
(assert (forall ((s Str)) (! (>= (slen s) 0) :pattern ((slen s)))))
(assert (forall ((s Str) (t Str)) (! (= (slen (scat s t)) (+ (slen s) (slen t))) :pattern ((scat s t)))))
(assert (forall ((s Str) (t Str) (u Str)) (! (= (scat (scat s t) u) (scat s (scat t u))) :pattern ((scat (scat s t) u)))))
(assert (forall ((s Str)) (! (= (unboxS (boxS s)) s) :pattern ((boxS s)))))
`

func (e *Emitter) srt(s string) string {
	if d, ok := e.c.dts[s]; ok {
		e.datatype(d)
	}
	if strings.HasPrefix(s, "(Array ") {
		k, v := arrSorts(s)
		e.srt(k)
		e.srt(v)
	}
	return s
}

func (e *Emitter) datatype(d *DtDecl) {
	k := "dt:" + d.Sort
	if e.decl[k] {
		return
	}
	e.decl[k] = true
	if d.Sort == "Iface" {
		return
	}
	for _, s := range d.Srt {
		e.srt(s)
	}
	fmt.Fprintf(e.out, "(declare-datatypes () ((%s (%s", d.Sort, d.Ctor)
	for i := range d.Sel {
		fmt.Fprintf(e.out, " (%s %s)", d.Sel[i], d.Srt[i])
	}
	fmt.Fprintf(e.out, "))))\n")
}

func (e *Emitter) lit(t *Term) string {
	id, ok := e.litID[t.Lit]
	if !ok {
		id = len(e.litID) + 1
		e.litID[t.Lit] = id
		n := fmt.Sprintf("s!%d", id)
		fmt.Fprintf(e.out, "(declare-const %s Str) ; %q\n(assert (= (slen %s) %d))\n(assert (= (strid %s) %d))\n", n, t.Lit, n, len(t.Lit), n, id)
		if t.Lit == "" {
			fmt.Fprintf(e.out, "(assert (forall ((s Str)) (! (=> (= (slen s) 0) (= s %s)) :pattern ((slen s)))))\n", n)
			fmt.Fprintf(e.out, "(assert (forall ((s Str)) (! (= (scat s %s) s) :pattern ((scat s %s)))))\n", n, n)
			fmt.Fprintf(e.out, "(assert (forall ((s Str)) (! (= (scat %s s) s) :pattern ((scat %s s)))))\n", n, n)
		}
		for i := 0; i < len(t.Lit) && len(t.Lit) <= 4; i++ {
			fmt.Fprintf(e.out, "(assert (= (sat %s %d) %d))\n", n, i, t.Lit[i])
		}
		e.lits = append(e.lits, t)
		if 2 <= len(t.Lit) && len(t.Lit) <= 8 && t.Lit[0] < 0x80 && e.spelled() {
			a, b := e.lit(&Term{Op: t.Op, Sort: t.Sort, Lit: t.Lit[:1]}), e.lit(&Term{Op: t.Op, Sort: t.Sort, Lit: t.Lit[1:]})
			fmt.Fprintf(e.out, "(assert (= %s (scat %s %s)))\n", n, a, b)
		}
		for _, r := range e.regs {
			e.rxfact(t, r)
		}
	}
	return fmt.Sprintf("s!%d", id)
}

func (e *Emitter) spelled() bool {
	for _, f := range e.c.W.Specs.Spelled {
		if e.c.funs["u_"+f] != nil {
			return true
		}
	}
	return false
}

func (e *Emitter) rxfact(t *Term, r int64) {
	v, ok := e.c.W.rxEvalID(r, t.Lit)
	if !ok {
		return
	}
	fmt.Fprintf(e.out, "(assert (= (rx %s %d) %v))\n", e.lit(t), r, v)
}

// useRx makes what is known of a language available: its value on the
// literals, the length of its elements, and how it relates to the others.
func (e *Emitter) useRx(id int64) {
	if e.rxs[id] {
		return
	}
	e.rxs[id] = true
	w := e.c.W
	for n := 1; n <= 2; n++ {
		if rel, ok := w.rxRelID(id, int64(w.rxGoID(fmt.Sprintf("^[\\x00-\\x7f]{%d}$", n)))); ok && rel.le {
			fmt.Fprintf(e.out, "(assert (forall ((s Str)) (! (=> (rx s %d) (= (slen s) %d)) :pattern ((rx s %d)))))\n", id, n, id)
		}
	}
	for _, o := range e.regs {
		rel, ok := w.rxRelID(id, o)
		if !ok {
			continue
		}
		if rel.le {
			fmt.Fprintf(e.out, "(assert (forall ((s Str)) (! (=> (rx s %d) (rx s %d)) :pattern ((rx s %d)))))\n", id, o, id)
		}
		if rel.ge {
			fmt.Fprintf(e.out, "(assert (forall ((s Str)) (! (=> (rx s %d) (rx s %d)) :pattern ((rx s %d)))))\n", o, id, o)
		}
		if rel.disj {
			fmt.Fprintf(e.out, "(assert (forall ((s Str)) (! (not (and (rx s %d) (rx s %d))) :pattern ((rx s %d) (rx s %d)))))\n", o, id, o, id)
		}
	}
	e.regs = append(e.regs, id)
	ls := append([]*Term(nil), e.lits...)
	for _, l := range ls {
		e.rxfact(l, id)
	}
}

var builtinOps = map[string]bool{"and": true, "or": true, "not": true, "=>": true, "ite": true, "=": true, "select": true, "store": true, "+": true, "-": true, "<": true, "<=": true, "div": true, "mod": true, "*": true, "distinct": true,
	"mkI": true, "itag": true, "ival": true, "slen": true, "scat": true, "strid": true, "ssub": true, "sat": true, "slt": true, "boxS": true, "unboxS": true, "rx": true}

// ref returns text denoting t; it may emit declarations first.
func (e *Emitter) ref(t *Term) string {
	if s, ok := e.done[t.id]; ok {
		return s
	}
	if t.isStr() {
		return e.lit(t)
	}
	if len(t.Args) == 0 {
		if strings.HasPrefix(t.Op, "?") {
			return "|" + t.Op + "|"
		}
		if t.Op == "true" || t.Op == "false" {
			return t.Op
		}
		if n, ok := t.isInt(); ok {
			if n < 0 {
				return fmt.Sprintf("(- %d)", -n)
			}
			return t.Op
		}
		n := "|" + t.Op + "|"
		if !e.decl[n] {
			e.decl[n] = true
			fmt.Fprintf(e.out, "(declare-const %s %s)\n", n, e.srt(t.Sort))
		}
		e.done[t.id] = n
		return n
	}
	s := e.body(t)
	if t.bv {
		return s
	}
	n := "t" + strconv.Itoa(t.id)
	if t.Op == "ite" && e.srt(t.Sort) != "Bool" {
		// a constant: a pattern may not mention ite
		fmt.Fprintf(e.out, "(declare-const %s %s)\n(assert (= %s %s))\n", n, e.srt(t.Sort), n, s)
		s = n
	} else if len(s) > 60 {
		fmt.Fprintf(e.out, "(define-fun %s () %s %s)\n", n, e.srt(t.Sort), s)
		s = n
	}
	e.done[t.id] = s
	return s
}

func (e *Emitter) body(t *Term) string {
	var b strings.Builder
	if t.Bound != nil {
		q := "forall"
		if strings.HasPrefix(t.Op, "exists") {
			q = "exists"
		}
		b.WriteString("(" + q + " (")
		for _, x := range t.Bound {
			fmt.Fprintf(&b, "(|%s| %s)", x.Op, e.srt(x.Sort))
		}
		b.WriteString(") ")
		if len(t.Args) > 1 {
			b.WriteString("(! " + e.ref(t.Args[0]))
			for _, p := range t.Args[1:] {
				b.WriteString(" :pattern (")
				for i, x := range p.Args {
					if i > 0 {
						b.WriteByte(' ')
					}
					b.WriteString(e.ref(x))
				}
				b.WriteString(")")
			}
			b.WriteString(")")
		} else {
			b.WriteString(e.ref(t.Args[0]))
		}
		b.WriteString(")")
		return b.String()
	}
	op := t.Op
	if strings.HasPrefix(op, "(as const") {
		e.srt(t.Sort)
	} else if d := e.c.ctors[op]; d != nil {
		e.datatype(d)
	} else if d := e.c.sels[op]; d != nil {
		e.datatype(d)
	} else if !builtinOps[op] {
		f := e.c.funs[op]
		if f == nil {
			panic("undeclared function " + op)
		}
		if !e.decl["f:"+op] {
			e.decl["f:"+op] = true
			var as []string
			for _, s := range f.Args {
				as = append(as, e.srt(s))
			}
			fmt.Fprintf(e.out, "(declare-fun |%s| (%s) %s)\n", op, strings.Join(as, " "), e.srt(f.Res))
		}
		op = "|" + op + "|"
	}
	if op == "rx" {
		if n, ok := t.Args[1].isInt(); ok {
			e.useRx(n)
		}
	}
	b.WriteString("(" + op)
	for _, a := range t.Args {
		b.WriteByte(' ')
		b.WriteString(e.ref(a))
	}
	b.WriteByte(')')
	return b.String()
}

func (e *Emitter) Assert(t *Term) {
	if t == e.c.True {
		return
	}
	s := e.ref(t)
	fmt.Fprintf(e.out, "(assert %s)\n", s)
}

func (e *Emitter) Take() string {
	s := e.out.String()
	e.out.Reset()
	return s
}

// Solver is one interactive process.
type Solver struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	log     strings.Builder
	dead    bool
	calls   int
	tainted bool
	limit   time.Duration
}

func StartSolver(bin string, args ...string) (*Solver, error) {
	cmd := exec.Command(bin, args...)
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	cmd.Stderr = nil
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return &Solver{cmd: cmd, in: in, out: bufio.NewReaderSize(out, 1<<16)}, nil
}

func (s *Solver) Send(t string) {
	if s.dead || t == "" {
		return
	}
	s.log.WriteString(t)
	if _, err := io.WriteString(s.in, t); err != nil {
		s.dead = true
	}
}

// Ask sends a command and reads one answer line.
func (s *Solver) Ask(t string) string {
	s.Send(t)
	s.calls++
	if s.dead {
		return "dead"
	}
	if s.limit > 0 {
		p := s.cmd.Process
		w := time.AfterFunc(s.limit, func() { p.Kill() })
		defer w.Stop()
	}
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.dead = true
			return "dead"
		}
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		if strings.HasPrefix(l, "(error") {
			fmt.Fprintln(os.Stderr, "solver error:", l)
			if os.Getenv("GOVC_DEBUG") != "" {
				os.WriteFile("/tmp/govc_err.smt2", []byte(s.log.String()), 0644)
			}
			if strings.Contains(l, "canceled") || strings.Contains(l, "memory") {
				return "unknown"
			}
			s.tainted = true
			continue
		}
		if s.tainted {
			return "error"
		}
		return l
	}
}

func (s *Solver) Close() {
	if s.in != nil {
		io.WriteString(s.in, "(exit)\n")
		s.in.Close()
	}
	done := make(chan struct{})
	go func() { s.cmd.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(300 * time.Millisecond):
		s.cmd.Process.Kill()
		<-done
	}
}

// RunScript runs a whole script in a fresh solver process.
func RunScript(bin string, args []string, script string, limit time.Duration) string {
	cmd := exec.Command(bin, args...)
	cmd.Stdin = strings.NewReader(script)
	var out strings.Builder
	cmd.Stdout = &out
	if err := cmd.Start(); err != nil {
		return "error"
	}
	done := make(chan struct{})
	go func() { cmd.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(limit):
		cmd.Process.Kill()
		<-done
		return "timeout"
	}
	res := "unknown"
	for _, l := range strings.Split(out.String(), "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "(error") {
			return "error"
		}
		if l == "sat" || l == "unsat" || l == "unknown" {
			res = l
		}
	}
	return res
}
