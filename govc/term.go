package main

// Terms: hash-consed SMT-LIB terms with light simplification.

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

type Term struct {
	Op    string
	Args  []*Term
	Sort  string
	Bound []*Term // quantifiers: bound variables
	Lit   string  // string literal value (Op == "str")
	id    int
	bv    bool // contains bound variables (free or not)
	size  int
	fresh bool // allocation constant
	old   bool // value of the entry state
}

// Ctx is the term universe of one verification unit.
type Ctx struct {
	tab    map[string]*Term
	n      int
	fresh  int
	funs   map[string]*FunDecl
	dts    map[string]*DtDecl // by sort
	ctors  map[string]*DtDecl
	sels   map[string]*DtDecl
	dtOrd  []*DtDecl
	True   *Term
	False  *Term
	W      *World
	onSeq  map[string]bool
	kb     strings.Builder
	lastAx int
}

type FunDecl struct {
	Name string
	Args []string
	Res  string
}

// DtDecl is a one-constructor datatype.
type DtDecl struct {
	Sort string
	Ctor string
	Sel  []string
	Srt  []string
}

func NewCtx(w *World) *Ctx {
	c := &Ctx{tab: map[string]*Term{}, funs: map[string]*FunDecl{}, dts: map[string]*DtDecl{}, ctors: map[string]*DtDecl{}, sels: map[string]*DtDecl{}, W: w}
	c.True = c.mk("true", "Bool")
	c.False = c.mk("false", "Bool")
	return c
}

func (c *Ctx) mk(op, srt string, args ...*Term) *Term {
	b := &c.kb
	b.Reset()
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(srt)
	for _, a := range args {
		b.WriteByte(' ')
		b.WriteString(strconv.Itoa(a.id))
	}
	k := b.String()
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{Op: op, Args: append([]*Term(nil), args...), Sort: srt, size: 1}
	for _, a := range args {
		if a.bv {
			t.bv = true
		}
		t.size += a.size
		if t.size > 1<<20 {
			t.size = 1 << 20
		}
	}
	switch {
	case len(args) == 0:
		t.old = strings.HasPrefix(op, "arg_") || strings.HasSuffix(op, "@0")
	case !t.bv && (op == "select" || len(args) == 1):
		t.old = true
		for i, a := range args {
			if _, num := a.isInt(); !a.old && !(i == 1 && num) {
				t.old = false
			}
		}
	}
	c.n++
	t.id = c.n
	c.tab[k] = t
	return t
}

func (c *Ctx) Int(n int64) *Term { return c.mk(strconv.FormatInt(n, 10), "Int") }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

func (t *Term) isInt() (int64, bool) {
	if t.Sort != "Int" || len(t.Args) != 0 {
		return 0, false
	}
	n, err := strconv.ParseInt(t.Op, 10, 64)
	return n, err == nil
}

func (c *Ctx) Str(s string) *Term {
	k := "str|" + s
	if t, ok := c.tab[k]; ok {
		return t
	}
	c.n++
	t := &Term{Op: "str", Lit: s, Sort: "Str", id: c.n, size: 1}
	c.tab[k] = t
	return t
}

func (t *Term) isStr() bool { return t.Op == "str" && t.Sort == "Str" }

// Const is a named constant.
func (c *Ctx) Const(name, srt string) *Term { return c.mk(name, srt) }

func (c *Ctx) Fresh(hint, srt string) *Term {
	c.fresh++
	h := sanitize(hint)
	return c.mk(fmt.Sprintf("%s!%d", h, c.fresh), srt)
}

func (c *Ctx) BoundVar(hint, srt string) *Term {
	c.fresh++
	t := c.mk(fmt.Sprintf("?%s!%d", sanitize(hint), c.fresh), srt)
	t.bv = true
	return t
}

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '$' {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	if b.Len() == 0 {
		return "v"
	}
	return b.String()
}

func (c *Ctx) Not(a *Term) *Term {
	switch {
	case a == c.True:
		return c.False
	case a == c.False:
		return c.True
	case a.Op == "not":
		return a.Args[0]
	}
	return c.mk("not", "Bool", a)
}

func (c *Ctx) And(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == c.True || seen[a.id] {
			return true
		}
		if a == c.False {
			return false
		}
		if a.Op == "and" {
			for _, x := range a.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		seen[a.id] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return c.False
		}
	}
	for _, a := range out {
		if a.Op == "not" && seen[a.Args[0].id] {
			return c.False
		}
	}
	switch len(out) {
	case 0:
		return c.True
	case 1:
		return out[0]
	}
	return c.mk("and", "Bool", out...)
}

func (c *Ctx) Or(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, a := range as {
		if a == c.False || seen[a.id] {
			continue
		}
		if a == c.True {
			return c.True
		}
		if a.Op == "or" {
			for _, x := range a.Args {
				if !seen[x.id] {
					seen[x.id] = true
					out = append(out, x)
				}
			}
			continue
		}
		seen[a.id] = true
		out = append(out, a)
	}
	for _, a := range out {
		if a.Op == "not" && seen[a.Args[0].id] {
			return c.True
		}
	}
	switch len(out) {
	case 0:
		return c.False
	case 1:
		return out[0]
	}
	// (a and b) or (a and not b) => a
	if len(out) == 2 {
		if t := c.mergeOr(out[0], out[1]); t != nil {
			return t
		}
	}
	return c.mk("or", "Bool", out...)
}

func (c *Ctx) conj(a *Term) []*Term {
	if a.Op == "and" {
		return a.Args
	}
	return []*Term{a}
}

func (c *Ctx) mergeOr(a, b *Term) *Term {
	x, y := c.conj(a), c.conj(b)
	if len(x) != len(y) {
		return nil
	}
	n := len(x)
	for i := 0; i < n-1; i++ {
		if x[i] != y[i] {
			return nil
		}
	}
	if c.Not(x[n-1]) == y[n-1] {
		return c.And(x[:n-1]...)
	}
	return nil
}

func (c *Ctx) Implies(a, b *Term) *Term {
	if a == c.True {
		return b
	}
	if a == c.False || b == c.True || a == b {
		return c.True
	}
	if b == c.False {
		return c.Not(a)
	}
	return c.mk("=>", "Bool", a, b)
}

func (c *Ctx) Ite(g, a, b *Term) *Term {
	if g == c.True || a == b {
		return a
	}
	if g == c.False {
		return b
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("ite sorts %s %s", a.Sort, b.Sort))
	}
	if g.Op == "not" {
		return c.Ite(g.Args[0], b, a)
	}
	if a.Sort == "Bool" {
		if a == c.True && b == c.False {
			return g
		}
		if a == c.False && b == c.True {
			return c.Not(g)
		}
		if a == c.True {
			return c.Or(g, b)
		}
		if b == c.False {
			return c.And(g, a)
		}
		if a == c.False {
			return c.And(c.Not(g), b)
		}
		if b == c.True {
			return c.Or(c.Not(g), a)
		}
	}
	if b.Op == "ite" && b.Args[0] == g {
		b = b.Args[2]
		if a == b {
			return a
		}
	}
	if a.Op == "ite" && a.Args[0] == g {
		a = a.Args[1]
		if a == b {
			return a
		}
	}
	// same constructor: push inside
	if d := c.ctors[a.Op]; d != nil && a.Op == b.Op {
		args := make([]*Term, len(a.Args))
		for i := range args {
			args[i] = c.Ite(g, a.Args[i], b.Args[i])
		}
		return c.Ctor(d, args...)
	}
	return c.mk("ite", a.Sort, g, a, b)
}

// lin decomposes an Int term into base + constant.
func lin(t *Term) (*Term, int64) {
	if n, ok := t.isInt(); ok {
		return nil, n
	}
	if t.Op == "+" && len(t.Args) == 2 {
		if n, ok := t.Args[1].isInt(); ok {
			return t.Args[0], n
		}
	}
	return t, 0
}

func (c *Ctx) Add(a, b *Term) *Term {
	x, m := lin(a)
	y, n := lin(b)
	var base *Term
	switch {
	case x == nil:
		base = y
	case y == nil:
		base = x
	default:
		if x.Op == "-u" && x.Args[0] == y || y.Op == "-u" && y.Args[0] == x {
			return c.Int(m + n)
		}
		// (p - q) + q
		if x.Op == "-" && x.Args[1] == y {
			return c.Add(x.Args[0], c.Int(m+n))
		}
		if y.Op == "-" && y.Args[1] == x {
			return c.Add(y.Args[0], c.Int(m+n))
		}
		base = c.mk("+", "Int", x, y)
	}
	if base == nil {
		return c.Int(m + n)
	}
	if m+n == 0 {
		return base
	}
	return c.mk("+", "Int", base, c.Int(m+n))
}

func (c *Ctx) Sub(a, b *Term) *Term {
	if a == b {
		return c.Int(0)
	}
	x, m := lin(a)
	y, n := lin(b)
	if x == y {
		return c.Int(m - n)
	}
	if y == nil {
		return c.Add(a, c.Int(-n))
	}
	if x == nil {
		x = c.Int(0)
	}
	if x.Op == "+" && len(x.Args) == 2 {
		if x.Args[0] == y {
			return c.Add(x.Args[1], c.Int(m-n))
		}
		if x.Args[1] == y {
			return c.Add(x.Args[0], c.Int(m-n))
		}
	}
	return c.Add(c.mk("-", "Int", x, y), c.Int(m-n))
}

func (c *Ctx) Cmp(op string, a, b *Term) *Term {
	x, m := lin(a)
	y, n := lin(b)
	if x == y {
		switch op {
		case "<":
			return c.Bool(m < n)
		case "<=":
			return c.Bool(m <= n)
		case ">":
			return c.Bool(m > n)
		case ">=":
			return c.Bool(m >= n)
		}
	}
	switch op {
	case ">":
		return c.mk("<", "Bool", b, a)
	case ">=":
		return c.mk("<=", "Bool", b, a)
	}
	return c.mk(op, "Bool", a, b)
}
func (c *Ctx) Lt(a, b *Term) *Term { return c.Cmp("<", a, b) }
func (c *Ctx) Le(a, b *Term) *Term { return c.Cmp("<=", a, b) }

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("eq sorts %s %s: %s = %s", a.Sort, b.Sort, c.Show(a), c.Show(b)))
	}
	switch a.Sort {
	case "Int":
		x, m := lin(a)
		y, n := lin(b)
		if x == y {
			return c.Bool(m == n)
		}
	case "Str":
		if a.isStr() && b.isStr() {
			return c.False
		}
		// cancel common prefixes of concatenations
		if a.Op == "scat" && b.Op == "scat" && a.Args[0] == b.Args[0] {
			return c.Eq(a.Args[1], b.Args[1])
		}
	case "Bool":
		switch {
		case a == c.True:
			return b
		case b == c.True:
			return a
		case a == c.False:
			return c.Not(b)
		case b == c.False:
			return c.Not(a)
		}
	}
	if d := c.ctors[a.Op]; d != nil && b.Op == a.Op {
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, c.Eq(a.Args[i], b.Args[i]))
		}
		return c.And(cs...)
	}
	if a.Sort == "Int" || a.Sort == "Iface" || a.Sort == "Str" {
		if r := c.eqIte(a, b); r != nil {
			return r
		}
		if r := c.eqIte(b, a); r != nil {
			return r
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk("=", "Bool", a, b)
}

// eqIte distributes an equality with a literal over an ite whose branches are
// literals.
func (c *Ctx) eqIte(a, b *Term) *Term {
	if a.Op != "ite" || !c.isLit(b) {
		return nil
	}
	x, y := a.Args[1], a.Args[2]
	ok := func(t *Term) bool { return c.isLit(t) || t.Op == "ite" && (c.isLit(t.Args[1]) || c.isLit(t.Args[2])) }
	if !ok(x) && !ok(y) {
		return nil
	}
	return c.Ite(a.Args[0], c.Eq(x, b), c.Eq(y, b))
}

func (c *Ctx) isLit(t *Term) bool {
	if _, ok := t.isInt(); ok {
		return true
	}
	if t.isStr() {
		return true
	}
	return false
}

func (c *Ctx) distinct(a, b *Term) bool {
	if a.Sort == "Int" {
		x, m := lin(a)
		y, n := lin(b)
		return x == y && m != n
	}
	return a.isStr() && b.isStr() && a != b
}

func (c *Ctx) Select(a, i *Term) *Term {
	for {
		if a.Op == "store" {
			if a.Args[1] == i {
				return a.Args[2]
			}
			if c.distinct(a.Args[1], i) || freshDistinct(a.Args[1], i) {
				a = a.Args[0]
				continue
			}
		}
		break
	}
	if strings.HasPrefix(a.Op, "(as const") {
		return a.Args[0]
	}
	_, es := arrSorts(a.Sort)
	if a.Op == "ite" {
		// push when both sides simplify at i
		x := c.Select(a.Args[1], i)
		y := c.Select(a.Args[2], i)
		if x == y {
			return x
		}
		if x.Op != "select" || y.Op != "select" {
			return c.Ite(a.Args[0], x, y)
		}
	}
	return c.mk("select", es, a, i)
}

func (c *Ctx) Store(a, i, v *Term) *Term {
	if a.Op == "store" && a.Args[1] == i {
		a = a.Args[0]
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	return c.mk("store", a.Sort, a, i, v)
}

func arrSorts(s string) (string, string) {
	// (Array X Y) with X an atom
	if !strings.HasPrefix(s, "(Array ") {
		panic("not an array sort: " + s)
	}
	in := s[7 : len(s)-1]
	sp := strings.IndexByte(in, ' ')
	return in[:sp], in[sp+1:]
}

func (c *Ctx) ConstArr(srt string, v *Term) *Term {
	return c.mk("(as const "+srt+")", srt, v)
}

// Fun declares an uninterpreted function.
func (c *Ctx) Fun(name string, args []string, res string) {
	if _, ok := c.funs[name]; !ok {
		c.funs[name] = &FunDecl{name, args, res}
	}
}

// App applies a function, constructor or selector.
func (c *Ctx) App(f, srt string, args ...*Term) *Term {
	// selector of constructor
	if len(args) == 1 {
		if d := c.sels[f]; d != nil {
			if t := c.sel(d, f, args[0]); t != nil {
				return t
			}
		}
	}
	return c.mk(f, srt, args...)
}

func (c *Ctx) sel(d *DtDecl, f string, a *Term) *Term {
	if a.Op == d.Ctor {
		for i, s := range d.Sel {
			if s == f {
				return a.Args[i]
			}
		}
	}
	if a.Op == "ite" {
		x := c.sel(d, f, a.Args[1])
		y := c.sel(d, f, a.Args[2])
		if x != nil && y != nil {
			return c.Ite(a.Args[0], x, y)
		}
		if x != nil || y != nil {
			if x == nil {
				x = c.App(f, y.Sort, a.Args[1])
			} else {
				y = c.App(f, x.Sort, a.Args[2])
			}
			return c.Ite(a.Args[0], x, y)
		}
	}
	return nil
}

// Ctor applies a constructor, with eta: C(s1 x, s2 x, ...) = x.
func (c *Ctx) Ctor(d *DtDecl, args ...*Term) *Term {
	var base *Term
	for i, a := range args {
		if a.Op != d.Sel[i] || len(a.Args) != 1 {
			base = nil
			break
		}
		if i == 0 {
			base = a.Args[0]
		} else if base != a.Args[0] {
			base = nil
			break
		}
	}
	if base != nil && base.Sort == d.Sort {
		return base
	}
	return c.mk(d.Ctor, d.Sort, args...)
}

func (c *Ctx) Quant(q string, bound []*Term, body *Term, pats [][]*Term) *Term {
	if body == c.True || body == c.False {
		return body
	}
	if len(bound) == 0 {
		return body
	}
	// drop unused
	var used []*Term
	for _, b := range bound {
		if occurs(b, body, map[int]bool{}) {
			used = append(used, b)
		}
	}
	if len(used) == 0 {
		return body
	}
	var args []*Term
	args = append(args, body)
	key := q
	for _, b := range used {
		key += " " + b.Op
	}
	for _, p := range pats {
		// a pattern mentions every bound variable
		var q []*Term
		all := true
		for _, x := range p {
			for _, b := range used {
				if occurs(b, x, map[int]bool{}) {
					q = append(q, x)
					break
				}
			}
		}
		for _, b := range used {
			in := false
			for _, x := range q {
				in = in || occurs(b, x, map[int]bool{})
			}
			all = all && in
		}
		if !all {
			continue
		}
		args = append(args, c.mk("pat", "Pat", q...))
	}
	t := c.mk(key, "Bool", args...)
	t.Bound = used
	t.bv = c.freeBV(t, nil)
	return t
}

func (c *Ctx) freeBV(t *Term, in []*Term) bool {
	free := false
	seen := map[int]bool{}
	var walk func(t *Term, bound map[int]bool)
	walk = func(t *Term, bound map[int]bool) {
		if free || !t.bv && t.Bound == nil {
			return
		}
		if strings.HasPrefix(t.Op, "?") && len(t.Args) == 0 {
			if !bound[t.id] {
				free = true
			}
			return
		}
		if t.Bound != nil {
			nb := map[int]bool{}
			for k := range bound {
				nb[k] = true
			}
			for _, b := range t.Bound {
				nb[b.id] = true
			}
			for _, a := range t.Args {
				walk(a, nb)
			}
			return
		}
		if seen[t.id] && len(bound) == 0 {
			return
		}
		seen[t.id] = true
		for _, a := range t.Args {
			walk(a, bound)
		}
	}
	walk(t, map[int]bool{})
	return free
}

func occurs(b, t *Term, seen map[int]bool) bool {
	if b == t {
		return true
	}
	if seen[t.id] {
		return false
	}
	seen[t.id] = true
	for _, a := range t.Args {
		if occurs(b, a, seen) {
			return true
		}
	}
	return false
}

// Subst replaces constants (by term) in t.
func (c *Ctx) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = f(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = c.rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return f(t)
}

func (c *Ctx) rebuild(t *Term, args []*Term) *Term {
	if t.Bound != nil {
		k := c.mk(t.Op, t.Sort, args...)
		k.Bound = t.Bound
		k.bv = c.freeBV(k, nil)
		return k
	}
	switch t.Op {
	case "and":
		return c.And(args...)
	case "or":
		return c.Or(args...)
	case "not":
		return c.Not(args[0])
	case "=>":
		return c.Implies(args[0], args[1])
	case "ite":
		return c.Ite(args[0], args[1], args[2])
	case "=":
		return c.Eq(args[0], args[1])
	case "select":
		return c.Select(args[0], args[1])
	case "store":
		return c.Store(args[0], args[1], args[2])
	case "+":
		return c.Add(args[0], args[1])
	case "-":
		return c.Sub(args[0], args[1])
	case "<", "<=":
		return c.Cmp(t.Op, args[0], args[1])
	case "scat":
		return c.Scat(args[0], args[1])
	}
	if c.ctors[t.Op] != nil {
		return c.Ctor(c.ctors[t.Op], args...)
	}
	return c.App(t.Op, t.Sort, args...)
}

// ---- strings

func (c *Ctx) Scat(a, b *Term) *Term {
	if a.isStr() && a.Lit == "" {
		return b
	}
	if b.isStr() && b.Lit == "" {
		return a
	}
	if a.isStr() && b.isStr() {
		return c.Str(a.Lit + b.Lit)
	}
	if a.Op == "scat" {
		return c.Scat(a.Args[0], c.Scat(a.Args[1], b))
	}
	if a.isStr() && b.Op == "scat" && b.Args[0].isStr() {
		return c.Scat(c.Str(a.Lit+b.Args[0].Lit), b.Args[1])
	}
	return c.mk("scat", "Str", a, b)
}

func (c *Ctx) Slen(a *Term) *Term {
	if a.isStr() {
		return c.Int(int64(len(a.Lit)))
	}
	if a.Op == "scat" {
		return c.Add(c.Slen(a.Args[0]), c.Slen(a.Args[1]))
	}
	return c.mk("slen", "Int", a)
}

// ---- printing

func (c *Ctx) Show(t *Term) string {
	var b strings.Builder
	n := 0
	var f func(t *Term, d int)
	f = func(t *Term, d int) {
		n++
		if n > 400 || d > 14 {
			b.WriteString("…")
			return
		}
		if t.isStr() {
			fmt.Fprintf(&b, "%q", t.Lit)
			return
		}
		if len(t.Args) == 0 {
			b.WriteString(t.Op)
			return
		}
		b.WriteByte('(')
		b.WriteString(t.Op)
		for _, a := range t.Args {
			b.WriteByte(' ')
			f(a, d+1)
		}
		b.WriteByte(')')
	}
	f(t, 0)
	return b.String()
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// freshDistinct: two different allocation constants never denote one object.
// Nor does one denote an object of the entry state.
func freshDistinct(a, b *Term) bool {
	return a != b && (a.fresh && (b.fresh || b.old) || a.old && b.fresh)
}

// Datatype declares a one-constructor datatype.
func (c *Ctx) Datatype(srt, ctor string, sel, srts []string) *DtDecl {
	if d := c.dts[srt]; d != nil {
		return d
	}
	d := &DtDecl{srt, ctor, sel, srts}
	c.dts[srt] = d
	c.ctors[ctor] = d
	for _, s := range sel {
		c.sels[s] = d
	}
	c.dtOrd = append(c.dtOrd, d)
	return d
}

func (c *Ctx) Get(d *DtDecl, i int, x *Term) *Term { return c.App(d.Sel[i], d.Srt[i], x) }

// Set updates one field of a datatype value.
func (c *Ctx) Set(d *DtDecl, i int, x, v *Term) *Term {
	args := make([]*Term, len(d.Sel))
	for j := range args {
		if j == i {
			args[j] = v
		} else {
			args[j] = c.Get(d, j, x)
		}
	}
	return c.Ctor(d, args...)
}

// Seqs: slices as values.
func seqName(elem string) string {
	return "Seq_" + strings.Trim(sanitize(strings.NewReplacer("(", "", ")", "").Replace(elem)), "_")
}

func (c *Ctx) SeqDt(elem string) *DtDecl {
	n := seqName(elem)
	return c.Datatype(n, "mk"+n, []string{"len_" + n, "arr_" + n}, []string{"Int", "(Array Int " + elem + ")"})
}

func (c *Ctx) dtOfSeq(s *Term) *DtDecl {
	d := c.dts[s.Sort]
	if d == nil {
		panic("not a seq: " + s.Sort)
	}
	return d
}
func (c *Ctx) SeqLen(s *Term) *Term { return c.Get(c.dtOfSeq(s), 0, s) }
func (c *Ctx) SeqArr(s *Term) *Term { return c.Get(c.dtOfSeq(s), 1, s) }
func (c *Ctx) SeqAt(s, i *Term) *Term {
	return c.Select(c.SeqArr(s), i)
}
func (c *Ctx) MkSeq(elem string, n, arr *Term) *Term { return c.Ctor(c.SeqDt(elem), n, arr) }
