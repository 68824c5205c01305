package main

// The contract language: clauses and expressions.

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

type SExpr struct {
	Op   string // id int str call sel idx slice un bin forall exists
	S    string
	N    int64
	A    []*SExpr
	Vars []SVar
	Pats [][]*SExpr
}

type SVar struct{ Name, Type string }

type Clause struct {
	Kind  string
	Tags  []string
	Label string
	E     *SExpr
	Locs  []*SExpr // modifies
	Vars  []SVar   // loopcand metavariables
	Src   string
	File  string
	Line  int
	ID    int
}

type Contract struct {
	Pkg      string
	Pattern  string // Name or Type.Name, may contain '*'
	Params   []string
	Results  []string
	Clauses  []*Clause
	Extern   bool
	Invoke   bool
	Trusted  bool
	Inline   bool
	Parts    bool // parts of parts of strings matter in it
	NoPanic  bool
	NoReturn bool
	Pure     bool
	Split    bool
	Skip     []string // tags for which the body is not verified
	Reads    []string // fields the function may read, itself or in what it calls
	ReadTags []string
	File     string
	Line     int
}

type SpecFn struct {
	Name   string
	Params []SVar
	Res    string
	Body   *SExpr // nil: uninterpreted
	Pkg    string
	Rec    bool
	Heap   []string
}

type InvClause struct {
	Type  string
	Var   string
	Tags  []string
	E     *SExpr
	Src   string
	Pkg   string
	File  string
	Line  int
	Label string
}

type Axiom struct {
	Global string // a fact about this package variable
	Name   string
	E      *SExpr
	Pkg    string
	Src    string
	Tags   []string
	Lemma  bool
}

// TableDecl pins the meaning of the command tables.
type TableDecl struct {
	Field  string // rows: what this field of every entry may be
	Values []string
	Pkg    string
	Tags   []string
	Names  []string
	File   string
}

type Specs struct {
	Tables                        []*TableDecl
	Dir                           string
	Contracts                     []*Contract
	Fns                           map[string]*SpecFn
	Invs                          []*InvClause
	Axioms                        []*Axiom
	Ghost                         map[string][]SVar // type -> ghost fields
	Immutable, PureExt, FrameTags map[string]bool
	Frozen                        map[string]bool // "go.VimNode.type_"
	Grows                         map[string]bool // may only become non-nil (true)
	Safety                        map[string][]string
	Cands                         []*Clause // global loop candidates
	CandPkg                       []string
	Globals                       []SVar // ghost globals
	Chk                           []*Axiom
	Closed                        map[string]bool
	Spelled                       []string
	PackSets                      []*PackSet
	Scope                         map[string]map[string]bool
}

type PackSet struct {
	Type, Field, Pkg string
	E                *SExpr
}

var clauseKw = map[string]bool{"package": true, "safety": true, "ufun": true, "spec": true, "axiom": true, "inv": true, "frozen": true, "func": true, "extern": true, "invoke": true,
	"requires": true, "ensures": true, "panics": true, "nopanic": true, "modifies": true, "decreases": true, "loopcand": true, "trusted": true, "inline": true, "ghost": true, "gvar": true, "candidate": true, "defines": true, "pure": true, "check": true, "lemma": true, "closed": true, "spelled": true, "packset": true, "split": true, "unverified": true, "assume": true, "summary": true, "immutable": true, "pureext": true, "noreturn": true, "reads": true, "unfolds": true, "table": true, "rows": true, "grows": true, "parts": true}

// checking is the property this run checks.
var checking string

// relevant: a clause tagged "only" does not exist for other properties; any
// other clause is assumed where it is not checked.
func relevant(tags []string) bool {
	return !hasTag(tags, "only") || checking == "" || checking == "all" || hasTag(tags, checking)
}

func LoadSpecs(dir string) (*Specs, error) { return LoadSpecsOnly(dir, "") }

func LoadSpecsOnly(dir, only string) (*Specs, error) {
	sp := &Specs{Fns: map[string]*SpecFn{}, Ghost: map[string][]SVar{}, Frozen: map[string]bool{}, Grows: map[string]bool{}, Immutable: map[string]bool{}, PureExt: map[string]bool{}, FrameTags: map[string]bool{}, Safety: map[string][]string{}, Closed: map[string]bool{}}
	sp.Dir = dir
	files, _ := filepath.Glob(filepath.Join(dir, "*.vc"))
	sort.Strings(files)
	for _, f := range files {
		if only != "" && !strings.Contains(filepath.Base(f), only) {
			continue
		}
		if err := sp.load(f); err != nil {
			return nil, err
		}
	}
	return sp, nil
}

type stmt struct {
	kw, rest string
	line     int
}

func (sp *Specs) load(file string) error {
	data, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	var stmts []stmt
	for i, l := range strings.Split(string(data), "\n") {
		if j := strings.Index(l, "//"); j >= 0 && !strings.Contains(l[:j], "\"") {
			l = l[:j]
		}
		t := strings.TrimSpace(l)
		if t == "" {
			continue
		}
		w := t
		if j := strings.IndexFunc(t, func(r rune) bool { return !(unicode.IsLetter(r)) }); j >= 0 {
			w = t[:j]
		}
		if clauseKw[w] && (w == "extern" || w == "invoke") || clauseKw[w] && !strings.HasPrefix(strings.TrimSpace(t[len(w):]), "(") {
			stmts = append(stmts, stmt{w, strings.TrimSpace(t[len(w):]), i + 1})
		} else {
			if len(stmts) == 0 {
				return fmt.Errorf("%s:%d: stray text", file, i+1)
			}
			stmts[len(stmts)-1].rest += " " + t
		}
	}
	pkg := ""
	var cur *Contract
	base := filepath.Base(file)
	id := 0
	for _, s := range stmts {
		fail := func(e error) error { return fmt.Errorf("%s:%d: %v", base, s.line, e) }
		tags, rest := takeTags(s.rest)
		mkClause := func() *Clause {
			id++
			return &Clause{Kind: s.kw, Tags: tags, Src: rest, File: base, Line: s.line, ID: id}
		}
		switch s.kw {
		case "package":
			pkg = s.rest
			cur = nil
		case "safety":
			sp.Safety[pkg] = strings.Fields(s.rest)
		case "frozen":
			for _, f := range strings.FieldsFunc(s.rest, func(r rune) bool { return r == ' ' || r == ',' }) {
				sp.Frozen[pkg+"."+f] = true
			}
		case "grows":
			for _, f := range strings.FieldsFunc(s.rest, func(r rune) bool { return r == ' ' || r == ',' }) {
				sp.Grows[pkg+"."+f] = true
			}
		case "spelled":
			// functions that put texts together from characters: where they are in
			// use, short literals are known to be the concatenation of theirs
			sp.Spelled = append(sp.Spelled, strings.Fields(s.rest)...)
		case "closed":
			for _, f := range strings.Fields(s.rest) {
				if strings.Contains(f, ".") {
					sp.Closed[f] = true
				} else {
					sp.Closed[pkg+"."+f] = true
				}
			}
		case "ghost":
			// ghost Type.field T
			f := strings.Fields(s.rest)
			tf := strings.SplitN(f[0], ".", 2)
			k := pkg + "." + tf[0]
			if j := strings.LastIndex(f[0], "."); strings.Count(f[0], ".") > 1 {
				// a type of another package
				k, tf = f[0][:j], []string{f[0][:j], f[0][j+1:]}
			}
			sp.Ghost[k] = append(sp.Ghost[k], SVar{tf[1], strings.Join(f[1:], " ")})
		case "table":
			// table [tags] a b c = file
			f := strings.Fields(rest)
			if len(f) != 5 || f[3] != "=" {
				return fail(fmt.Errorf("table a b c = file"))
			}
			sp.Tables = append(sp.Tables, &TableDecl{Pkg: pkg, Tags: tags, Names: f[:3], File: f[4]})
		case "rows":
			// rows [tags] a b c: field in "v" "w" ...
			j := strings.Index(rest, ":")
			f := strings.Fields(rest[j+1:])
			g := strings.Fields(rest[:j])
			if len(g) != 3 || len(f) < 3 || f[1] != "in" {
				return fail(fmt.Errorf("rows a b c: field in \"v\" ..."))
			}
			sp.Tables = append(sp.Tables, &TableDecl{Pkg: pkg, Tags: tags, Names: g, Field: f[0], Values: f[2:]})
			for _, n := range g {
				e, err := parseExpr(fmt.Sprintf("forall k int :: {%s[k]} 0 <= k && k < len(%s) ==> %s[k] != nil", n, n, n))
				if err != nil {
					return fail(err)
				}
				sp.Axioms = append(sp.Axioms, &Axiom{Name: "rows_" + n, Global: n, E: e, Pkg: pkg, Src: rest, Tags: tags})
			}
		case "immutable":
			for _, f := range strings.FieldsFunc(rest, func(r rune) bool { return r == ' ' || r == ',' }) {
				sp.Immutable[f] = true
			}
			for _, t := range tags {
				sp.FrameTags[t] = true
			}
		case "pureext":
			for _, f := range strings.FieldsFunc(rest, func(r rune) bool { return r == ' ' || r == ',' }) {
				sp.PureExt[f] = true
			}
		case "packset":
			// packset Type.field = expr
			j := strings.Index(s.rest, "=")
			tf := strings.SplitN(strings.TrimSpace(s.rest[:j]), ".", 2)
			e, err := parseExpr(s.rest[j+1:])
			if err != nil {
				return fail(err)
			}
			sp.PackSets = append(sp.PackSets, &PackSet{pkg + "." + tf[0], tf[1], pkg, e})
		case "gvar":
			f := strings.Fields(s.rest)
			sp.Globals = append(sp.Globals, SVar{f[0], strings.Join(f[1:], " ")})
		case "ufun", "spec":
			fn, err := parseSpecFn(s.rest)
			if err != nil {
				return fail(err)
			}
			fn.Pkg = pkg
			if sp.Fns[fn.Name] != nil {
				return fail(fmt.Errorf("%s is defined twice", fn.Name))
			}
			sp.Fns[fn.Name] = fn
		case "axiom", "check", "lemma":
			j := strings.Index(rest, ":")
			e, err := parseExpr(rest[j+1:])
			if err != nil {
				return fail(err)
			}
			a := &Axiom{Name: strings.TrimSpace(rest[:j]), E: e, Pkg: pkg, Src: rest, Tags: tags, Lemma: s.kw == "lemma"}
			if s.kw == "check" {
				sp.Chk = append(sp.Chk, a)
			} else {
				sp.Axioms = append(sp.Axioms, a)
			}
		case "inv":
			// inv [tags] Type n: expr
			j := strings.Index(rest, ":")
			h := strings.Fields(rest[:j])
			e, err := parseExpr(rest[j+1:])
			if err != nil {
				return fail(err)
			}
			if !relevant(tags) {
				continue
			}
			sp.Invs = append(sp.Invs, &InvClause{Type: pkg + "." + h[0], Var: h[1], Tags: tags, E: e, Src: rest, Pkg: pkg, File: base, Line: s.line})
		case "candidate":
			c := mkClause()
			if err := parseCand(c, rest); err != nil {
				return fail(err)
			}
			sp.Cands = append(sp.Cands, c)
			sp.CandPkg = append(sp.CandPkg, pkg)
		case "func", "extern", "invoke":
			c, err := parseHeader(s.rest)
			if err != nil {
				return fail(err)
			}
			c.Pkg, c.Extern, c.Invoke, c.File, c.Line = pkg, s.kw == "extern", s.kw == "invoke", base, s.line
			sp.Contracts = append(sp.Contracts, c)
			cur = c
		default:
			if cur == nil {
				return fail(fmt.Errorf("%s outside func", s.kw))
			}
			switch s.kw {
			case "trusted":
				cur.Trusted = true
				continue
			case "inline":
				cur.Inline = true
				continue
			case "nopanic":
				cur.NoPanic = true
				continue
			case "parts":
				cur.Parts = true
				continue
			case "noreturn":
				cur.NoReturn = true
				continue
			case "pure":
				cur.Pure = true
				continue
			case "split":
				cur.Split = true
				continue
			case "unverified":
				cur.Skip = tags
				continue
			case "reads":
				cur.Reads, cur.ReadTags = strings.Fields(strings.ReplaceAll(rest, ",", " ")), tags
				continue
			}
			c := mkClause()
			switch s.kw {
			case "defines":
				// defines T.f: expr - the ghost field of what the function allocates
				j := strings.Index(rest, ":")
				c.Label = pkg + "." + strings.TrimSpace(rest[:j])
				e, err := parseExpr(rest[j+1:])
				if err != nil {
					return fail(err)
				}
				c.E = e
			case "modifies":
				if rest != "nothing" {
					for _, p := range splitTop(rest, ',') {
						e, err := parseExpr(p)
						if err != nil {
							return fail(err)
						}
						c.Locs = append(c.Locs, e)
					}
				}
			case "loopcand":
				if err := parseCand(c, rest); err != nil {
					return fail(err)
				}
			case "panics":
				// panics e: expr
				j := strings.Index(rest, ":")
				c.Label = strings.TrimSpace(rest[:j])
				e, err := parseExpr(rest[j+1:])
				if err != nil {
					return fail(err)
				}
				c.E = e
			default:
				e, err := parseExpr(rest)
				if err != nil {
					return fail(err)
				}
				c.E = e
			}
			if relevant(tags) {
				cur.Clauses = append(cur.Clauses, c)
			}
		}
	}
	return nil
}

func parseCand(c *Clause, rest string) error {
	// vars : expr   (vars may be empty)
	j := topColon(rest)
	if j >= 0 {
		for _, v := range splitTop(rest[:j], ',') {
			f := strings.Fields(v)
			if len(f) < 2 {
				continue
			}
			c.Vars = append(c.Vars, SVar{f[0], strings.Join(f[1:], " ")})
		}
		rest = rest[j+1:]
	}
	e, err := parseExpr(rest)
	c.E = e
	return err
}

func topColon(s string) int {
	d := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case '"':
			for i++; i < len(s) && s[i] != '"'; i++ {
				if s[i] == '\\' {
					i++
				}
			}
		case ':':
			if i+1 < len(s) && s[i+1] == ':' {
				return -1
			}
			if d == 0 {
				return i
			}
		case '=', '<', '>':
			if d == 0 {
				return -1
			}
		}
	}
	return -1
}

func splitTop(s string, sep byte) []string {
	var out []string
	d, st := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case sep:
			if d == 0 {
				out = append(out, s[st:i])
				st = i + 1
			}
		}
	}
	if strings.TrimSpace(s[st:]) != "" {
		out = append(out, s[st:])
	}
	return out
}

func takeTags(s string) ([]string, string) {
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "[") {
		j := strings.Index(s, "]")
		return strings.FieldsFunc(s[1:j], func(r rune) bool { return r == ' ' || r == ',' }), strings.TrimSpace(s[j+1:])
	}
	return nil, s
}

func parseHeader(s string) (*Contract, error) {
	c := &Contract{}
	j := strings.LastIndex(s, "(")
	k := strings.LastIndex(s, ")")
	if j < 0 || k < j {
		return nil, fmt.Errorf("bad header %q", s)
	}
	c.Pattern = strings.TrimSpace(s[:j])
	for _, p := range strings.Split(s[j+1:k], ",") {
		if p = strings.TrimSpace(p); p != "" {
			c.Params = append(c.Params, p)
		}
	}
	r := strings.TrimSpace(s[k+1:])
	if strings.HasPrefix(r, "->") {
		for _, p := range strings.Split(r[2:], ",") {
			c.Results = append(c.Results, strings.TrimSpace(p))
		}
	}
	return c, nil
}

func parseSpecFn(s string) (*SpecFn, error) {
	j := strings.Index(s, "(")
	if j < 0 {
		return nil, fmt.Errorf("bad spec %q", s)
	}
	d, k := 0, j
	for k = j; k < len(s); k++ {
		if s[k] == '(' {
			d++
		} else if s[k] == ')' {
			d--
			if d == 0 {
				break
			}
		}
	}
	fn := &SpecFn{Name: strings.TrimSpace(s[:j])}
	for _, p := range splitTop(s[j+1:k], ',') {
		f := strings.Fields(p)
		fn.Params = append(fn.Params, SVar{f[0], strings.Join(f[1:], " ")})
	}
	r := s[k+1:]
	if i := strings.Index(r, "="); i >= 0 {
		fn.Res = strings.TrimSpace(r[:i])
		e, err := parseExpr(r[i+1:])
		if err != nil {
			return nil, err
		}
		fn.Body = e
	} else {
		fn.Res = strings.TrimSpace(r)
	}
	return fn, nil
}

// ---- expression parser

type tok struct {
	k string // id int str op eof
	s string
}

func lexSpec(s string) ([]tok, error) {
	var ts []tok
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\t':
			i++
		case c == '"':
			j := i + 1
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(s) {
				return nil, fmt.Errorf("unterminated string")
			}
			v, err := strconv.Unquote(s[i : j+1])
			if err != nil {
				return nil, fmt.Errorf("%v in %s", err, s[i:j+1])
			}
			ts = append(ts, tok{"str", v})
			i = j + 1
		case c >= '0' && c <= '9':
			j := i
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			ts = append(ts, tok{"int", s[i:j]})
			i = j
		case c == '_' || c == '$' || unicode.IsLetter(rune(c)):
			j := i
			for j < len(s) && (s[j] == '_' || s[j] == '$' || s[j] == '@' || unicode.IsLetter(rune(s[j])) || unicode.IsDigit(rune(s[j]))) {
				j++
			}
			ts = append(ts, tok{"id", s[i:j]})
			i = j
		default:
			ok := false
			for _, o := range []string{"<==>", "==>", "==", "!=", "<=", ">=", "&&", "||", "::", ".."} {
				if strings.HasPrefix(s[i:], o) {
					ts = append(ts, tok{"op", o})
					i += len(o)
					ok = true
					break
				}
			}
			if !ok {
				ts = append(ts, tok{"op", string(c)})
				i++
			}
		}
	}
	return append(ts, tok{"eof", ""}), nil
}

type sparser struct {
	ts []tok
	p  int
}

func parseExpr(s string) (e *SExpr, err error) {
	ts, err := lexSpec(s)
	if err != nil {
		return nil, err
	}
	p := &sparser{ts: ts}
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v in %q", r, s)
		}
	}()
	e = p.expr(0)
	if p.cur().k != "eof" {
		return nil, fmt.Errorf("trailing %q in %q", p.cur().s, s)
	}
	return e, nil
}

func (p *sparser) cur() tok { return p.ts[p.p] }
func (p *sparser) is(s string) bool {
	return p.cur().k == "op" && p.cur().s == s
}
func (p *sparser) eat(s string) {
	if !p.is(s) {
		panic(fmt.Sprintf("expected %q, got %q", s, p.cur().s))
	}
	p.p++
}

var prec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "+": 6, "-": 6, "*": 7}

func (p *sparser) expr(min int) *SExpr {
	l := p.unary()
	for {
		t := p.cur()
		if t.k == "id" && t.s == "in" && min <= 5 {
			p.p++
			r := p.expr(6)
			l = &SExpr{Op: "bin", S: "in", A: []*SExpr{l, r}}
			continue
		}
		if t.k != "op" {
			return l
		}
		pr, ok := prec[t.s]
		if !ok || pr < min {
			return l
		}
		p.p++
		var r *SExpr
		if t.s == "==>" {
			r = p.expr(pr)
		} else {
			r = p.expr(pr + 1)
		}
		l = &SExpr{Op: "bin", S: t.s, A: []*SExpr{l, r}}
	}
}

func (p *sparser) unary() *SExpr {
	if p.is("!") || p.is("-") || p.is("*") || p.is("&") {
		o := p.cur().s
		p.p++
		return &SExpr{Op: "un", S: o, A: []*SExpr{p.unary()}}
	}
	return p.post(p.prim())
}

func (p *sparser) typ() string {
	// a type expression
	var b strings.Builder
	for {
		switch {
		case p.is("*"):
			b.WriteString("*")
			p.p++
			continue
		case p.is("["):
			p.p++
			p.eat("]")
			b.WriteString("[]")
			continue
		}
		break
	}
	t := p.cur()
	if t.k != "id" {
		panic("type expected")
	}
	p.p++
	b.WriteString(t.s)
	if t.s == "map" {
		p.eat("[")
		b.WriteString("[" + p.typ() + "]")
		p.eat("]")
		b.WriteString(p.typ())
		return b.String()
	}
	if p.is(".") {
		p.p++
		b.WriteString("." + p.cur().s)
		p.p++
	}
	return b.String()
}

func (p *sparser) prim() *SExpr {
	t := p.cur()
	switch t.k {
	case "int":
		p.p++
		n, _ := strconv.ParseInt(t.s, 10, 64)
		return &SExpr{Op: "int", N: n}
	case "str":
		p.p++
		return &SExpr{Op: "str", S: t.s}
	case "id":
		p.p++
		if t.s == "forall" || t.s == "exists" {
			e := &SExpr{Op: t.s}
			for {
				n := p.cur().s
				p.p++
				e.Vars = append(e.Vars, SVar{n, p.typ()})
				if p.is(",") {
					p.p++
					continue
				}
				break
			}
			p.eat("::")
			for p.is("{") {
				p.p++
				var ps []*SExpr
				for {
					ps = append(ps, p.expr(0))
					if p.is(",") {
						p.p++
						continue
					}
					break
				}
				p.eat("}")
				e.Pats = append(e.Pats, ps)
			}
			e.A = []*SExpr{p.expr(0)}
			return e
		}
		if p.is("(") {
			p.p++
			e := &SExpr{Op: "call", S: t.s}
			typed := map[string]bool{"as": true, "tagis": true, "implements": true, "mkiface": true}
			for !p.is(")") {
				if typed[t.s] && len(e.A) == 1 {
					e.A = append(e.A, &SExpr{Op: "type", S: p.typ()})
				} else {
					e.A = append(e.A, p.expr(0))
				}
				if p.is(",") {
					p.p++
				}
			}
			p.eat(")")
			return e
		}
		return &SExpr{Op: "id", S: t.s}
	}
	if p.is("(") {
		p.p++
		e := p.expr(0)
		p.eat(")")
		return e
	}
	panic(fmt.Sprintf("unexpected %q", t.s))
}

func (p *sparser) post(e *SExpr) *SExpr {
	for {
		switch {
		case p.is("."):
			p.p++
			e = &SExpr{Op: "sel", S: p.cur().s, A: []*SExpr{e}}
			p.p++
		case p.is("["):
			p.p++
			var lo *SExpr
			if !p.is("..") {
				lo = p.expr(0)
			}
			if p.is("..") {
				p.p++
				var hi *SExpr
				if !p.is("]") {
					hi = p.expr(0)
				}
				p.eat("]")
				e = &SExpr{Op: "slice", A: []*SExpr{e, lo, hi}}
			} else {
				p.eat("]")
				e = &SExpr{Op: "idx", A: []*SExpr{e, lo}}
			}
		default:
			return e
		}
	}
}
