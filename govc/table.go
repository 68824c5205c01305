package main

// The command tables: what every abbreviation stands for, in both modes, as
// the package initialiser writes the tables, compared with the pinned ones.
// Names that are a prefix of no entry resolve to nothing in either, so the
// comparison over all prefixes of all names is exhaustive.

import (
	"fmt"
	"go/constant"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type cmdRow struct {
	name, flags, parser string
	minlen              int
}

func (r *cmdRow) String() string {
	if r == nil {
		return "no command"
	}
	f := strings.Split(r.flags, "|")
	sort.Strings(f)
	return fmt.Sprintf("%s (flags %s, parser %s)", r.name, strings.Join(f, "|"), r.parser)
}

type cmdTables [3][]cmdRow

func (w *World) readTables(pkg string, names []string) (t cmdTables, err error) {
	var g [3]*ssa.Global
	for _, p := range w.Prog.AllPackages() {
		if p.Func("init") == nil || !inRepo(p.Func("init")) || shortPkg(p.Pkg.Path()) != pkg {
			continue
		}
		for i, n := range names {
			g[i], _ = p.Members[n].(*ssa.Global)
		}
	}
	for i := range g {
		if g[i] == nil {
			return t, fmt.Errorf("no table %s", names[i])
		}
		v := w.initVal(g[i])
		if v == nil || v.Kind != "slice" {
			return t, fmt.Errorf("table %s is not a literal that nothing else assigns", names[i])
		}
		for _, e := range v.Elems {
			if e.Kind != "ptr" || e.Ptr.Kind != "struct" {
				return t, fmt.Errorf("table %s: an entry that is not a literal", names[i])
			}
			var r cmdRow
			st, ok := structOf(e.Ptr.T)
			if !ok {
				return t, fmt.Errorf("table %s: an entry that is not a struct", names[i])
			}
			for k, f := range e.Ptr.Elems {
				if f.Kind != "const" {
					return t, fmt.Errorf("table %s: a field that is not a constant", names[i])
				}
				switch st.Field(k).Name() {
				case "name":
					r.name = constant.StringVal(f.C)
				case "flags":
					r.flags = constant.StringVal(f.C)
				case "parser":
					r.parser = constant.StringVal(f.C)
				case "minlen":
					n, _ := constant.Int64Val(f.C)
					r.minlen = int(n)
				}
			}
			t[i] = append(t[i], r)
		}
	}
	return t, nil
}

func (t *cmdTables) first(i int, n string) *cmdRow {
	for k := range t[i] {
		if r := &t[i][k]; strings.HasPrefix(r.name, n) && len(n) >= r.minlen {
			return r
		}
	}
	return nil
}

func (t *cmdTables) resolve(n string, neo bool) *cmdRow {
	if neo {
		if t.first(2, n) != nil {
			return nil
		}
		if r := t.first(1, n); r != nil {
			return r
		}
	}
	return t.first(0, n)
}

func loadTables(file string) (t cmdTables, err error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return t, err
	}
	for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
		f := strings.Split(l, "\t")
		if len(f) != 5 {
			return t, fmt.Errorf("bad line %q", l)
		}
		var i, m int
		fmt.Sscan(f[0], &i)
		fmt.Sscan(f[2], &m)
		t[i] = append(t[i], cmdRow{f[1], f[3], f[4], m})
	}
	return t, nil
}

func (w *World) dumpTables(pkg string, names []string) error {
	t, err := w.readTables(pkg, names)
	for i := range t {
		for _, r := range t[i] {
			fmt.Printf("%d\t%s\t%d\t%s\t%s\n", i, r.name, r.minlen, r.flags, r.parser)
		}
	}
	return err
}

func (w *World) tableChecks(td *TableDecl, dir string) []*Obl {
	bad := func(err error) []*Obl {
		return []*Obl{{Name: "table", Kind: "table", Tags: td.Tags, Status: "failed", Src: err.Error()}}
	}
	real, err := w.readTables(td.Pkg, td.Names)
	if err != nil {
		return bad(err)
	}
	if td.Field != "" {
		return rowChecks(&real, td)
	}
	pin, err := loadTables(filepath.Join(dir, td.File))
	if err != nil {
		return bad(err)
	}
	names := map[string]bool{}
	for _, t := range []cmdTables{real, pin} {
		for i := range t {
			for _, r := range t[i] {
				names[r.name] = true
			}
		}
	}
	var out []*Obl
	for _, n := range sortedKeys(names) {
		for _, neo := range []bool{false, true} {
			mode := "Vim"
			if neo {
				mode = "Neovim"
			}
			o := &Obl{Name: fmt.Sprintf("table/%s[%s]", n, mode), Kind: "table", Tags: td.Tags, Status: "proved", Solver: "evaluation", Src: "every abbreviation of " + n + " stands for what it stood for"}
			for k := 1; k <= len(n); k++ {
				a, b := real.resolve(n[:k], neo), pin.resolve(n[:k], neo)
				if a.String() != b.String() {
					o.Status, o.Solver = "failed", ""
					o.Src = fmt.Sprintf("%q for %s stands for %s, not %s", n[:k], mode, a, b)
					break
				}
			}
			out = append(out, o)
		}
	}
	return out
}

func rowChecks(t *cmdTables, td *TableDecl) []*Obl {
	ok := map[string]bool{}
	for _, v := range td.Values {
		ok[strings.Trim(v, "\"")] = true
	}
	var out []*Obl
	for i := range t {
		o := &Obl{Name: fmt.Sprintf("rows/%s[%s]", td.Names[i], td.Field), Kind: "table", Tags: td.Tags, Status: "proved", Solver: "evaluation", Src: "every entry has one of the values listed"}
		for _, r := range t[i] {
			v := map[string]string{"name": r.name, "flags": r.flags, "parser": r.parser}[td.Field]
			if !ok[v] {
				o.Status, o.Solver = "failed", ""
				o.Src = fmt.Sprintf("%s has %q", r.name, v)
			}
		}
		out = append(out, o)
	}
	return out
}
