package main

// The check of one property: verification, replay of what fails, evidence.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

type runOpts struct {
	repo, verif, prop, tier string
}

func runProperty(o runOpts, opt Options) int {
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	sp, err := LoadSpecs(filepath.Join(o.verif, "contracts"))
	if err != nil {
		fmt.Fprintln(os.Stderr, "contracts:", err)
		return 2
	}
	w, err := LoadWorld(o.repo, sp)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		return 3
	}
	rep := runCheck(w, opt, "", "")
	rep.Extra = append(rep.Extra, w.matchChecks(o.prop)...)
	n, ok := rep.counts()
	if n == 0 {
		fmt.Fprintln(os.Stderr, "no obligations generated for", o.prop)
		return 2
	}
	known := loadKnown(filepath.Join(o.verif, "known-findings.txt"), o.prop)
	var bad []*Obl
	for _, f := range rep.failed() {
		if what, is := known[f.Name]; is {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", o.prop, what)
			n-- // not claimed
			continue
		}
		bad = append(bad, f)
	}
	js := rep.JSON().(map[string]any)
	fmt.Printf("%s: %d obligations generated from %s, %d discharged\n", o.prop, n, o.repo, ok)
	for _, f := range bad {
		fmt.Printf("undischarged: %s %s %s\n", f.Name, f.Pos, f.Src)
	}
	viol := 0
	if len(bad) > 0 {
		viol = 1
		dir := filepath.Join(o.verif, "evidence", "replay")
		os.MkdirAll(dir, 0755)
		path := filepath.Join(dir, o.prop+".txt")
		var b strings.Builder
		fmt.Fprintf(&b, "property %s is violated: obligations that the verifier accepts on the verified tree fail on this one.\n\n", o.prop)
		for _, f := range bad {
			fmt.Fprintf(&b, "obligation  %s\n  at        %s\n  states    %s\n  verifier  %s\n\n", f.Name, f.Pos, f.Src, f.Status+" (no proof found by z3, z3-new, cvc5)")
		}
		found := replay(o, seed, &b)
		os.WriteFile(path, []byte(b.String()), 0644)
		if found {
			fmt.Printf("VIOLATION property=%s replay=%s\n", o.prop, path)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", o.prop, path)
		}
	}
	var cross any
	if o.tier == "thorough" && viol == 0 {
		cross = rep.cross
	}
	cov := map[string]any{
		"obligations":              n,
		"discharged":               ok,
		"checker_cmd":              fmt.Sprintf("bash %s/check.sh %s %s", o.verif, o.prop, o.tier),
		"trusted_base":             append([]string{"govc, the condition generator in /verif/govc (go/ssa semantics, integers treated as mathematical integers)", "z3 4.8.12, z3 (z3-new), cvc5 1.1.2", "golang.org/x/tools/go/ssa and the Go compiler"}, js["trusted"].([]string)...),
		"functions_under_contract": js["functions"],
		"discharged_by":            js["by_backend"],
		"inlined_functions":        js["inlined"],
		"solver_ms":                js["solver_ms"],
		"undischarged":             js["failed"],
	}
	if cross != nil {
		cov["cross_checked"] = cross
	}
	as := append([]string{
		"machine integers do not overflow (they are counts, positions and offsets bounded by the input's size)",
		"no unsafe code, no goroutines in the verified packages (none exist)",
		"memory is sufficient; stack depth is not exceeded",
	}, js["assumed"].([]string)...)
	ev := map[string]any{
		"property": o.prop, "tier": o.tier, "seed": seed, "level": "proof", "coverage": cov, "assumptions": as,
		"wall_s": time.Since(t0).Seconds(), "violations": viol,
	}
	j, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(o.verif, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(o.verif, "evidence", o.prop+".json"), append(j, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if viol > 0 {
		return 1
	}
	return 0
}

func loadKnown(file, prop string) map[string]string {
	out := map[string]string{}
	f, err := os.Open(file)
	if err != nil {
		return out
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		// finding: property=C01 obligation=<name> :: what fails
		l := sc.Text()
		if !strings.HasPrefix(l, "finding: property="+prop+" obligation=") {
			continue
		}
		r := strings.TrimPrefix(l, "finding: property="+prop+" obligation=")
		if i := strings.Index(r, " :: "); i >= 0 {
			out[r[:i]] = r[i+4:]
		}
	}
	return out
}

// matchChecks: a contract of an exported function must find its function.
func (w *World) matchChecks(prop string) []*Obl {
	for _, f := range w.Funcs {
		w.contractFor(f)
	}
	var out []*Obl
	for _, c := range w.Specs.Contracts {
		if c.Extern || c.Invoke || w.used[c] || strings.Contains(c.Pattern, "*") {
			continue
		}
		n := c.Pattern[strings.LastIndex(c.Pattern, ".")+1:]
		if n == "" || n[0] < 'A' || n[0] > 'Z' {
			continue
		}
		has := false
		for _, cl := range c.Clauses {
			if hasTag(cl.Tags, prop) {
				has = true
			}
		}
		if has {
			out = append(out, &Obl{Name: "contract/" + c.Pkg + ":" + c.Pattern, Kind: "match", Tags: []string{prop}, Status: "failed", Src: "the function this contract is about does not exist"})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out
}

// replay looks for an input on which the real code breaks the property.
func replay(o runOpts, seed int, b *strings.Builder) bool {
	script := filepath.Join(o.verif, "replay", "run.sh")
	if _, err := os.Stat(script); err != nil {
		fmt.Fprintf(b, "no replay driver\n")
		return false
	}
	cmd := exec.Command("bash", script, o.prop, o.repo, o.tier)
	cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_SEED=%d", seed))
	out, err := cmd.CombinedOutput()
	fmt.Fprintf(b, "replay against the real code:\n%s\n", out)
	if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 1 && strings.Contains(string(out), "FAILING-INPUT") {
		return true
	}
	if err != nil {
		fmt.Fprintf(b, "replay driver: %v\n", err)
	}
	return false
}
