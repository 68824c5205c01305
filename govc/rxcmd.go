package main

import (
	"fmt"
	"go/constant"

	"golang.org/x/tools/go/ssa"
)

// rxTable prints how the repository's own pattern table relates to the
// specification's reading of the patterns.
func rxTable(w *World) {
	for _, p := range w.Prog.AllPackages() {
		if !inRepo(p.Func("init")) {
			continue
		}
		for gl, c := range w.evalInit(p) {
			var _ *ssa.Global = gl
			if c.Kind != "map" {
				continue
			}
			for _, k := range c.keys() {
				if c.Map[k].Kind == "regexp" {
					vim := constant.StringVal(c.KeyC[k])
					goo := constant.StringVal(c.Map[k].C)
					fmt.Printf("%s %q %q same=%v\n", gl.Name(), vim, goo, w.rxID(vim) == w.rxGoID(goo))
				}
			}
		}
	}
}
