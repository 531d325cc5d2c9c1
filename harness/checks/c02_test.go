package checks

import (
	"testing"

	"tshverif/gen"
	"tshverif/h"
	"tshverif/lang"

	"pgregory.net/rapid"
)

// Few names for many variables: parameters, locals, globals and callers'
// variables coincide most of the time.
var fewNames = []string{"a", "b", "c", "n", "x"}

func TestC02(t *testing.T) {
	h.Check(t, func(t *rapid.T) {
		c := gen.Cfg{MinFuncs: 1, MaxFuncs: 5, Panic: true, Switch: true, Globals: true, Multi: true, ManyParms: true,
			Slices: rapid.Bool().Draw(t, "slices"), SliceParm: true, Grow: true, TypedErr: true,
			MinTop: 3, CallAll: true, MaxTop: 9, MaxBlock: 4, Depth: 2, ExprDepth: 3, SmallInts: true}
		if h.Thorough() {
			c.MaxFuncs, c.MaxTop, c.MaxBlock, c.Depth, c.ExprDepth = 8, 12, 5, 3, 4
		}
		if gen.Uniform(t, 4, "names") > 0 {
			c.VarNames = fewNames
		}
		p := gen.New(t, c).Program()
		execProgram(t, p, "bash", 64, func(r lang.Result) bool { return r.Marks["call"] >= 2 && r.Marks["print"] > 0 })
	})
}
