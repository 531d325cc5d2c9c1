package checks

import (
	"testing"

	"tshverif/gen"
	"tshverif/h"
	"tshverif/lang"

	"pgregory.net/rapid"
)

func TestC04(t *testing.T) {
	h.Check(t, func(t *rapid.T) {
		nt := func(r lang.Result) bool { return r.Marks["call"] >= 3 }
		if gen.Uniform(t, 3, "mode") == 2 {
			if execProgram(t, gen.Hazards(t, gen.Cfg{}), "bash", 64, nt) {
				h.Class("hazards")
			}
			return
		}
		c := gen.Cfg{MinFuncs: 1, MaxFuncs: 5, Slices: true, Strings: true, Copy: true, Grow: true,
			Globals: true, Multi: true, Switch: true, SmallInts: true, Trace: true,
			MinTop: 3, CallAll: true, MaxTop: 8, MaxBlock: 3, Depth: 2, ExprDepth: 3}
		if h.Thorough() {
			c.MaxFuncs, c.MaxTop, c.MaxBlock, c.Depth, c.ExprDepth = 7, 12, 4, 3, 4
		}
		p := gen.New(t, c).Program()
		execProgram(t, p, "bash", 64, nt)
	})
}
