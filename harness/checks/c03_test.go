package checks

import (
	"testing"

	"tshverif/gen"
	"tshverif/h"
	"tshverif/lang"

	"pgregory.net/rapid"
)

func TestC03(t *testing.T) {
	h.Check(t, func(t *rapid.T) {
		c := gen.Cfg{MaxFuncs: 3, Slices: true, Strings: true, Copy: true, Grow: true, BigSlices: true, SliceParm: true,
			Globals: true, Multi: true, Switch: true, SmallInts: true,
			MinTop: 5, MaxTop: 12, MaxBlock: 4, Depth: 2, ExprDepth: 3}
		if h.Thorough() {
			c.MaxFuncs, c.MaxTop, c.MaxBlock, c.Depth, c.ExprDepth = 5, 18, 5, 3, 4
		}
		p := gen.New(t, c).Program()
		sl, st := false, false
		for _, m := range p.Mods {
			lang.WalkStmts(m.Items, func(s *lang.Stmt) {
				if s.Op == lang.SSliceAssign {
					sl = true
				}
			}, func(e *lang.Expr) {
				switch e.Op {
				case lang.ESub:
					st = true
				case lang.EIndex:
					if e.A[0].T.Slice {
						sl = true
					} else {
						st = true
					}
				case lang.ECopy:
					sl = true
				}
			})
		}
		if sl {
			h.Class("slice-ops")
		}
		if st {
			h.Class("string-ops")
		}
		execProgram(t, p, "bash", 64, func(r lang.Result) bool { return (sl || st) && r.Marks["print"] > 0 })
	})
}
