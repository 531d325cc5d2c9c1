package checks

import (
	"testing"

	"tshverif/gen"
	"tshverif/h"
	"tshverif/lang"

	"pgregory.net/rapid"
)

func TestC01(t *testing.T) {
	h.Check(t, func(t *rapid.T) {
		c := gen.Cfg{Panic: true, Switch: true, TypedErr: true, Multi: false, StrOrder: rapid.Bool().Draw(t, "strorder"),
			MinTop: 4, MaxTop: 10, MaxBlock: 3, Depth: 3, ExprDepth: 4}
		if h.Thorough() {
			c.MaxTop, c.MaxBlock, c.Depth, c.ExprDepth = 14, 4, 4, 5
		}
		p := gen.New(t, c).Program()
		execProgram(t, p, "bash", 64, func(r lang.Result) bool {
			m := r.Marks
			return m["print"] > 0 && (m["loop-iter"]+m["if-branch-0"]+m["if-branch-1"]+m["if-branch-2"]+m["switch-case"]+m["switch-default"] > 0)
		})
	})
}
