package checks

import (
	"testing"

	"tshverif/gen"
	"tshverif/h"
	"tshverif/lang"

	"pgregory.net/rapid"
)

// cmdNeutral are characters without a meaning to cmd.exe in any position the
// back-end uses (no % ! ^ & | < > " ?).
const cmdNeutral = "abcxyzABCXYZ0123456789 _-.,:/+=#@()[]{}';~*$\\"

var cmdWords = []string{"0", "1", "01", "10", "9", "-1", "0x10", "on", "off", "(", ")", "  ", " a", "a ", "a  b", "=", "a=b", ";x", ",", ":eof", "rem", "a;b", "~", "x_len", "_h0", "==", "()", "''", "a\nb"}

func batchCfg(t *rapid.T) gen.Cfg {
	c := gen.Cfg{Bits: 32, Switch: true, Panic: true, Chars: cmdNeutral, Words: cmdWords,
		MinTop: 4, MaxTop: 9, MaxBlock: 3, Depth: 3, ExprDepth: 3}
	switch gen.Uniform(t, 4, "fragment") {
	case 0: // C01
		c.ExprDepth = 4
	case 1: // C02
		c.MinFuncs, c.MaxFuncs, c.Globals, c.Multi, c.ManyParms, c.SliceParm, c.CallAll = 1, 5, true, true, true, true, true
		c.Slices = rapid.Bool().Draw(t, "slices")
		c.Grow, c.SmallInts, c.Depth = true, true, 2
		if gen.Uniform(t, 4, "names") > 0 {
			c.VarNames = fewNames
		}
	case 2: // C03
		c.MaxFuncs, c.Slices, c.Strings, c.Copy, c.Grow, c.BigSlices, c.SliceParm, c.Globals, c.Multi, c.SmallInts = 3, true, true, true, true, true, true, true, true, true
	case 3: // C04
		c.MinFuncs, c.MaxFuncs, c.Slices, c.Strings, c.Copy, c.Grow, c.Globals, c.Multi, c.SmallInts, c.Trace, c.CallAll = 1, 4, true, true, true, true, true, true, true, true, true
		c.Depth = 2
	}
	if h.Thorough() {
		c.MaxTop, c.MaxBlock, c.ExprDepth = c.MaxTop+4, 4, c.ExprDepth+1
		if c.MaxFuncs > 0 {
			c.MaxFuncs += 2
		}
	}
	return c
}

func TestC05(t *testing.T) {
	h.Check(t, func(t *rapid.T) {
		var p *lang.Program
		if gen.Uniform(t, 8, "mode") == 7 {
			p = gen.Hazards(t, gen.Cfg{Bits: 32})
			h.Class("hazards")
		} else {
			p = gen.New(t, batchCfg(t)).Program()
		}
		both := gen.Uniform(t, 8, "both") == 7
		ok := execProgram(t, p, "batch", 32, func(r lang.Result) bool {
			m := r.Marks
			return m["print"] > 0 && m["loop-iter"]+m["if-branch-0"]+m["if-branch-1"]+m["if-branch-2"]+m["switch-case"]+m["switch-default"]+m["call"]+m["range-iter"]+m["copy"] > 0
		})
		if !ok || !both {
			return
		}
		// The Bash script of the same program prints the same, unless 32 and 64
		// bit arithmetic differ on it.
		r32, _ := runRef(p, 32)
		r64, ok := runRef(p, 64)
		if !ok || r32.Out != r64.Out || r32.Status != r64.Status {
			return
		}
		h.Class("compared with bash")
		execKind.Run(t, ExecCase{Files: sources(p), Main: p.Main.File, Target: "bash", Want: h.Text(r64.Out), Status: r64.Status})
	})
}
