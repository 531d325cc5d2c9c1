package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"testing"
	"time"

	"tshverif/batchvm"
	"tshverif/gen"
	"tshverif/h"
	"tshverif/lang"

	"pgregory.net/rapid"
)

// ShapeCase: an accepted program whose scripts must be well-formed.
type ShapeCase struct {
	Files   map[string]h.Text
	Main    string
	Run     bool // run the Bash script as well: no helper may be missing
	NoBreak bool // no break belongs to a switch
	AllUsed bool // every function of the program is called somewhere
}

var shapeKind = h.NewKind("shape", checkShape)

func checkShape(c ShapeCase) string {
	dir := h.WriteTree("prog", c.Files)
	main := filepath.Join(dir, c.Main)
	src := "\n--- source\n" + string(c.Files[c.Main])
	ba := h.Transpile(main, "bash")
	if r := ba.Rejected(); r != "" {
		return "well-typed program is not accepted for bash: " + r + src
	}
	bt := h.Transpile(main, "batch")
	if r := bt.Rejected(); r != "" {
		return "well-typed program is not accepted for batch: " + r + src
	}
	sp := filepath.Join(h.Scratch(), "syntax.sh")
	if err := os.WriteFile(sp, []byte(ba.Script), 0o644); err != nil {
		h.Infra("%v", err)
	}
	n := h.Exec("/bin/bash", []string{"-n", sp}, h.RunOpt{})
	if n.Status != 0 || n.Stderr != "" || n.Signal != "" {
		return "bash -n: " + n.Stderr + src + "\n--- script\n" + ba.Script
	}
	if m := bashRoutines(ba.Script, c.AllUsed); m != "" {
		return "bash script: " + m + src + "\n--- script\n" + ba.Script
	}
	if c.Run {
		w := filepath.Join(h.Scratch(), "shapecwd")
		os.RemoveAll(w)
		if err := os.MkdirAll(w, 0o777); err != nil {
			h.Infra("%v", err)
		}
		os.Chmod(w, 0o777)
		r := h.Bash(ba.Script, h.RunOpt{Dir: w, Stdin: strings.Repeat("line\n", 50), Wall: 2 * time.Second})
		for _, l := range strings.Split(r.Stderr, "\n") {
			if i := strings.Index(l, ": command not found"); i >= 0 && !strings.Contains(l, "no/such") {
				if k := strings.LastIndex(l[:i], ": "); k >= 0 && helperish.MatchString(l[k+2:i]) {
					return "bash script: " + l + src + "\n--- script\n" + ba.Script
				}
			}
			if strings.Contains(l, "syntax error") || strings.Contains(l, "unexpected EOF") {
				return "bash script: " + l + src + "\n--- script\n" + ba.Script
			}
		}
	}
	sh := batchvm.Structure(bt.Script)
	if c.NoBreak {
		sh.Problems = append(sh.Problems, sh.Stray...)
	}
	if len(sh.Problems) > 0 {
		return "batch script: " + strings.Join(sh.Problems, "; ") + src + "\n--- script\n" + bt.Script
	}
	return ""
}

var helperish = regexp.MustCompile(`^[A-Za-z_][A-Za-z_0-9]*$`)
var bashDef = regexp.MustCompile(`(?m)^\s*(?:function\s+)?([A-Za-z_][A-Za-z0-9_]*)\s*\(\)\s*\{`)

// bashRoutines: every function the script defines is defined once and
// mentioned outside its own definition.
func bashRoutines(script string, allUsed bool) string {
	seen := map[string]bool{}
	for _, m := range bashDef.FindAllStringSubmatch(script, -1) {
		n := m[1]
		if seen[n] {
			return fmt.Sprintf("function %s is defined twice", n)
		}
		seen[n] = true
		if !allUsed {
			continue
		}
		if k := len(regexp.MustCompile(`(^|[^A-Za-z0-9_])`+n+`($|[^A-Za-z0-9_])`).FindAllString(script, -1)); k < 2 {
			return fmt.Sprintf("function %s is defined but never used", n)
		}
	}
	return ""
}

// switchBreaks: a break whose innermost breakable statement is a switch.
func switchBreaks(ss []*lang.Stmt, in bool) bool {
	for _, s := range ss {
		switch s.Op {
		case lang.SBreak:
			if in {
				return true
			}
		case lang.SFunc:
			if switchBreaks(s.F.Body, false) {
				return true
			}
		default:
			k := in
			switch s.Op {
			case lang.SSwitch:
				k = true
			case lang.SIf:
			default:
				k = false
			}
			if switchBreaks(s.Body, k) {
				return true
			}
			for _, b := range s.Branches {
				if switchBreaks(b.Body, k) {
					return true
				}
			}
		}
	}
	return false
}

// relatedNames gives functions (and some variables) short names that are made
// of the same few letters, so that names derived from them may coincide.
func relatedNames(t *rapid.T, m *lang.Module) {
	vars, funcs := moduleNames(m)
	set := map[string]bool{}
	for f := range funcs {
		set[f.Name] = true
	}
	for v := range vars {
		if gen.Uniform(t, 3, "var") == 0 {
			set[v.Name] = true
		}
	}
	used := map[string]bool{"if": true, "for": true, "func": true, "nil": true, "len": true}
	for f := range funcs {
		used[f.Name] = true
	}
	for v := range vars {
		used[v.Name] = true
	}
	var names []string
	for n := range set {
		names = append(names, n)
	}
	sortStrings(names)
	alphabet := gen.Pick(t, []string{"f_un", "f_", "ret_f", "eo_f0", "_f01", "i_e", "hech_", "_h0", "dv_1"}, "alphabet")
	r := map[string]string{}
	for _, n := range names {
		for {
			k := 1 + gen.Uniform(t, 5, "length")
			x := ""
			for len(x) < k {
				x += string(alphabet[gen.Uniform(t, len(alphabet), "letter")])
			}
			if x[0] >= '0' && x[0] <= '9' || used[x] || keywordsTsh[x] {
				alphabet += "abc"
				continue
			}
			used[x] = true
			r[n] = x
			break
		}
	}
	for f := range funcs {
		if r[f.Name] != "" {
			f.Name = r[f.Name]
		}
	}
	for v := range vars {
		if r[v.Name] != "" {
			v.Name = r[v.Name]
		}
	}
}

func TestC16(t *testing.T) {
	h.Check(t, func(t *rapid.T) {
		c := gen.Cfg{MinFuncs: 0, MaxFuncs: 4, Slices: true, Strings: true, Copy: true, Grow: true, BigSlices: true, SliceParm: true,
			Globals: true, Multi: true, Switch: true, Panic: true, TypedErr: true, CallAll: true, SmallInts: true, IO: true,
			ManyParms: true, Chars: "abcXYZ019 _.:-", MinTop: 1, MaxTop: 7, MaxBlock: 3, Depth: 3, ExprDepth: 3}
		// Each program uses a random part of the language, so that every
		// combination of helper routines occurs.
		drop := func(p *bool, l string) {
			if gen.Uniform(t, 3, l) == 0 {
				*p = false
			}
		}
		drop(&c.Slices, "slices")
		drop(&c.Strings, "strings")
		drop(&c.Copy, "copy")
		drop(&c.IO, "io")
		drop(&c.Switch, "switch")
		drop(&c.Multi, "multi")
		drop(&c.Panic, "panic")
		if gen.Uniform(t, 3, "chars") == 0 {
			c.Chars = cmdNeutral
			c.Words = cmdWords
		}
		if gen.Uniform(t, 4, "quotes") == 0 {
			c.Chars = "ab \"'$`\\()[]{};#*~=+-/.,:_"
		}
		if gen.Uniform(t, 4, "tiny") == 0 {
			c.MaxTop, c.MaxFuncs, c.Depth = 3, 1, 1
		}
		if h.Thorough() {
			c.MaxTop, c.MaxBlock, c.ExprDepth, c.MaxFuncs, c.Depth = c.MaxTop+6, 4, 4, c.MaxFuncs+3, c.Depth+1
		}
		g := gen.New(t, c)
		p := g.Program()
		if gen.Uniform(t, 2, "related") == 0 {
			relatedNames(t, p.Main)
			h.Class("related names")
		}
		sc := ShapeCase{Files: sources(p), Main: p.Main.File, Run: gen.Uniform(t, 3, "run") == 0, AllUsed: true}
		src := string(sc.Files[sc.Main])
		sc.NoBreak = true
		for _, m := range p.Mods {
			if switchBreaks(m.Items, false) {
				sc.NoBreak = false
				h.Class("break in a switch")
			}
		}
		builtins := 0
		for _, m := range p.Mods {
			lang.WalkStmts(m.Items, func(s *lang.Stmt) {
				if s.Op == lang.SWrite {
					h.Class("write")
					builtins++
				}
			}, func(e *lang.Expr) {
				switch e.Op {
				case lang.EInput:
					h.Class("input")
				case lang.ERead:
					h.Class("read")
				case lang.EExists:
					h.Class("exists")
				case lang.EApp:
					h.Class("app")
				case lang.ECopy:
					h.Class("copy")
				case lang.ELen:
					h.Class("len")
				case lang.ESub:
					h.Class("substring")
				default:
					return
				}
				builtins++
			})
		}
		staticClasses(p)
		h.Count(src, builtins > 0 || strings.Contains(src, "for ") || strings.Contains(src, "if ") || strings.Contains(src, "switch "),
			func() any { return map[string]any{"source": src} })
		shapeKind.Run(t, sc)
	})
}
