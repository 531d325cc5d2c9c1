package checks

import (
	"fmt"
	"path/filepath"
	"strings"

	"tshverif/batchvm"
	"tshverif/h"
	"tshverif/lang"

	"pgregory.net/rapid"
)

// ExecCase: source files, and what the executed script must do.
type ExecCase struct {
	Files  map[string]h.Text
	Main   string
	Target string // bash or batch
	Stdin  h.Text
	Want   h.Text
	Status int
}

var execKind = h.NewKind("exec", checkExec)

func checkExec(c ExecCase) string {
	dir := h.WriteTree("prog", c.Files)
	o := h.Transpile(filepath.Join(dir, c.Main), c.Target)
	if r := o.Rejected(); r != "" {
		return "well-typed program is not accepted for " + c.Target + ": " + r + "\n" + string(c.Files[c.Main])
	}
	var out, serr string
	var status int
	if c.Target == "batch" {
		r := batchvm.Run(o.Script, batchvm.Opt{Stdin: string(c.Stdin)})
		if r.Timeout {
			return "script does not terminate\n--- source\n" + string(c.Files[c.Main]) + "\n--- script\n" + o.Script
		}
		if r.Unsupported != "" {
			h.Infra("cmd.exe model: %s\n%s", r.Unsupported, o.Script)
		}
		out, serr, status = r.Out, r.Err, r.Status
	} else {
		r := h.Bash(o.Script, h.RunOpt{Stdin: string(c.Stdin)})
		if r.Signal != "" {
			return fmt.Sprintf("script does not terminate normally (%s)\n%s\n--- script\n%s", r.Signal, c.Files[c.Main], o.Script)
		}
		out, serr, status = r.Stdout, r.Stderr, r.Status
	}
	var msg string
	switch {
	case serr != "":
		msg = "script writes to standard error: " + serr
	case out != string(c.Want):
		msg = "output differs: " + h.Diff(string(c.Want), out)
	case status != c.Status:
		msg = fmt.Sprintf("exit status %d, want %d", status, c.Status)
	default:
		return ""
	}
	return msg + "\n--- source\n" + string(c.Files[c.Main]) + "\n--- script\n" + o.Script
}

func sources(p *lang.Program) map[string]h.Text {
	m := map[string]h.Text{}
	for _, x := range p.Mods {
		m[x.File] = h.Text(x.Source())
	}
	return m
}

// runRef runs the reference interpreter; ok is false when the program leaves
// the domain of the property.
func runRef(p *lang.Program, bits int) (lang.Result, bool) {
	in := &lang.Interp{Bits: bits}
	if bits == 32 {
		in.MaxStr, in.Fuel = 70, 2500
	}
	r := in.Run(p)
	if r.Undef != "" {
		h.Discard()
		h.Class("discard: " + strings.SplitN(r.Undef, ":", 2)[0])
		return r, false
	}
	return r, true
}

func execProgram(t *rapid.T, p *lang.Program, target string, bits int, nontrivial func(lang.Result) bool) bool {
	r, ok := runRef(p, bits)
	if !ok {
		return false
	}
	c := ExecCase{Files: sources(p), Main: p.Main.File, Target: target, Want: h.Text(r.Out), Status: r.Status}
	src := string(c.Files[c.Main])
	h.Count(src, nontrivial(r), func() any { return map[string]any{"source": src, "want": r.Out, "status": r.Status} })
	for m := range r.Marks {
		h.Class(m)
	}
	staticClasses(p)
	execKind.Run(t, c)
	return true
}

var stmtNames = map[lang.SOp]string{
	lang.SVarDef: "var", lang.SShort: "short-def", lang.SAssign: "assign", lang.SCompound: "compound", lang.SIncDec: "incdec",
	lang.SSliceAssign: "slice-assign", lang.SIf: "if", lang.SSwitch: "switch", lang.SFor: "for", lang.SForRange: "range",
	lang.SBreak: "break", lang.SContinue: "continue", lang.SReturn: "return", lang.SPrint: "print", lang.SPanic: "panic",
}

func staticClasses(p *lang.Program) {
	seen := map[string]bool{}
	for _, m := range p.Mods {
		lang.WalkStmts(m.Items, func(s *lang.Stmt) {
			if n := stmtNames[s.Op]; n != "" {
				seen["stmt "+n] = true
			}
			if len(s.Vars) > 1 && s.Op != lang.SForRange {
				seen["multi "+stmtNames[s.Op]] = true
			}
		}, func(e *lang.Expr) {
			switch e.Op {
			case lang.EBin, lang.ECmp, lang.ELog:
				seen[fmt.Sprintf("op %s %s", e.A[0].T.Norm(), e.Sym)] = true
			}
		})
	}
	for k := range seen {
		h.Class(k)
	}
}
