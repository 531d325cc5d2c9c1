package checks

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"testing"

	"tshverif/batchvm"
	"tshverif/gen"
	"tshverif/h"
	"tshverif/lang"

	"pgregory.net/rapid"
)

// RejectCase: files that must not be translated, for either target.
type RejectCase struct {
	Files map[string]h.Text
	Main  string
	Why   string
}

var rejectKind = h.NewKind("reject", checkReject)

func allFiles(fs map[string]h.Text, main string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "\n--- %s\n%s", main, fs[main])
	var names []string
	for n := range fs {
		if n != main {
			names = append(names, n)
		}
	}
	sortStrings(names)
	for _, n := range names {
		fmt.Fprintf(&b, "\n--- %s\n%s", n, fs[n])
	}
	return b.String()
}

func checkReject(c RejectCase) string {
	dir := h.WriteTree("prog", c.Files)
	for _, tg := range []string{"bash", "batch"} {
		o := h.Transpile(filepath.Join(dir, c.Main), tg)
		if o.Panic != "" {
			return tg + ": transpiler panicked: " + o.Panic + allFiles(c.Files, c.Main)
		}
		if o.Err == nil {
			return fmt.Sprintf("%s: accepted although %s%s", tg, c.Why, allFiles(c.Files, c.Main))
		}
		if o.Script != "" {
			return fmt.Sprintf("%s: error together with a script (%s)%s", tg, c.Why, allFiles(c.Files, c.Main))
		}
	}
	return ""
}

// LinkCase: a multi-file program, what it prints, and that its scripts invoke
// nothing they do not contain.
type LinkCase struct {
	Files  map[string]h.Text
	Main   string
	Want   h.Text
	Status int
	Batch  bool // run the Batch script as well
}

var linkKind = h.NewKind("link", checkLink)

var lineWord = regexp.MustCompile(`^\s*([A-Za-z_.][A-Za-z0-9_.]*)(?:\s|$)`)
var bashWords = map[string]bool{}

func init() {
	for _, w := range strings.Fields(`if then elif else fi for while until do done case esac function select time in
		break continue return exit local declare typeset export unset eval exec echo printf read set shift test true false trap let
		source type ulimit umask wait cd command builtin mapfile readarray getopts hash pwd shopt alias unalias readonly`) {
		bashWords[w] = true
	}
}

// undefinedBash returns a word in command position that is neither defined in
// the script nor known to the shell.
func undefinedBash(script string) string {
	def := map[string]bool{}
	for _, m := range regexp.MustCompile(`(?m)^\s*(?:function\s+)?([A-Za-z_.][A-Za-z0-9_.]*)\s*\(\)`).FindAllStringSubmatch(script, -1) {
		def[m[1]] = true
	}
	for _, l := range strings.Split(script, "\n") {
		m := lineWord.FindStringSubmatch(l)
		if m == nil || def[m[1]] || bashWords[m[1]] {
			continue
		}
		if _, err := exec.LookPath(m[1]); err == nil {
			continue
		}
		return l
	}
	return ""
}

func checkLink(c LinkCase) string {
	dir := h.WriteTree("prog", c.Files)
	main := filepath.Join(dir, c.Main)
	src := allFiles(c.Files, c.Main)
	ba := h.Transpile(main, "bash")
	if r := ba.Rejected(); r != "" {
		return "program is not accepted for bash: " + r + src
	}
	bt := h.Transpile(main, "batch")
	if r := bt.Rejected(); r != "" {
		return "program is not accepted for batch: " + r + src
	}
	r := h.Bash(ba.Script, h.RunOpt{})
	tail := src + "\n--- script\n" + ba.Script
	if r.Signal != "" {
		return "script does not terminate normally (" + r.Signal + ")" + tail
	}
	if r.Stderr != "" {
		return "script writes to standard error: " + r.Stderr + tail
	}
	if r.Stdout != string(c.Want) {
		return "output differs: " + h.Diff(string(c.Want), r.Stdout) + tail
	}
	if r.Status != c.Status {
		return fmt.Sprintf("exit status %d, want %d%s", r.Status, c.Status, tail)
	}
	if l := undefinedBash(ba.Script); l != "" {
		return fmt.Sprintf("bash script invokes something it does not contain: %q%s", l, tail)
	}
	tail = src + "\n--- script\n" + bt.Script
	if sh := batchvm.Structure(bt.Script); len(sh.Problems) > 0 {
		return "batch script: " + strings.Join(sh.Problems, "; ") + tail
	}
	if c.Batch {
		r := batchvm.Run(bt.Script, batchvm.Opt{})
		if r.Timeout {
			return "batch script does not terminate" + tail
		}
		if r.Unsupported != "" {
			h.Infra("cmd.exe model: %s\n%s", r.Unsupported, bt.Script)
		}
		if r.Err != "" {
			return "batch script writes to standard error: " + r.Err + tail
		}
		if r.Out != string(c.Want) {
			return "batch output differs: " + h.Diff(string(c.Want), r.Out) + tail
		}
		if r.Status != c.Status {
			return fmt.Sprintf("batch exit status %d, want %d%s", r.Status, c.Status, tail)
		}
	}
	return ""
}

func modCfg(t *rapid.T) gen.Cfg {
	c := gen.Cfg{MinFuncs: 0, MaxFuncs: 5, Switch: true, Globals: true, Multi: true, Panic: true, Strings: true,
		Slices: gen.Uniform(t, 2, "slices") == 0, SliceParm: true, Grow: true, TypedErr: true, SmallInts: true,
		CallAll: gen.Uniform(t, 3, "callall") == 0, MinTop: 2, MaxTop: 6, MaxBlock: 3, Depth: 2, ExprDepth: 3,
		Chars: cmdNeutral, Words: cmdWords[:len(cmdWords)-1]}
	if gen.Uniform(t, 3, "names") > 0 {
		c.VarNames = fewNames
	}
	if h.Thorough() {
		c.MaxFuncs, c.MaxTop, c.MaxBlock = 8, 9, 4
	}
	return c
}

func TestC09(t *testing.T) {
	h.Check(t, func(t *rapid.T) {
		switch gen.Uniform(t, 8, "mode") {
		case 0, 1:
			linkNegative(t)
		case 2:
			linkTwins(t)
		default:
			linkRandom(t)
		}
	})
}

func linkRandom(t *rapid.T) {
	c := modCfg(t)
	mc := gen.ModCfg{Min: 1, Max: 4}
	if h.Thorough() {
		mc.Max = 7
	}
	p := gen.New(t, c).Modules(mc)
	r, ok := runRef(p, 64)
	if !ok {
		return
	}
	lc := LinkCase{Files: sources(p), Main: p.Main.File, Want: h.Text(r.Out), Status: r.Status}
	if gen.Uniform(t, 2, "batch") == 0 {
		in := &lang.Interp{Bits: 32, MaxStr: 70, Fuel: 2500}
		r2 := in.Run(p)
		lc.Batch = r2.Undef == "" && r2.Out == r.Out && r2.Status == r.Status
	}
	edges, multi, crossCalls := 0, false, 0
	for _, m := range p.Mods {
		seen := map[*lang.Module]bool{}
		for _, im := range m.Imports {
			edges++
			multi = multi || seen[im.Mod]
			seen[im.Mod] = true
		}
		lang.WalkStmts(m.Items, nil, func(e *lang.Expr) {
			if e.Alias != "" {
				crossCalls++
			}
		})
	}
	h.Class(fmt.Sprintf("files %d", len(p.Mods)))
	if edges >= len(p.Mods) {
		h.Class("file reached along several paths")
	}
	if multi {
		h.Class("file imported under several aliases")
	}
	if lc.Batch {
		h.Class("run in the cmd.exe model")
	}
	for m := range r.Marks {
		if m == "crosscall" {
			h.Class("call into another file executed")
		}
	}
	h.Count(allFiles(lc.Files, lc.Main), crossCalls > 0 && r.Marks["print"] > 0, func() any {
		return map[string]any{"files": lc.Files, "want": r.Out}
	})
	linkKind.Run(t, lc)
}

// linkNegative adds one illegal reference to a legal multi-file program.
func linkNegative(t *rapid.T) {
	c := modCfg(t)
	c.MaxTop, c.Depth = 4, 1
	p := gen.New(t, c).Modules(gen.ModCfg{Min: 1, Max: 3})
	var withImports []*lang.Module
	for _, m := range p.Mods {
		if len(m.Imports) > 0 {
			withImports = append(withImports, m)
		}
	}
	m := gen.Pick(t, withImports, "module")
	var why, stmt string
	args := func(f *lang.Func) string {
		var a []string
		for _, v := range f.Params {
			a = append(a, zeroText(v.T))
		}
		return "(" + strings.Join(a, ", ") + ")"
	}
	has := func(x *lang.Module, name string) bool {
		for _, s := range x.Items {
			if s.Op == lang.SFunc && s.F.Name == name {
				return true
			}
		}
		return false
	}
	pickFunc := func(want bool) (im lang.Import, f *lang.Func) {
		var ims []lang.Import
		var fs []*lang.Func
		for _, i := range m.Imports {
			for _, s := range i.Mod.Items {
				if s.Op == lang.SFunc && (s.F.Name[0] >= 'A' && s.F.Name[0] <= 'Z') == want {
					ims, fs = append(ims, i), append(fs, s.F)
				}
			}
		}
		if len(fs) == 0 {
			return
		}
		k := gen.Uniform(t, len(fs), "f")
		return ims[k], fs[k]
	}
	isAlias := func(a string) bool {
		for _, i := range m.Imports {
			if i.Alias == a {
				return true
			}
		}
		return false
	}
	first := gen.Uniform(t, 7, "neg")
	for k := 0; k < 7 && why == ""; k++ {
		switch (first + k) % 7 {
		case 0:
			im, f := pickFunc(false)
			if f == nil {
				break
			}
			why, stmt = "a private function is called through an alias", im.Alias+"."+f.Name+args(f)
		case 1:
			if len(m.Imports) == 0 {
				break
			}
			im := gen.Pick(t, m.Imports, "im")
			n := gen.Pick(t, []string{"Missing", "Get", "Set", "F", "Run", "GET", "Reset"}, "n")
			if has(im.Mod, n) {
				break
			}
			why, stmt = "an undefined function is called through an alias", im.Alias+"."+n+"()"
		case 2:
			_, f := pickFunc(true)
			if f == nil || has(m, f.Name) {
				break
			}
			why, stmt = "an imported function is called without an alias", f.Name+args(f)
		case 3:
			_, f := pickFunc(true)
			a := gen.Pick(t, []string{"nope", "m", "lib", "M", "p", "strs", "_u"}, "a")
			if f == nil || isAlias(a) {
				break
			}
			why, stmt = "an unknown alias is used", a+"."+f.Name+args(f)
		case 4: // the import's import
			for _, im := range m.Imports {
				for _, im2 := range im.Mod.Imports {
					for _, s := range im2.Mod.Items {
						if s.Op == lang.SFunc && !has(im.Mod, s.F.Name) {
							why, stmt = "a function of an import's import is called through the import", im.Alias+"."+s.F.Name+args(s.F)
						}
					}
				}
			}
		case 5: // the alias of another file
			var fs []string
			for _, x := range p.Mods {
				for _, im := range x.Imports {
					if x == m || isAlias(im.Alias) {
						continue
					}
					for _, s := range im.Mod.Items {
						if s.Op == lang.SFunc && s.F.Name[0] >= 'A' && s.F.Name[0] <= 'Z' {
							fs = append(fs, im.Alias+"."+s.F.Name+args(s.F))
						}
					}
				}
			}
			if len(fs) > 0 {
				why, stmt = "another file's alias is used", gen.Pick(t, fs, "f")
			}
		case 6: // a variable of another file
			var vs []string
			own := map[string]bool{}
			for _, x := range m.Items {
				lang.WalkStmt(x, func(s *lang.Stmt) {
					for _, v := range s.Vars {
						own[v.Name] = true
					}
				}, nil)
			}
			for _, im := range m.Imports {
				for _, s := range im.Mod.Items {
					if s.Op == lang.SVarDef || s.Op == lang.SShort {
						for _, v := range s.Vars {
							if !own[v.Name] {
								vs = append(vs, v.Name)
							}
						}
					}
				}
			}
			if len(vs) > 0 {
				why, stmt = "another file's variable is used", gen.Pick(t, vs, "v")+" = "+gen.Pick(t, vs, "v")
			}
		}
	}
	if why == "" {
		h.Discard()
		h.Class("discard: no candidate")
		return
	}
	fs := sources(p)
	src := string(fs[m.File])
	if gen.Uniform(t, 2, "end") == 0 || len(m.Items) == 0 {
		src = strings.TrimSuffix(src, "\n") + "\n" + gen.Pick(t, []string{"%s\n", "if true {\n%s\n}\n", "for i9 := 0; i9 < 1; i9++ {\n%s\n}\n", "func zz() {\n%s\n}\n", "func ZZ() {\nif true {\n%s\n}\n}\n"}, "wrap")
		src = strings.Replace(src, "%s", stmt, 1)
	} else {
		src += stmt
	}
	fs[m.File] = h.Text(src)
	rc := RejectCase{Files: fs, Main: p.Main.File, Why: why}
	// The program without the reference has to be accepted.
	if !acceptedBoth(sources(p), p.Main.File) {
		linkKind.Run(t, LinkCase{Files: sources(p), Main: p.Main.File})
	}
	h.Class("negative: " + why)
	h.Count(allFiles(fs, rc.Main), true, func() any { return map[string]any{"files": fs, "why": why} })
	rejectKind.Run(t, rc)
}

func acceptedBoth(fs map[string]h.Text, main string) bool {
	dir := h.WriteTree("prog", fs)
	for _, tg := range []string{"bash", "batch"} {
		if h.Transpile(filepath.Join(dir, main), tg).Rejected() != "" {
			return false
		}
	}
	return true
}

func zeroText(t lang.Type) string {
	if t.Slice {
		return t.String() + "{}"
	}
	switch t.K {
	case lang.KBool:
		return "false"
	case lang.KInt:
		return "0"
	}
	return `""`
}

// linkTwins: files that are equal in content (or up to layout), reached under
// several paths and aliases: one counter per file, shared by all its aliases.
func linkTwins(t *rapid.T) {
	n := gen.Uniform(t, 3, "files") + 2
	fs := map[string]h.Text{}
	var paths []string
	start := gen.Uniform(t, 50, "start")
	pad := strings.Repeat("x", gen.Uniform(t, 6, "pad"))
	body := func(layout int) string {
		s := fmt.Sprintf("var n = %d\nfunc bump%s() {\n\tn++\n}\nfunc Next() int {\n\tbump%s()\n\treturn n\n}\nprint(\"init\", n)\n", start, pad, pad)
		switch layout {
		case 1:
			s = "// a comment\n\n" + s
		case 2:
			s = strings.ReplaceAll(s, "\n", "\r\n")
		case 3:
			s = strings.ReplaceAll(s, "\t", "") + "\n\n"
		}
		return s
	}
	var same []string
	for i := 0; i < n; i++ {
		p := []string{"a.tsh", "b.tsh", "d/a.tsh", "d/e/a.tsh"}[i]
		lay := 0
		if gen.Uniform(t, 2, "lay") == 0 {
			lay = gen.Uniform(t, 4, "layout")
		}
		fs[p] = h.Text(body(lay))
		paths = append(paths, p)
		same = append(same, p)
	}
	// An intermediate file that uses one of them.
	mid := ""
	midOf := 0
	if gen.Uniform(t, 2, "mid") == 0 {
		midOf = gen.Uniform(t, n, "midof")
		mid = "sub/mid.tsh"
		fs[mid] = h.Text(fmt.Sprintf("import x \"../%s\"\nfunc Next() int {\n\treturn x.Next()\n}\nprint(\"mid\", x.Next())\n", paths[midOf]))
	}
	var want strings.Builder
	cnt := make([]int, n)
	seen := make([]bool, n)
	imports := "import (\n"
	type al struct {
		name string
		of   int
	}
	var als []al
	load := func(i int) {
		if !seen[i] {
			seen[i] = true
			cnt[i] = start
			fmt.Fprintf(&want, "init %d\n", start)
		}
	}
	midAt := gen.Uniform(t, n+1, "midat")
	midSeen := false
	for k := 0; k <= n+2; k++ {
		if k == midAt && mid != "" {
			imports += fmt.Sprintf("mid \"%s\"\n", mid)
			load(midOf)
			cnt[midOf]++
			fmt.Fprintf(&want, "mid %d\n", cnt[midOf])
			midSeen = true
			als = append(als, al{"mid", midOf})
			continue
		}
		i := gen.Uniform(t, n, "which")
		if k < n {
			i = k
		}
		a := fmt.Sprintf("m%d", k)
		imports += fmt.Sprintf("%s \"%s\"\n", a, paths[i])
		load(i)
		als = append(als, al{a, i})
	}
	if mid != "" && !midSeen {
		h.Infra("twins: mid")
	}
	main := imports + ")\n"
	for k := gen.Uniform(t, 8, "calls") + 2; k > 0; k-- {
		a := gen.Pick(t, als, "alias")
		main += fmt.Sprintf("print(\"%s\", %s.Next())\n", a.name, a.name)
		cnt[a.of]++
		fmt.Fprintf(&want, "%s %d\n", a.name, cnt[a.of])
	}
	fs["main.tsh"] = h.Text(main)
	h.Class("twins")
	h.Count(allFiles(fs, "main.tsh"), true, nil)
	linkKind.Run(t, LinkCase{Files: fs, Main: "main.tsh", Want: h.Text(want.String()), Batch: true})
}

var _ = os.Getenv
