package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"tshverif/gen"
	"tshverif/h"

	"pgregory.net/rapid"
)

// CLICase: one run of the tsh command in a directory tree of its own.
type CLICase struct {
	Files   map[string]h.Text // below src/
	Main    string
	OutDir  string
	Cwd     string
	InForm  int // 0 absolute, 1 relative, 2 relative with detours
	OutForm int // as InForm, 3 with a trailing slash
	Opts    []CLIOpt
	Fault   string
	Extra   string            // name used by some faults
	Pre     map[string]h.Text // present in the output directory before
	Link    bool              // the input is a symbolic link in the same directory
}

type CLIOpt struct {
	Kind string // i, o, t
	Long bool
	V    string // for t
}

var cliKind = h.NewKind("cli", checkCLI)

var cliFaults = []string{"", "", "", "", "", "unknown option", "missing value", "lone value", "no input", "no output", "no type", "unknown type", "missing input", "input directory", "unreadable input", "missing output", "output is a file", "empty input", "empty output",
	"unwritable directory", "read-only file", "output path is a directory", "full disk", "input is output", "input is output by hard link", "input is output by symbolic link", "no options", "type as option"}

var cliExt = map[string]string{"bash": ".sh", "batch": ".bat"}

func cliStem(f string) string {
	f = filepath.Base(f)
	if i := strings.LastIndexByte(f, '.'); i >= 0 {
		return f[:i]
	}
	return f
}

// snapshot maps every path below root to its kind and content.
func snapshot(root string) map[string]string {
	m := map[string]string{}
	filepath.Walk(root, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			h.Infra("%v", err)
		}
		rel, _ := filepath.Rel(root, p)
		switch {
		case i.IsDir():
			m[rel] = "directory"
		case i.Mode()&os.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			m[rel] = "link to " + l
		default:
			b, err := os.ReadFile(p)
			if err != nil {
				h.Infra("%v", err)
			}
			m[rel] = "file " + string(b)
		}
		return nil
	})
	return m
}

func checkCLI(c CLICase) string {
	work := os.Getenv("VERIF_WORK")
	if work == "" {
		h.Infra("no tsh binary")
	}
	root := freshDir("cli")
	mk := func(p, s string, mode os.FileMode) {
		p = filepath.Join(root, p)
		if err := os.MkdirAll(filepath.Dir(p), 0o777); err != nil {
			h.Infra("%v", err)
		}
		if err := os.WriteFile(p, []byte(s), mode); err != nil {
			h.Infra("%v", err)
		}
		os.Chmod(p, mode)
	}
	must := func(err error) {
		if err != nil {
			h.Infra("%v", err)
		}
	}
	for n, s := range c.Files {
		mk(filepath.Join("src", n), string(s), 0o644)
	}
	for _, d := range []string{c.OutDir, c.Cwd, "src"} {
		must(os.MkdirAll(filepath.Join(root, d), 0o777))
	}
	in := filepath.Join("src", c.Main)
	if c.Link {
		real := filepath.Join(filepath.Dir(in), "the real one")
		must(os.Rename(filepath.Join(root, in), filepath.Join(root, real)))
		must(os.Symlink("the real one", filepath.Join(root, in)))
	}
	for n, s := range c.Pre {
		mk(filepath.Join(c.OutDir, n), string(s), 0o666)
	}
	// Everything is the user's, whatever the umask is.
	filepath.Walk(root, func(p string, i os.FileInfo, err error) error {
		if err == nil && i.IsDir() {
			must(os.Chmod(p, 0o777))
		}
		return nil
	})
	// The library's results.
	lib := map[string]h.Out{}
	stem := cliStem(c.Main)
	outs := map[string]string{} // path -> target
	anyErr := false
	for _, o := range c.Opts {
		if e, ok := cliExt[o.V]; ok && o.Kind == "t" {
			outs[filepath.Join(c.OutDir, stem+e)] = o.V
		}
	}
	for _, tg := range outs {
		o := h.Transpile(filepath.Join(root, in), tg)
		if o.Panic != "" { // decided by C13
			h.Discard()
			return ""
		}
		lib[tg] = o
		anyErr = anyErr || o.Err != nil
	}
	var outPaths []string
	for p := range outs {
		outPaths = append(outPaths, p)
	}
	sort.Strings(outPaths)
	cwd := filepath.Join(root, c.Cwd)
	form := func(p string, f int) string {
		switch abs := filepath.Join(root, p); f {
		case 0:
			return abs
		case 1, 3:
			r, _ := filepath.Rel(cwd, abs)
			if f == 3 {
				return r + "/"
			}
			return r
		default:
			r, _ := filepath.Rel(cwd, abs)
			return "../" + filepath.Base(cwd) + "/./" + r
		}
	}
	inArg, outArg := form(in, c.InForm), form(c.OutDir, c.OutForm)
	// Faults of the environment.
	writeFault := map[string]bool{}
	switch c.Fault {
	case "missing input":
		inArg += "x"
	case "input directory":
		inArg = form("src", c.InForm)
	case "empty input":
		inArg = ""
	case "empty output":
		outArg = ""
	case "unreadable input":
		must(os.Chmod(filepath.Join(root, in), 0))
	case "missing output":
		outArg = strings.TrimSuffix(outArg, "/") + "x"
	case "output is a file":
		mk("plain file", "keep", 0o666)
		outArg = form("plain file", 0)
	case "unwritable directory":
		for p := range outs {
			os.Remove(filepath.Join(root, p))
			writeFault[p] = true
		}
		must(os.Chmod(filepath.Join(root, c.OutDir), 0o555))
	case "read-only file":
		mk(outPaths[0], "read only", 0o444)
		writeFault[outPaths[0]] = true
	case "output path is a directory":
		os.Remove(filepath.Join(root, outPaths[0]))
		must(os.MkdirAll(filepath.Join(root, outPaths[0]), 0o777))
		writeFault[outPaths[0]] = true
	case "full disk":
		os.Remove(filepath.Join(root, outPaths[0]))
		must(os.Symlink("/dev/full", filepath.Join(root, outPaths[0])))
		writeFault[outPaths[0]] = true
	case "input is output":
		writeFault[in] = true
		if _, ok := outs[in]; !ok {
			h.Discard()
			return ""
		}
	case "input is output by hard link":
		os.Chmod(filepath.Join(root, in), 0o666)
		os.Remove(filepath.Join(root, outPaths[0]))
		must(os.Link(filepath.Join(root, in), filepath.Join(root, outPaths[0])))
		writeFault[outPaths[0]] = true
	case "input is output by symbolic link":
		os.Remove(filepath.Join(root, outPaths[0]))
		must(os.Symlink(filepath.Join(root, in), filepath.Join(root, outPaths[0])))
		writeFault[outPaths[0]] = true
	}
	if strings.HasPrefix(c.Fault, "input is output") {
		os.Chmod(filepath.Join(root, in), 0o666) // writable, so that only tsh protects it
	}
	var args []string
	for _, o := range c.Opts {
		sw := map[string]string{"i": "-i", "o": "-o", "t": "-t"}[o.Kind]
		if o.Long {
			sw = map[string]string{"i": "--in", "o": "--out", "t": "--type"}[o.Kind]
		}
		v := o.V
		switch o.Kind {
		case "i":
			if c.Fault == "no input" {
				continue
			}
			v = inArg
		case "o":
			if c.Fault == "no output" {
				continue
			}
			v = outArg
		case "t":
			if c.Fault == "no type" {
				continue
			}
		case "?":
			sw = o.V
			v = "bash"
		}
		args = append(args, sw, v)
	}
	switch c.Fault {
	case "missing value":
		args = args[:len(args)-1]
	case "lone value":
		args = append(args, c.Extra)
	case "no options":
		args = nil
	case "type as option":
		args = append(args[:len(args)-2], "-t")
		args = append(args, "-i")
	}
	before := snapshot(root)
	r := h.Exec(filepath.Join(work, "tsh"), args, h.RunOpt{Dir: cwd, CPU: 30})
	os.Chmod(filepath.Join(root, in), 0o666)
	os.Chmod(filepath.Join(root, c.OutDir), 0o777)
	after := snapshot(root)
	tail := fmt.Sprintf("\n--- tsh %q (fault %q) exits with %d%s in %s\n%s%s", args, c.Fault, r.Status, r.Signal, c.Cwd, h.Clip(r.Stderr), allFiles(c.Files, c.Main))
	if r.Signal != "" {
		return "tsh is killed by " + r.Signal + tail
	}
	wantOK := c.Fault == "" && !anyErr
	if wantOK && r.Status != 0 {
		return "tsh fails although the library accepts the program" + tail
	}
	if !wantOK && r.Status == 0 {
		return "tsh exits with 0 in spite of an error" + tail
	}
	for p, b := range before {
		a, ok := after[p]
		if tg, isOut := outs[p]; isOut && a != b && ok {
			if o := lib[tg]; o.Err == nil && a == "file "+o.Script && !writeFault[p] {
				continue
			}
			return fmt.Sprintf("output file %q of target %s is changed to %q (library: error %v, %q)%s", p, tg, h.Clip(a), o2err(lib[tg]), h.Clip(lib[tg].Script), tail)
		}
		if !ok {
			return fmt.Sprintf("%q is removed%s", p, tail)
		}
		if a != b {
			return fmt.Sprintf("%q is changed from %q to %q%s", p, h.Clip(b), h.Clip(a), tail)
		}
	}
	for p, a := range after {
		if _, ok := before[p]; ok {
			continue
		}
		tg, isOut := outs[p]
		if !isOut {
			return fmt.Sprintf("unexpected file %q: %q%s", p, h.Clip(a), tail)
		}
		if o := lib[tg]; o.Err != nil || a != "file "+o.Script || writeFault[p] {
			return fmt.Sprintf("output file %q of target %s is %q (library: error %v, %q)%s", p, tg, h.Clip(a), o.Err, h.Clip(o.Script), tail)
		}
	}
	if wantOK {
		for _, p := range outPaths {
			if a, ok := after[p]; !ok || a != "file "+lib[outs[p]].Script {
				return fmt.Sprintf("output file %q is %q, want the library's script %q%s", p, h.Clip(a), h.Clip(lib[outs[p]].Script), tail)
			}
		}
	}
	return ""
}

func o2err(o h.Out) error { return o.Err }

var cliNames = []string{"main.tsh", "main.tsh", "a.b.tsh", "noext", "v1.2.3.tsh", "my prog.tsh", "x y.z w.tsh", "main.TSH", "main.txt", "prog.tsh.bak", "x..tsh", "main.sh.tsh", "main.bat", "main.sh", "-x.tsh", "-i", "--type", "bash", "ü.tsh", "日本.tsh", "\xff.tsh", ".hidden.tsh", "a.tsh.tsh", "sub/dir.d/noext", "sub/dir.d/x.y.tsh", "dir.tsh/main", "tsh", "%s.tsh", "$HOME.tsh", "*.tsh", "a'b\"c.tsh", " .tsh", "x.tsh ", "a\\b.tsh", "nl\nx.tsh", "main.sh ", "x.s h"}
var cliBad = []string{"", " \n\t", "// nothing\n", "/* open", "x := \"open", "x := `open", "§", "print(\"a\"", "}", "x := ", "func f( {\n}", "if true {\nprint(1)\n", "x := 1 +\n", "x := 1\nx = \"a\"\n", "print(y)\n", "var s string = 1\n", "x := 1\nx := 2\n", "func f() int {\nreturn \"a\"\n}\nf()\n", "break\n", "return 1\n", "import a \"missing\"\n", "import a \"a.tsh\"\nprint(1)\n", "import \"std/none\"\n", "import m \"main.tsh\"\n", "import (\n", "write(\"a\")\n", "x, y := 1\n", "for {\n", "\x00", "\xff\xfe", "print(\"ok\")\nz", "print(1 / 0)\n", "func f() {\n}\nx := f()\n"}

func TestC19(t *testing.T) {
	if os.Getenv("VERIF_WORK") == "" {
		h.Infra("no tsh binary")
	}
	h.Check(t, func(t *rapid.T) {
		c := CLICase{Cwd: gen.Pick(t, []string{"cwd", "c w d", "out", "src"}, "cwd")}
		name := gen.Pick(t, cliNames, "name")
		if gen.Uniform(t, 2, "faulty") == 0 {
			c.Fault = gen.Pick(t, cliFaults, "fault")
		}
		if c.Fault == "input is output" {
			name = gen.Pick(t, []string{"main.sh", "main.bat", "a.b.sh", "x y.sh", "sub/main.bat"}, "same")
		}
		c.Main = name
		rejected := false
		k := gen.Uniform(t, 8, "program")
		if c.Fault != "" && k > 4 {
			k = 0
		}
		switch {
		case k < 3:
			c.Files = map[string]h.Text{name: h.Text(baseProgram(t))}
		case k < 5:
			cfg := modCfg(t)
			cfg.MaxTop, cfg.MaxFuncs = 3, 3
			cfg.VarNames = nil
			p := gen.New(t, cfg).Modules(gen.ModCfg{Min: 1, Max: 4})
			c.Files = map[string]h.Text{}
			clash := false
			for f, s := range sources(p) {
				if f == p.Main.File {
					continue
				}
				clash = clash || f == name
				c.Files[f] = s
			}
			if clash || filepath.Dir(name) != filepath.Dir(p.Main.File) {
				name = p.Main.File
				c.Main = name
				if c.Fault == "input is output" {
					c.Fault = ""
				}
			}
			c.Files[name] = sources(p)[p.Main.File]
			h.Class("several files")
		case k == 5:
			c.Files = map[string]h.Text{name: h.Text(editProgram(t))}
			rejected = true
		default:
			s := gen.Pick(t, cliBad, "bad")
			if gen.Uniform(t, 2, "late") == 0 {
				s = baseProgram(t) + "\n" + s
			}
			c.Files = map[string]h.Text{name: h.Text(s)}
			rejected = true
		}
		c.Link = gen.Uniform(t, 10, "link") == 0 && c.Fault != "unreadable input" && !strings.HasPrefix(c.Fault, "input is")
		c.OutDir = gen.Pick(t, []string{"out", "out", "o u t", "out.d/deep", "src", "out.tsh", "-o"}, "outdir")
		if c.Fault == "input is output" {
			c.OutDir = filepath.Join("src", filepath.Dir(name))
		}
		if c.Fault == "unwritable directory" && (c.OutDir == "src" || c.OutDir == c.Cwd) {
			c.OutDir = "o u t"
		}
		if c.OutDir == "src" && c.Fault != "input is output" {
			for _, e := range cliExt {
				f := cliStem(name) + e
				if _, ok := c.Files[f]; ok || f == name {
					c.OutDir = "o u t"
				}
			}
			if c.Fault == "read-only file" || c.Fault == "full disk" || c.Fault == "output path is a directory" || strings.HasPrefix(c.Fault, "input is") {
				c.OutDir = "o u t"
			}
		}
		c.InForm, c.OutForm = gen.Uniform(t, 3, "inform"), gen.Uniform(t, 4, "outform")
		// Options: the three kinds in any order, targets repeated.
		targets := gen.Pick(t, [][]string{{"bash"}, {"batch"}, {"bash", "batch"}, {"bash", "batch"}, {"batch", "bash"}, {"bash", "bash"}, {"batch", "batch"}, {"batch", "batch", "batch"}, {"bash", "batch", "bash"}, {"batch", "bash", "batch"}, {"bash", "batch", "bash", "batch"}, {"bash", "bash", "batch", "batch", "bash"}}, "targets")
		if c.Fault == "input is output" {
			tg := map[string]string{".sh": "bash", ".bat": "batch"}[filepath.Ext(name)]
			targets = append([]string{tg}, targets...)
			if gen.Uniform(t, 2, "last") == 0 {
				targets = append(targets[1:], tg)
			}
		}
		for _, tg := range targets {
			c.Opts = append(c.Opts, CLIOpt{Kind: "t", V: tg})
		}
		if c.Fault == "unknown type" {
			c.Opts = append(c.Opts, CLIOpt{Kind: "t", V: gen.Pick(t, []string{"", "sh", "bat", "Bash", "BATCH", "bash ", " batch", "bash,batch", "all", "-t", "powershell", "bas", "bashh"}, "type")})
		}
		if c.Fault == "unknown option" {
			c.Opts = append(c.Opts, CLIOpt{Kind: "?", V: gen.Pick(t, []string{"-x", "--help", "-T", "--types", "-in", "--input", "-", "--", "", "t", "type", "-I", "bash", "-t "}, "option")})
		}
		c.Extra = gen.Pick(t, []string{"-t", "--in", "-o", "bash", "x", "", "--", "-h"}, "lone")
		c.Opts = append(c.Opts, CLIOpt{Kind: "i"}, CLIOpt{Kind: "o"})
		c.Opts = rapid.Permutation(c.Opts).Draw(t, "order")
		for i := range c.Opts {
			c.Opts[i].Long = gen.Uniform(t, 2, "long") == 0
		}
		// What is in the output directory already.
		c.Pre = map[string]h.Text{}
		if gen.Uniform(t, 2, "pre") == 0 && c.OutDir != "src" {
			for _, e := range []string{".sh", ".bat"} {
				if gen.Uniform(t, 2, "stale") == 0 {
					c.Pre[cliStem(name)+e] = h.Text(gen.Pick(t, []string{"", "stale", strings.Repeat("stale output\n", 3000)}, "old"))
				}
			}
			c.Pre["bystander.sh"] = "keep"
			c.Pre["out"] = "keep"
			if c.Fault == "input is output" {
				c.Pre = nil
			}
		}
		h.Class("fault "+c.Fault, fmt.Sprintf("targets %d", len(targets)))
		if rejected {
			h.Class("possibly rejected program")
		}
		h.Count(fmt.Sprintf("%+v", c), c.Fault != "" || rejected || len(targets) > 1 || name != "main.tsh", func() any {
			return map[string]any{"main": c.Main, "options": c.Opts, "fault": c.Fault, "out": c.OutDir, "files": len(c.Files)}
		})
		cliKind.Run(t, c)
	})
}
