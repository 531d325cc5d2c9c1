package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"

	"tshverif/gen"
	"tshverif/h"
	"tshverif/lexref"

	"github.com/monstermichl/typeshell/transpiler"
	"pgregory.net/rapid"
)

// PureCase: programs, and the order in which they are transpiled by one
// transpiler object. Every text must be what the program yields on its own.
type PureCase struct {
	Progs    []PureProg
	Seq      []PureStep
	Repeat   int
	Process  bool
	Parallel bool
	Reloc    string // a directory below the scratch directory
	NewMain  string
	Extra    map[string]h.Text // unrelated files next to the relocated copy
	Chdir    bool
	Edits    []PureEdit // changes of the files of the first program, one after the other
}

// PureEdit changes a file between two transpilations.
type PureEdit struct {
	File     string
	Text     h.Text
	Delete   bool
	KeepTime bool // the modification time stays the same
	Step     string
	Target   string
}

type PureProg struct {
	Files map[string]h.Text
	Main  string
}

type PureStep struct {
	Prog   int
	Target string
}

var pureKind = h.NewKind("pure", checkPure)

type pureKey struct {
	prog   int
	target string
}

func checkPure(c PureCase) string {
	base := map[pureKey]h.Out{}
	mains := make([]string, len(c.Progs))
	for i, p := range c.Progs {
		mains[i] = filepath.Join(h.WriteTree(fmt.Sprintf("prog%d", i), p.Files), p.Main)
		for _, tg := range []string{"bash", "batch"} {
			o := h.Transpile(mains[i], tg)
			if o.Panic != "" {
				return tg + ": transpiler panicked: " + o.Panic + allFiles(p.Files, p.Main)
			}
			base[pureKey{i, tg}] = o
		}
	}
	cmp := func(i int, tg string, o h.Out, what string) string {
		p := c.Progs[i]
		b := base[pureKey{i, tg}]
		tail := fmt.Sprintf(" (program %d, %s)%s", i, tg, allFiles(p.Files, p.Main))
		switch {
		case o.Panic != "":
			return what + ": transpiler panicked: " + o.Panic + tail
		case (o.Err == nil) != (b.Err == nil):
			return fmt.Sprintf("%s: error %v, at first %v%s", what, o.Err, b.Err, tail)
		case o.Script != b.Script:
			return what + ": script differs: " + h.Diff(b.Script, o.Script) + tail
		}
		return ""
	}
	both := func(i int, main, what string) string {
		for _, tg := range []string{"batch", "bash"} {
			if m := cmp(i, tg, h.Transpile(main, tg), what); m != "" {
				return m
			}
		}
		return ""
	}
	for r := 0; r < c.Repeat; r++ {
		for i := range c.Progs {
			if m := both(i, mains[i], "repetition"); m != "" {
				return m
			}
		}
	}
	// One transpiler object for everything.
	t := transpiler.New()
	for k, s := range c.Seq {
		if m := cmp(s.Prog, s.Target, h.TranspileOn(&t, mains[s.Prog], s.Target), fmt.Sprintf("step %d on a shared transpiler object %v", k, c.Seq)); m != "" {
			return m
		}
	}
	if c.Parallel {
		outs := make([]h.Out, len(c.Seq))
		var wg sync.WaitGroup
		for k, s := range c.Seq {
			wg.Add(1)
			go func() {
				defer wg.Done()
				outs[k] = h.TranspileQuiet(mains[s.Prog], s.Target)
			}()
		}
		wg.Wait()
		for k, s := range c.Seq {
			if m := cmp(s.Prog, s.Target, outs[k], "transpilations at the same time"); m != "" {
				return m
			}
		}
	}
	if c.Reloc != "" {
		p := c.Progs[0]
		fs := map[string]h.Text{}
		for n, s := range c.Extra {
			fs[n] = s
		}
		main := p.Main
		for n, s := range p.Files {
			if n == p.Main && c.NewMain != "" {
				n = c.NewMain
				main = n
			}
			fs[n] = s
		}
		m2 := filepath.Join(h.WriteTree(c.Reloc, fs), main)
		if m := both(0, m2, fmt.Sprintf("relocated to %s as %s", c.Reloc, main)); m != "" {
			return m
		}
		if c.Chdir {
			wd, _ := os.Getwd()
			if err := os.Chdir(filepath.Dir(m2)); err != nil {
				h.Infra("%v", err)
			}
			m := both(0, main, "relative path")
			if m == "" && os.Chdir("/") == nil {
				m = both(0, strings.TrimPrefix(m2, "/"), "relative path from /")
			}
			os.Chdir(wd)
			if m != "" {
				return m
			}
		}
	}
	if len(c.Edits) > 0 {
		// The files change while the transpiler object stays; what counts is
		// what they hold when they are read.
		p := c.Progs[0]
		cur := map[string]h.Text{}
		for n, s := range p.Files {
			cur[n] = s
		}
		dir := h.WriteTree("hist", cur)
		t := transpiler.New()
		for k, e := range append([]PureEdit{{Step: "first", Target: "bash"}}, c.Edits...) {
			if e.File != "" {
				path := filepath.Join(dir, e.File)
				st, err := os.Stat(path)
				if e.Delete {
					delete(cur, e.File)
					os.Remove(path)
				} else {
					cur[e.File] = e.Text
					if os.WriteFile(path, []byte(e.Text), 0o644) != nil {
						h.Infra("cannot write %s", path)
					}
					if e.KeepTime && err == nil {
						os.Chtimes(path, st.ModTime(), st.ModTime())
					}
				}
			}
			fresh := filepath.Join(h.WriteTree(fmt.Sprintf("hist%d", k+1), cur), p.Main)
			want := h.TranspileQuiet(fresh, e.Target)
			got := h.TranspileOn(&t, filepath.Join(dir, p.Main), e.Target)
			tail := fmt.Sprintf(" (edit %d: %s of %s, %s)%s", k, e.Step, e.File, e.Target, allFiles(cur, p.Main))
			switch {
			case want.Panic != "" || got.Panic != "":
				return "transpiler panicked: " + want.Panic + got.Panic + tail
			case (want.Err == nil) != (got.Err == nil):
				return fmt.Sprintf("after a change of a file: error %v, a fresh copy: %v%s", got.Err, want.Err, tail)
			case want.Script != got.Script:
				return "after a change of a file the script differs from that of a fresh copy: " + h.Diff(want.Script, got.Script) + tail
			}
		}
	}
	if c.Process {
		tsh := filepath.Join(os.Getenv("VERIF_WORK"), "tsh")
		if os.Getenv("VERIF_WORK") == "" {
			h.Infra("no tsh binary")
		}
		out := filepath.Join(h.Scratch(), "pureout")
		for i := range c.Progs {
			for k, env := range [][]string{nil, {"HOME=/x", "LANG=de_DE.UTF-8", "TZ=Asia/Tokyo", "GODEBUG=randautoseed=0"}} {
				tgs := []string{"bash", "batch"}
				if k == 1 {
					tgs = []string{"batch", "bash"}
				}
				os.RemoveAll(out)
				os.MkdirAll(out, 0o755)
				os.Chmod(out, 0o777)
				r := h.Exec(tsh, []string{"-i", mains[i], "-o", out, "-t", tgs[0], "-t", tgs[1]}, h.RunOpt{Env: env, CPU: 30})
				for _, tg := range tgs {
					o := h.Out{}
					ext := map[string]string{"bash": ".sh", "batch": ".bat"}[tg]
					b, err := os.ReadFile(filepath.Join(out, strings.TrimSuffix(filepath.Base(mains[i]), ".tsh")+ext))
					if err != nil || r.Status != 0 {
						if base[pureKey{i, tg}].Err == nil && base[pureKey{i, otherTarget(tg)}].Err != nil {
							continue
						}
						o.Err = fmt.Errorf("tsh exits with %d: %s", r.Status, h.Clip(r.Stderr))
					} else {
						o.Script = string(b)
					}
					if m := cmp(i, tg, o, "fresh process"); m != "" {
						return m
					}
				}
			}
		}
	}
	return ""
}

func otherTarget(t string) string {
	if t == "bash" {
		return "batch"
	}
	return "bash"
}

func TestC14(t *testing.T) {
	h.Check(t, func(t *rapid.T) {
		var c PureCase
		n := gen.Uniform(t, 3, "programs") + 1
		files := 0
		var names []string
		for i := 0; i < n; i++ {
			var pp PureProg
			switch k := gen.Uniform(t, 8, "base"); {
			case k < 4:
				cfg := modCfg(t)
				cfg.MaxTop, cfg.MaxFuncs = 3, 3
				cfg.IO = gen.Uniform(t, 2, "io") == 0
				cfg.VarNames = nil
				p := gen.New(t, cfg).Modules(gen.ModCfg{Min: 1, Max: 5})
				pp = PureProg{sources(p), p.Main.File}
				files += len(p.Mods)
				for _, f := range []string{"a.tsh", "util.tsh", "lib/util.tsh", "lib/b.tsh", "x.txt", "strings.tsh"} {
					if _, ok := pp.Files[f]; !ok && i == 0 {
						names = append(names, f)
					}
				}
			case k < 6:
				pp = PureProg{map[string]h.Text{"main.tsh": h.Text(baseProgram(t))}, "main.tsh"}
				if strings.Contains(string(pp.Files["main.tsh"]), "import") {
					h.Class("standard library")
				}
			case k == 6 && i > 0: // the same files, slightly changed
				q := c.Progs[i-1]
				pp = PureProg{map[string]h.Text{}, q.Main}
				for f, s := range q.Files {
					pp.Files[f] = s
				}
				if ps, ok := lexref.Pieces(string(q.Files[q.Main])); ok {
					pp.Files[q.Main] = h.Text(corrupt(t, ps))
				} else {
					pp.Files[q.Main] += "\nx"
				}
				h.Class("near copy")
			default:
				s := editProgram(t)
				pp = PureProg{map[string]h.Text{"main.tsh": h.Text(s)}, "main.tsh"}
				h.Class("edited program")
			}
			c.Progs = append(c.Progs, pp)
		}
		for k := gen.Uniform(t, 5, "steps") + 2; k > 0; k-- {
			c.Seq = append(c.Seq, PureStep{gen.Uniform(t, n, "prog"), gen.Pick(t, []string{"bash", "batch"}, "target")})
		}
		c.Repeat = gen.Uniform(t, 2, "repeat") + 1
		c.Parallel = gen.Uniform(t, 3, "parallel") == 0
		if os.Getenv("VERIF_WORK") != "" {
			c.Process = gen.Uniform(t, 4, "process") == 0
		}
		if gen.Uniform(t, 2, "reloc") == 0 {
			c.Reloc = gen.Pick(t, []string{"r", "some/deeper/place", "with blank", "x.tsh", "ü", "prog0copy/std"}, "where")
			c.NewMain = gen.Pick(t, []string{"", "", "other.tsh", "zz main.tsh", "sh"}, "name")
			if c.NewMain == "sh" {
				c.NewMain = "noext"
			}
			if _, ok := c.Progs[0].Files[c.NewMain]; ok {
				c.NewMain = ""
			}
			c.Chdir = gen.Uniform(t, 2, "chdir") == 0
			if len(names) > 0 && gen.Uniform(t, 2, "extra") == 0 {
				// Only files nobody refers to.
				f := gen.Pick(t, names, "extra")
				refers := false
				for _, s := range c.Progs[0].Files {
					refers = refers || strings.Contains(string(s), strings.TrimSuffix(filepath.Base(f), ".tsh"))
				}
				if !refers {
					c.Extra = map[string]h.Text{f: "print(\"unrelated\")\n"}
				}
			}
			h.Class("relocated")
		}
		if gen.Uniform(t, 2, "history") == 0 {
			p := c.Progs[0]
			var fs []string
			cur := map[string]h.Text{}
			for f, s := range p.Files {
				fs = append(fs, f)
				cur[f] = s
			}
			sortStrings(fs)
			for n := gen.Uniform(t, 4, "edits") + 1; n > 0; n-- {
				e := PureEdit{File: gen.Pick(t, fs, "file"), Target: gen.Pick(t, []string{"bash", "batch"}, "target"), KeepTime: rapid.Bool().Draw(t, "keeptime")}
				old, exists := cur[e.File]
				e.Step = gen.Pick(t, []string{"digit", "digit", "append", "corrupt", "delete", "restore", "swap"}, "step")
				if !exists {
					e.Step = "restore"
				}
				switch e.Step {
				case "digit": // same size
					b := []byte(old)
					var at []int
					for i, c := range b {
						if c >= '0' && c <= '9' {
							at = append(at, i)
						}
					}
					if len(at) > 0 {
						i := gen.Pick(t, at, "at")
						b[i] = '0' + (b[i]-'0'+1+byte(gen.Uniform(t, 9, "by")))%10
					}
					e.Text = h.Text(b)
				case "append":
					e.Text = old + gen.Pick(t, []h.Text{"\nprint(\"edited\")\n", "\nfunc Edited() int {\nreturn 1\n}\n", "\n// edited\n", "\nedited"}, "what")
				case "corrupt":
					e.Text = old + "\n)"
					if ps, ok := lexref.Pieces(string(old)); ok {
						e.Text = h.Text(corrupt(t, ps))
					}
				case "delete":
					e.Delete = true
				case "restore":
					e.Text = p.Files[e.File]
				case "swap":
					e.Text = p.Files[gen.Pick(t, fs, "other")]
				}
				if e.Delete {
					delete(cur, e.File)
				} else {
					cur[e.File] = e.Text
				}
				h.Class("history: " + e.Step)
				c.Edits = append(c.Edits, e)
			}
		}
		if c.Process {
			h.Class("fresh processes")
		}
		if c.Parallel {
			h.Class("at the same time")
		}
		h.Class(fmt.Sprintf("programs %d", n))
		key := ""
		for _, p := range c.Progs {
			key += allFiles(p.Files, p.Main)
		}
		h.Count(key, n > 1 || files > 1 || c.Reloc != "", func() any { return c })
		pureKind.Run(t, c)
	})
}
