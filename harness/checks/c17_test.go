package checks

import (
	"fmt"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"tshverif/gen"
	"tshverif/h"

	"pgregory.net/rapid"
)

// FileCase: a history of file operations in blocks.
type FileCase struct {
	Paths  []h.Text // spellings; several may name the same file
	Init   []FileInit
	Blocks []FileBlock
}

type FileInit struct {
	Path    h.Text
	Content h.Text
}

type FileBlock struct {
	Place int // 0 top level, 1 function, 2 function with the paths as parameters, 3 in an if, 4 function called by a function
	Times int // inside a loop when > 1
	Ops   []FileOp
}

type FileOp struct {
	Kind, P, Q   int
	PForm, CForm int
	Append       int
	C            h.Text
	Known, KnowQ bool // the path is known to exist here
}

const (
	opWrite     = iota
	opRead      // print(read(p))
	opExists    // print(exists(p))
	opReadVar   // keep, overwrite, print the kept one
	opCopyFile  // write(q, read(p))
	opGuard     // if exists(p) read else write
	opSelf      // write(p, read(p) + c)
	opTwo       // two reads in an expression
	opCompare   // read(p) == c
	opBoth      // exists(p) && !exists(q)
	opUntil     // for !exists(p) { write }
	opAppExists // write(p, c, exists(p))
	opFuncRead  // through a function that returns read
	opFuncWrite // through a function that writes and returns
	opRangeRead // for over read(p)
	opList      // for over a slice of paths
	opNumbers   // len(read(p)), read(p)[..]
	opOrder     // print(read(p), f(p)) with f appending
	opSwitch    // switch over read(p)
	nFileOps
)

var fileOpNames = []string{"write", "read", "exists", "kept value", "copy", "guarded", "rewrite own content", "two reads", "compare", "exists of two", "until exists", "append if exists", "read in function", "write in function", "range over read", "slice of paths", "length and parts", "read before append", "switch over read"}

var fileKind = h.NewKind("files", checkFiles)

var fileDirs = []string{"d", "d e", "sub", "sub/deep", "$x", "*d"}
var fileBait = []string{"bait", "zz", "-q", "d/bait", "A"}

// cleanPath names a file relative to the working directory, which is .../w.
func cleanPath(p string) string {
	c := path.Clean("/w/" + p)
	switch {
	case c == "/w":
		return "."
	case c == "/":
		return ".."
	}
	return strings.TrimPrefix(c, "/w/")
}

func isFileDir(c string) bool {
	if c == "." || c == ".." {
		return true
	}
	for _, d := range fileDirs {
		if d == c {
			return true
		}
	}
	return false
}

func (c FileCase) program() (src, want string, files map[string]string) {
	files = map[string]string{}
	for _, f := range c.Init {
		files[cleanPath(string(f.Path))] = string(f.Content)
	}
	for _, b := range fileBait {
		if _, ok := files[b]; !ok {
			files[b] = "keep\n"
		}
	}
	var top, s, w strings.Builder
	top.WriteString("func id(v string) string {\nreturn v\n}\nfunc rd(p string) string {\nreturn read(p)\n}\n" +
		"func wr(p string, c string, a bool) int {\nwrite(p, c, a)\nreturn len(c)\n}\nfunc add(p string, c string) string {\nwrite(p, c, true)\nreturn \"added\"\n}\nfunc yes() bool {\nreturn true\n}\n")
	// reference
	get := func(i int) string { return strings.TrimSuffix(files[cleanPath(string(c.Paths[i]))], "\n") }
	has := func(i int) bool {
		p := string(c.Paths[i])
		if p == "" {
			return false
		}
		_, ok := files[cleanPath(p)]
		if strings.HasSuffix(p, "/") {
			ok = false
		}
		for j := range p { // every directory on the way must exist
			if p[j] == '/' && !isFileDir(cleanPath(p[:j])) {
				return false
			}
		}
		return ok || isFileDir(cleanPath(p))
	}
	put := func(i int, v string, app bool) {
		p := cleanPath(string(c.Paths[i]))
		if app {
			files[p] += v + "\n"
		} else {
			files[p] = v + "\n"
		}
	}
	b01 := func(b bool) string {
		if b {
			return "1"
		}
		return "0"
	}
	for k, b := range c.Blocks {
		var body strings.Builder
		var run []func()
		var params, given []string
		for j, op := range b.Ops {
			op := op
			n := func(x string) string { return fmt.Sprintf("%s%d_%d", x, k, j) }
			emit := func(format string, args ...any) { fmt.Fprintf(&body, format+"\n", args...) }
			pe := func(i, form int, tag string) string {
				p := string(c.Paths[i])
				switch form {
				case 1:
					emit("%s := %s", n(tag), asciiLit(p))
					return n(tag)
				case 2:
					m := len(p) / 2
					emit("%s := %s", n(tag), asciiLit(p[:m]))
					return n(tag) + " + " + asciiLit(p[m:])
				case 3:
					return "id(" + asciiLit(p) + ")"
				case 4:
					emit("%s := []string{\"bait\", %s}", n(tag), asciiLit(p))
					return n(tag) + "[1]"
				case 5:
					if b.Place == 2 {
						params = append(params, n(tag)+" string")
						given = append(given, asciiLit(p))
						return n(tag)
					}
				case 6:
					if !strings.Contains(p, "`") {
						return "`" + p + "`"
					}
				}
				return asciiLit(p)
			}
			P := pe(op.P, op.PForm, "p")
			v := string(op.C)
			var C string
			switch op.CForm {
			case 1:
				emit("%s := %s", n("c"), asciiLit(v))
				C = n("c")
			case 2:
				m := len(v) / 2
				emit("%s := %s", n("c"), asciiLit(v[m:]))
				C = asciiLit(v[:m]) + " + " + n("c")
			case 3:
				C = "id(" + asciiLit(v) + ")"
			default:
				C = asciiLit(v)
			}
			show := func(x string) { fmt.Fprintf(&w, "<%s> %d\n", x, len(x)) }
			switch op.Kind {
			case opWrite:
				app := false
				switch op.Append {
				case 0:
					emit("write(%s, %s)", P, C)
				case 1:
					emit("write(%s, %s, true)", P, C)
					app = true
				case 2:
					emit("write(%s, %s, false)", P, C)
				case 3:
					emit("%s := true\nwrite(%s, %s, %s)", n("t"), P, C, n("t"))
					app = true
				case 4:
					emit("var %s bool\nwrite(%s, %s, %s)", n("t"), P, C, n("t"))
				case 5:
					emit("write(%s, %s, 2 > 1 && yes())", P, C)
					app = true
				case 6:
					emit("write(%s, %s, !yes() || \"a\" == \"b\")", P, C)
				}
				run = append(run, func() { put(op.P, v, app) })
			case opRead:
				emit("print(\"<\" + read(%s) + \">\", len(read(%s)))", P, P)
				run = append(run, func() { show(get(op.P)) })
			case opExists:
				emit("print(exists(%s))", P)
				emit("if exists(%s) {\nprint(\"yes\")\n} else {\nprint(\"no\")\n}", P)
				run = append(run, func() {
					fmt.Fprintf(&w, "%s\n%s\n", b01(has(op.P)), map[bool]string{true: "yes", false: "no"}[has(op.P)])
				})
			case opReadVar:
				emit("%s := read(%s)\nwrite(%s, %s)\nprint(\"<\" + %s + \">\", len(%s))", n("r"), P, P, C, n("r"), n("r"))
				run = append(run, func() { r := get(op.P); put(op.P, v, false); show(r) })
			case opCopyFile:
				Q := pe(op.Q, op.PForm, "q")
				emit("write(%s, read(%s))", Q, P)
				run = append(run, func() { put(op.Q, get(op.P), false) })
			case opGuard:
				emit("if exists(%s) {\nprint(\"<\" + read(%s) + \">\", len(read(%s)))\n} else {\nwrite(%s, %s)\n}", P, P, P, P, C)
				run = append(run, func() {
					if has(op.P) {
						show(get(op.P))
					} else {
						put(op.P, v, false)
					}
				})
			case opSelf:
				emit("write(%s, read(%s) + %s)", P, P, C)
				run = append(run, func() { put(op.P, get(op.P)+v, false) })
			case opTwo:
				Q := pe(op.Q, op.PForm, "q")
				emit("%s := read(%s) + \"|\" + read(%s)\nprint(\"<\" + %s + \">\", len(%s))\nprint(read(%s), read(%s))", n("r"), P, Q, n("r"), n("r"), Q, P)
				run = append(run, func() { show(get(op.P) + "|" + get(op.Q)); w.WriteString(get(op.Q) + " " + get(op.P) + "\n") })
			case opCompare:
				emit("print(read(%s) == %s, %s != read(%s))", P, C, C, P)
				run = append(run, func() { fmt.Fprintf(&w, "%s %s\n", b01(get(op.P) == v), b01(get(op.P) != v)) })
			case opBoth:
				Q := pe(op.Q, op.PForm, "q")
				emit("print(exists(%s) && !exists(%s), exists(%s) || exists(%s), !exists(%s))", P, Q, P, Q, P)
				run = append(run, func() {
					p, q := has(op.P), has(op.Q)
					fmt.Fprintf(&w, "%s %s %s\n", b01(p && !q), b01(p || q), b01(!p))
				})
			case opUntil:
				emit("for !exists(%s) {\nwrite(%s, %s)\nprint(\"made\")\n}", P, P, C)
				run = append(run, func() {
					if !has(op.P) {
						put(op.P, v, false)
						w.WriteString("made\n")
					}
				})
			case opAppExists:
				emit("write(%s, %s, exists(%s))", P, C, P)
				run = append(run, func() { put(op.P, v, has(op.P)) })
			case opFuncRead:
				emit("%s := rd(%s)\nprint(\"<\" + %s + \">\", len(%s))", n("r"), P, n("r"), n("r"))
				run = append(run, func() { show(get(op.P)) })
			case opFuncWrite:
				a := op.Append%2 == 1
				emit("print(wr(%s, %s, %v))", P, C, a)
				run = append(run, func() { put(op.P, v, a); fmt.Fprintf(&w, "%d\n", len(v)) })
			case opRangeRead:
				emit("for %s, %s := range read(%s) + \"#\" {\nprint(%s, \"<\" + %s + \">\")\n}", n("i"), n("r"), P, n("i"), n("r"))
				run = append(run, func() {
					x := get(op.P) + "#"
					for i := 0; i < len(x); i++ {
						fmt.Fprintf(&w, "%d <%s>\n", i, x[i:i+1])
					}
				})
			case opList:
				Q := pe(op.Q, op.PForm, "q")
				emit("for %s, %s := range []string{%s, %s} {\nwrite(%s, %s, true)\nprint(%s, read(%s))\n}", n("i"), n("f"), P, Q, n("f"), C, n("i"), n("f"))
				run = append(run, func() {
					for i, x := range []int{op.P, op.Q} {
						put(x, v, true)
						fmt.Fprintf(&w, "%d %s\n", i, get(x))
					}
				})
			case opNumbers:
				emit("%s := read(%s)\nprint(len(%s), \"<\" + %s[:] + \">\", len(read(%s)) + 1)", n("r"), P, n("r"), n("r"), P)
				run = append(run, func() { x := get(op.P); fmt.Fprintf(&w, "%d <%s> %d\n", len(x), x, len(x)+1) })
			case opOrder:
				emit("print(read(%s), add(%s, %s), read(%s))", P, P, C, P)
				run = append(run, func() {
					x := get(op.P)
					put(op.P, v, true)
					fmt.Fprintf(&w, "%s added %s\n", x, get(op.P))
				})
			case opSwitch:
				emit("switch read(%s) {\ncase \"\":\nprint(\"empty\")\ncase %s:\nprint(\"same\")\ndefault:\nprint(\"other\")\n}", P, C)
				run = append(run, func() {
					x := get(op.P)
					switch x {
					case "":
						w.WriteString("empty\n")
					case v:
						w.WriteString("same\n")
					default:
						w.WriteString("other\n")
					}
				})
			}
		}
		text := body.String()
		if b.Times > 1 {
			text = fmt.Sprintf("for l%d := 0; l%d < %d; l%d++ {\n%s}\n", k, k, b.Times, k, text)
		}
		switch b.Place {
		case 1:
			fmt.Fprintf(&top, "func blk%d() {\n%s}\n", k, text)
			fmt.Fprintf(&s, "blk%d()\n", k)
		case 2:
			fmt.Fprintf(&top, "func blk%d(%s) {\n%s}\n", k, strings.Join(params, ", "), text)
			fmt.Fprintf(&s, "blk%d(%s)\n", k, strings.Join(given, ", "))
		case 3:
			fmt.Fprintf(&s, "if !exists(\"no such file\") {\n%s}\n", text)
		case 4:
			fmt.Fprintf(&top, "func blk%d() string {\n%sreturn \"done\"\n}\nfunc out%d() string {\nz := \"<\" + blk%d() + \">\"\nreturn z\n}\n", k, text, k, k)
			fmt.Fprintf(&s, "print(out%d())\n", k)
		default:
			s.WriteString(text)
		}
		times := b.Times
		if times < 1 {
			times = 1
		}
		for ; times > 0; times-- {
			for _, r := range run {
				r()
			}
		}
		if b.Place == 4 {
			w.WriteString("<done>\n")
		}
	}
	return top.String() + s.String(), w.String(), files
}

func fileTree(files map[string]string) string {
	var ks []string
	for k := range files {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%q=%q\n", k, files[k])
	}
	return b.String()
}

func checkFiles(c FileCase) string {
	src, want, files := c.program()
	o := h.TranspileSource(src, "bash")
	if r := o.Rejected(); r != "" {
		return "program is not accepted: " + r + "\n" + src
	}
	outer := freshDir("filecwd")
	dir := filepath.Join(outer, "w")
	for _, d := range append([]string{""}, fileDirs...) {
		if err := os.MkdirAll(filepath.Join(dir, d), 0o777); err != nil {
			h.Infra("%v", err)
		}
		os.Chmod(filepath.Join(dir, d), 0o777)
	}
	for _, b := range fileBait {
		if err := os.WriteFile(filepath.Join(dir, b), []byte("keep\n"), 0o644); err != nil {
			h.Infra("%v", err)
		}
	}
	for _, f := range c.Init {
		p := filepath.Join(dir, string(f.Path))
		if err := os.WriteFile(p, []byte(f.Content), 0o666); err != nil {
			h.Infra("%v", err)
		}
		os.Chmod(p, 0o666)
	}
	r := h.Bash(o.Script, h.RunOpt{Dir: dir, Env: []string{"a=LEAK", "x=LEAK", "HOME=" + dir}})
	tail := "\n--- source\n" + src + "\n--- script\n" + o.Script
	if r.Signal != "" {
		return "script does not terminate normally (" + r.Signal + ")" + tail
	}
	got := map[string]string{}
	var dirs []string
	filepath.Walk(outer, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			h.Infra("%v", err)
		}
		rel, _ := filepath.Rel(dir, p)
		if i.IsDir() {
			dirs = append(dirs, rel)
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			h.Infra("%v", err)
		}
		got[rel] = string(b)
		return nil
	})
	if len(dirs) != len(fileDirs)+2 {
		return fmt.Sprintf("directories %q%s", dirs, tail)
	}
	if r.Stdout != want {
		return "output differs: " + h.Diff(want, r.Stdout) + tail
	}
	if g, w := fileTree(got), fileTree(files); g != w {
		return "files differ: " + h.Diff(w, g) + tail
	}
	if r.Stderr != "" {
		return "script writes to standard error: " + r.Stderr + tail
	}
	if r.Status != 0 {
		return fmt.Sprintf("exit status %d%s", r.Status, tail)
	}
	return ""
}

var filePlain = []string{"a", "b.txt", "my file.txt", "f1"}
var fileOdd = []string{"-n", "-e", "--", "-", "--help", "a b  c", " lead", "trail ", "$HOME", "$x", "${x}y", "*", "?", "[ab]", "b*", "a;touch CANARY", "a; touch CANARY; b", "$(touch CANARY)", "`touch CANARY`", "\"", "\"q\"", "'", "'q'", "x\\y", "\\", "\\\\", "a\\", "\\n", "a&b", "a&", "&1", "&2", "a|b", "a>b", "<a", ">", "#h", "a #b", "~", "~root", "!h", "{a,b}", "(p)", ")", "%s", "%", "=", "a=b", "a:b", "tab\tname", "nl\nname", "nl\n", "\n", "é", "日本 語", "...", ".hidden", "1", "2", "true", "d/x", "d e/f g", "sub/deep/x y", "./d/../a", "./a", "d//x", "sub/../b.txt", "../w/a", "$x/f", "*d/f", "*d/*", "my file", "my", "file.txt", "a b", "aa", "A b"}

func filePath(t *rapid.T) string {
	switch gen.Uniform(t, 6, "pathkind") {
	case 0, 1:
		return gen.Pick(t, filePlain, "plain")
	case 2:
		return filePathOK(dataValue(t, true))
	case 3:
		return gen.Pick(t, []string{"", "d/", "sub/deep/", "./", "d e/"}, "dir") + filePathOK(dataValue(t, true))
	default:
		return gen.Pick(t, fileOdd, "odd")
	}
}

func filePathOK(p string) string {
	p = strings.ReplaceAll(p, "/", "_")
	if c := cleanPath(p); p == "" || c == "." || c == ".." || isFileDir(c) {
		return p + "_f"
	}
	return p
}

func TestC17(t *testing.T) {
	h.Check(t, func(t *rapid.T) {
		var c FileCase
		np := gen.Uniform(t, 4, "paths") + 1
		var usable, only []int
		for i := 0; i < np; i++ {
			p := filePath(t)
			if isFileDir(cleanPath(p)) { // e.g. $x is a directory here
				p = "./" + p + "_"
			}
			for _, b := range fileBait {
				if cleanPath(p) == b {
					p += "_"
				}
			}
			usable = append(usable, i)
			c.Paths = append(c.Paths, h.Text(p))
		}
		if rapid.Bool().Draw(t, "respell") { // another spelling of the same file
			p := gen.Pick(t, c.Paths, "respelled")
			usable = append(usable, len(c.Paths))
			c.Paths = append(c.Paths, h.Text(gen.Pick(t, []string{"./", "d/../", "../w/", ".//"}, "via"))+p)
		}
		for n := gen.Uniform(t, 3, "others"); n > 0; n-- { // only for exists
			only = append(only, len(c.Paths))
			c.Paths = append(c.Paths, h.Text(gen.Pick(t, []string{"", "nope", "d", "d e", "d/", ".", "./", "sub/deep", "..", "nope/x", "a/x", "a/", "zz", "bait ", "zz/", "d/../zz", "nope/../zz", "-q", "*z", "$x", "$x/", "*d", " d", "d ", "D", "b", "ba", "baits", "Bait", "z*"}, "other")))
		}
		exists := map[string]bool{}
		for _, i := range usable {
			k := cleanPath(string(c.Paths[i]))
			if !exists[k] && gen.Uniform(t, 4, "init") == 0 {
				exists[k] = true
				v := dataValue(t, true) + gen.Pick(t, []string{"", "\n", "\n\n", "\nline two"}, "more") + "\n"
				c.Init = append(c.Init, FileInit{c.Paths[i], h.Text(v)})
			}
		}
		nOps, odd := 0, false
		for nb := gen.Uniform(t, 4, "blocks") + 1; nb > 0; nb-- {
			b := FileBlock{Place: gen.Pick(t, []int{0, 0, 1, 2, 3, 4}, "place"), Times: 1}
			if gen.Uniform(t, 4, "loop") == 0 {
				b.Times = gen.Uniform(t, 2, "times") + 2
			}
			for no := gen.Uniform(t, 5, "ops") + 1; no > 0; no-- {
				op := FileOp{Kind: gen.Uniform(t, nFileOps, "op"), PForm: gen.Uniform(t, 7, "pform"), CForm: gen.Uniform(t, 4, "cform")}
				if gen.Uniform(t, 3, "basic") == 0 {
					op.Kind = gen.Uniform(t, 3, "basicop")
				}
				op.P, op.Q = gen.Pick(t, usable, "p"), gen.Pick(t, usable, "q")
				p, q := cleanPath(string(c.Paths[op.P])), cleanPath(string(c.Paths[op.Q]))
				op.Append = gen.Pick(t, []int{0, 0, 1, 1, 1, 2, 3, 3, 4, 5, 6}, "append")
				op.C = h.Text(dataValue(t, true))
				if gen.Uniform(t, 12, "unicode") == 0 {
					op.C += "é 日本"
				}
				switch op.Kind {
				case opExists, opBoth:
					if len(only) > 0 && rapid.Bool().Draw(t, "other path") {
						op.P = gen.Pick(t, only, "only")
					}
					if len(only) > 0 && rapid.Bool().Draw(t, "other path 2") {
						op.Q = gen.Pick(t, only, "only2")
					}
				case opRead, opReadVar, opSelf, opCompare, opFuncRead, opRangeRead, opNumbers, opOrder, opSwitch, opCopyFile, opTwo:
					if !exists[p] {
						op.Kind = opWrite
					} else if op.Kind == opTwo && !exists[q] {
						op.Kind = opRead
					}
				}
				if op.Kind == opRangeRead && len(op.C) > 0 && b.Times > 1 {
					op.Kind = opNumbers
				}
				switch op.Kind {
				case opWrite, opGuard, opUntil, opAppExists, opFuncWrite:
					exists[p] = true
				case opCopyFile:
					exists[q] = true
				case opList:
					exists[p], exists[q] = true, true
				}
				h.Class("op "+fileOpNames[op.Kind], fmt.Sprintf("place %d", b.Place))
				b.Ops = append(b.Ops, op)
				nOps++
				odd = odd || strings.ContainsAny(string(c.Paths[op.P])+string(op.C), " \"\\$`'*?[]{}();&|<>#~\t\n-")
			}
			c.Blocks = append(c.Blocks, b)
		}
		src, want, files := c.program()
		h.Count(src, nOps > 1 && odd, func() any { return map[string]any{"source": src, "want": want, "files": files} })
		fileKind.Run(t, c)
	})
}
