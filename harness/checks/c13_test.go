package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"tshverif/gen"
	"tshverif/h"
	"tshverif/lang"
	"tshverif/lexref"

	"pgregory.net/rapid"
)

// TotalCase: anything at all; the transpiler has to answer.
type TotalCase struct {
	Files map[string]h.Text
	Dirs  []string
	Links map[string]string
	Main  string
}

var totalKind = h.NewKind("total", checkTotal)

var totalOutcome string

func checkTotal(c TotalCase) string {
	dir := h.WriteTree("prog", c.Files)
	for _, d := range c.Dirs {
		os.MkdirAll(filepath.Join(dir, d), 0o755)
	}
	for n, to := range c.Links {
		os.Symlink(to, filepath.Join(dir, n))
	}
	totalOutcome = ""
	for _, tg := range []string{"bash", "batch"} {
		o := h.Transpile(filepath.Join(dir, c.Main), tg)
		tail := "\n" + h.Clip(allFiles(c.Files, c.Main))
		switch {
		case o.Panic != "":
			return tg + ": transpiler panicked: " + o.Panic + tail
		case o.Err == nil && o.Script == "":
			return tg + ": neither a script nor an error" + tail
		case o.Err != nil && o.Script != "":
			return tg + ": a script and an error: " + o.Err.Error() + tail
		case o.Err != nil && strings.TrimSpace(o.Err.Error()) == "":
			return tg + ": empty error" + tail
		case o.Err != nil:
			totalOutcome += " " + tg + " rejects"
		default:
			totalOutcome += " " + tg + " accepts"
		}
	}
	return ""
}

func TestC13(t *testing.T) {
	h.Check(t, func(t *rapid.T) {
		c := TotalCase{Files: map[string]h.Text{}, Main: "main.tsh"}
		set := func(s string) { c.Files[c.Main] = h.Text(s) }
		mode := gen.Uniform(t, 17, "mode")
		name := ""
		switch mode {
		case 0:
			name = "bytes"
			set(randomBytes(t))
		case 1:
			name = "lexical fragments"
			var b strings.Builder
			for n := gen.Uniform(t, 60, "n") + 1; n > 0; n-- {
				b.WriteString(gen.Pick(t, lexFrags, "f"))
			}
			set(b.String())
		case 2, 3:
			name = "token sequence"
			set(tokenSoup(t))
		case 4, 5, 6, 7:
			name = "edited program"
			set(editProgram(t))
		case 8:
			name = "spliced programs"
			a, b := baseProgram(t), baseProgram(t)
			set(cut(t, a) + cut(t, b))
		case 9:
			name = "nesting"
			set(nesting(t))
		case 10:
			name = "repetition"
			set(repetition(t))
		case 13, 14, 15:
			name = "untyped grammar"
			set(wildProgram(t))
		case 16:
			name = "matched nesting"
			set(matchedNesting(t))
		case 11:
			name = "import graph"
			importGraph(t, &c)
		case 12:
			name = "edited import graph"
			cfg := modCfg(t)
			cfg.MaxTop, cfg.Depth, cfg.MaxFuncs = 3, 1, 3
			p := gen.New(t, cfg).Modules(gen.ModCfg{Min: 1, Max: 3})
			c.Files, c.Main = sources(p), p.Main.File
			var ns []string
			for n := range c.Files {
				ns = append(ns, n)
			}
			sortStrings(ns)
			n := gen.Pick(t, ns, "victim")
			switch gen.Uniform(t, 4, "how") {
			case 0:
				delete(c.Files, n)
			case 1:
				c.Files[n] = h.Text(cut(t, string(c.Files[n])))
			default:
				ps, _ := lexref.Pieces(string(c.Files[n]))
				c.Files[n] = h.Text(corrupt(t, ps))
			}
		}
		total := 0
		for _, s := range c.Files {
			total += len(s)
		}
		h.Count(allFiles(c.Files, c.Main), total >= 8, func() any { return map[string]any{"kind": name, "files": clipFiles(c.Files)} })
		totalKind.Run(t, c)
		h.Class(name + ":" + totalOutcome)
	})
}

func clipFiles(fs map[string]h.Text) map[string]string {
	m := map[string]string{}
	for n, s := range fs {
		m[n] = h.Clip(string(s))
	}
	return m
}

func randomBytes(t *rapid.T) string {
	n := gen.Uniform(t, 300, "len")
	b := make([]byte, n)
	mode := gen.Uniform(t, 3, "alphabet")
	const ascii = "abcdefgx012 \t\n\n(){}[]\"`'/*+-=<>!&|%:;,.@_#$\\"
	for i := range b {
		switch mode {
		case 0:
			b[i] = byte(gen.Uniform(t, 256, "b"))
		case 1:
			b[i] = byte(gen.Uniform(t, 95, "b") + 32)
		default:
			b[i] = ascii[gen.Uniform(t, len(ascii), "b")]
		}
	}
	return string(b)
}

// soupToks are biased towards what starts or continues a construct.
var soupToks = strings.Fields(`a b x f g s i m 0 1 2 -1 "" "a" "a b" true false nil int string bool error
	var func return if else switch case default for range break continue import len print input copy itoa exists read write panic
	( ) [ ] { } [] == != < > <= >= && || + - * / % += -= *= /= %= = := ++ -- ! , : ; . @ | a() f() f(1) a[0] a[0:1] a[:] a[:1] s[1] []int{} []int{1} []string{"a"}
	m.F() len(a) itoa(1) copy(a,b) read("a") input() @p() @p("a") a:=1 b:="s" a=2 a++ print(a) if_true{ for_{ func_f(){ func_f()int{ switch_a{ case_1: default: }else{ }else_if_true{ return_1`)

func tokenSoup(t *rapid.T) string {
	var b strings.Builder
	n := gen.Uniform(t, 50, "n") + 1
	nl := gen.Uniform(t, 4, "nl") + 2
	if gen.Uniform(t, 2, "prelude") == 0 {
		b.WriteString("a := 1\ns := \"x\"\nb := []int{1}\nfunc f(p int) int {\nreturn p\n}\nfunc g() {\n}\nfunc h() (int, string) {\nreturn 1, \"\"\n}\n")
	}
	for ; n > 0; n-- {
		b.WriteString(strings.ReplaceAll(gen.Pick(t, soupToks, "tok"), "_", " "))
		if gen.Uniform(t, nl, "sep") == 0 {
			b.WriteByte('\n')
		} else {
			b.WriteByte(' ')
		}
	}
	return b.String()
}

func baseProgram(t *rapid.T) string {
	switch gen.Uniform(t, 5, "base") {
	case 0:
		return gen.Pick(t, repoSources(), "file")
	case 1:
		return gen.Pick(t, snippets, "snippet")
	}
	c := gen.Cfg{MaxFuncs: 3, Slices: true, Strings: true, Copy: true, Grow: true, SliceParm: true, Globals: true, Multi: true, Switch: true,
		Panic: true, TypedErr: true, SmallInts: true, IO: true, MinTop: 1, MaxTop: 4, MaxBlock: 3, Depth: 2, ExprDepth: 3}
	p := gen.New(t, c).Program()
	return p.Main.Source()
}

func cut(t *rapid.T, s string) string {
	if len(s) == 0 {
		return s
	}
	if gen.Uniform(t, 2, "head") == 0 {
		return s[:gen.Uniform(t, len(s)+1, "cut")]
	}
	return s[gen.Uniform(t, len(s)+1, "cut"):]
}

func editProgram(t *rapid.T) string {
	s := baseProgram(t)
	ps, ok := lexref.Pieces(s)
	if !ok {
		h.Infra("base text is not lexable: %q", s)
	}
	switch gen.Uniform(t, 6, "edit") {
	case 0: // bytes
		b := []byte(s)
		for n := gen.Uniform(t, 4, "n") + 1; n > 0 && len(b) > 0; n-- {
			i := gen.Uniform(t, len(b), "at")
			switch gen.Uniform(t, 3, "how") {
			case 0:
				b = append(b[:i:i], b[i+1:]...)
			case 1:
				b[i] = byte(gen.Uniform(t, 256, "b"))
			default:
				b = append(b[:i:i], append([]byte(gen.Pick(t, lexFrags, "f")), b[i:]...)...)
			}
		}
		return string(b)
	case 1: // one expression-like token for another
		for n := gen.Uniform(t, 3, "n") + 1; n > 0 && len(ps) > 0; n-- {
			i := gen.Uniform(t, len(ps), "at")
			ps[i].Text = strings.ReplaceAll(gen.Pick(t, soupToks, "tok"), "_", " ")
		}
		return joinPieces(ps)
	case 2: // an identifier or literal for another of the same text
		var ids []int
		for i, p := range ps {
			if c := p.Text[0]; c == '"' || c == '`' || c == '_' || c >= 'a' && c <= 'z' || c >= '0' && c <= '9' {
				ids = append(ids, i)
			}
		}
		for n := gen.Uniform(t, 3, "n") + 1; n > 0 && len(ids) > 0; n-- {
			ps[gen.Pick(t, ids, "at")] = ps[gen.Pick(t, ids, "from")]
		}
		return joinPieces(ps)
	case 3: // move, drop or repeat a range of tokens
		if len(ps) < 2 {
			return s
		}
		i := gen.Uniform(t, len(ps), "i")
		j := i + gen.Uniform(t, min(12, len(ps)-i), "len") + 1
		part := append([]lexref.Piece{}, ps[i:j]...)
		rest := append(append([]lexref.Piece{}, ps[:i]...), ps[j:]...)
		if gen.Uniform(t, 2, "keep") == 0 {
			rest = ps
		}
		if gen.Uniform(t, 3, "drop") > 0 {
			k := gen.Uniform(t, len(rest)+1, "to")
			rest = append(append(append([]lexref.Piece{}, rest[:k]...), part...), rest[k:]...)
		}
		return joinPieces(rest)
	case 4:
		return cut(t, s)
	}
	return corrupt(t, ps)
}

var openers = []string{"(", "!", "print(", "len(", "itoa(", "f(", "[]int{", "a[", "a[0:", "1 + ", "1 * (", "\"a\" + ", "true && ", "1 == 1 == ", "@a(", "@a() | ", "x := ", "if true {\n", "if ",
	"for {\n", "for i := 0; ", "switch 1 {\ncase 1:\n", "switch {\ndefault:\n", "func f() {\n", "case ", "else if true {\n", "import (\n", "{", "[", "[]", "-", "m.", "var a, ", "return ", "copy(", "read(", "exists(", "input(", "write(", "panic(", "/*", "else ", "range ", "a, "}
var closers = []string{")", "}", "]", "\n}\n", "))", ":1]", ", 1)", "1", "\n", "} else {\n}", "*/", "{\n}\n", ";;{\n}\n"}

func nesting(t *rapid.T) string {
	n := 1 << gen.Uniform(t, 15, "log")
	n += gen.Uniform(t, n, "more")
	var unit, end string
	for k := gen.Uniform(t, 3, "kinds") + 1; k > 0; k-- {
		unit += gen.Pick(t, openers, "open")
	}
	for k := gen.Uniform(t, 3, "kinds"); k > 0; k-- {
		end += gen.Pick(t, closers, "close")
	}
	n = min(n, 24000/max(1, len(unit)+len(end)))
	pre := gen.Pick(t, []string{"", "a := []int{1}\n", "func f(x int) int {\nreturn x\n}\n", "print(", "x := ", "if ", "import \"strings\"\n"}, "pre")
	mid := gen.Pick(t, []string{"", "1", "a", "print(1)\n", "true", "\"s\"", "break\n"}, "mid")
	return pre + strings.Repeat(unit, n) + mid + strings.Repeat(end, n) + gen.Pick(t, []string{"", "\n", ")", "\n}\n"}, "post")
}

// matchedNesting nests constructs properly.
func matchedNesting(t *rapid.T) string {
	type pair struct{ open, close string }
	stmts := []pair{{"if true {\n", "\n}\n"}, {"for {\n", "\n}\n"}, {"for i, v := range []int{1} {\n", "\n}\n"}, {"switch 1 {\ncase 1:\n", "\n}\n"}, {"if false {\n} else if true {\n", "\n} else {\n}\n"},
		{"switch {\ndefault:\n", "\n}\n"}, {"for i := 0; i < 3; i++ {\n", "\n}\n"}, {"if f(1) == 1 {\n} else {\n", "\n}\n"}}
	exprs := []pair{{"(", ")"}, {"f(", ")"}, {"len([]int{", "})"}, {"1 + ", ""}, {"", " * 2"}, {"len(itoa(", "))"}, {"a[", "]"}, {"f(1 - (", "))"}, {"f(f(", "))"}, {"len(s[", ":1])"}}
	bools := []pair{{"!", ""}, {"!(", ")"}, {"true == (", ")"}, {"(", ")"}, {"false || ", ""}, {"g(", ")"}, {"true && !", ""}}
	var ps []pair
	mid := ""
	bool_ := false
	switch gen.Uniform(t, 3, "what") {
	case 0:
		ps, mid = stmts, "print(1)"
	case 1:
		ps, mid = exprs, "1"
	default:
		ps, mid, bool_ = bools, "true", true
	}
	n := 1 << gen.Uniform(t, 12, "log")
	n += gen.Uniform(t, n, "more")
	var kinds []pair
	for k := gen.Uniform(t, 3, "kinds") + 1; k > 0; k-- {
		kinds = append(kinds, gen.Pick(t, ps, "kind"))
	}
	var open, end strings.Builder
	var closes []string
	for i := 0; i < n && open.Len() < 12000; i++ {
		p := kinds[i%len(kinds)]
		if strings.HasPrefix(p.open, "for i") || strings.HasPrefix(p.open, "if f") {
			p.open = strings.ReplaceAll(strings.ReplaceAll(p.open, "i", fmt.Sprintf("i%d", i)), "v :=", fmt.Sprintf("v%d :=", i))
			p.open = strings.ReplaceAll(strings.ReplaceAll(p.open, fmt.Sprintf("i%dnt", i), "int"), fmt.Sprintf("i%df", i), "if")
		}
		open.WriteString(p.open)
		closes = append(closes, p.close)
	}
	for i := len(closes) - 1; i >= 0; i-- {
		end.WriteString(closes[i])
	}
	body := open.String() + mid + end.String()
	if ps[0] == exprs[0] || bool_ {
		body = "print(" + body + ")\n"
	}
	pre := "a := []int{1}\ns := \"s\"\nfunc f(x int) int {\nreturn x\n}\nfunc g(x bool) bool {\nreturn x\n}\n"
	if gen.Uniform(t, 6, "cut") == 0 {
		body = cut(t, body)
	}
	if gen.Uniform(t, 3, "infunc") == 0 {
		return pre + "func h() {\n" + body + "}\nh()\n"
	}
	return pre + body
}

// wildProgram is syntactically plausible; types, arity and scopes are random.
func wildProgram(t *rapid.T) string {
	w := &wild{T: t, vars: []string{"i", "s", "b", "sl", "ss", "e"}, budget: 120}
	var b strings.Builder
	b.WriteString("var i int\nvar s string = \"x\"\nvar b bool\nsl := []int{1}\nss := []string{\"a\"}\nvar e error\nfunc v() {\n}\nfunc one(x int) int {\nreturn x\n}\nfunc two() (int, string) {\nreturn 1, \"\"\n}\nfunc st(p []int, q string) []int {\nreturn p\n}\n")
	for n := max(1, gen.Uniform(t, 6, "stmts")-2); n > 0; n-- {
		b.WriteString(w.stmt(2))
	}
	return b.String()
}

type wild struct {
	*rapid.T
	vars   []string
	budget int
}

func (w *wild) typ() string {
	return gen.Pick(w.T, []string{"int", "string", "bool", "error", "[]int", "[]string", "[]bool", "[][]int", "[]error", "x"}, "type")
}

func (w *wild) name() string { return gen.Pick(w.T, w.vars, "var") }

func (w *wild) list(d, hi int) string {
	var xs []string
	for n := gen.Uniform(w.T, hi+1, "n"); n > 0; n-- {
		xs = append(xs, w.expr(d))
	}
	return strings.Join(xs, ", ")
}

func (w *wild) expr(d int) string {
	w.budget--
	if d <= 0 || w.budget < 0 {
		return gen.Pick(w.T, []string{"1", "0", "-1", "\"\"", "\"a\"", "true", "false", "nil", "i", "s", "b", "sl", "ss", "e", "v()", "two()", "one(1)", "undef", "9223372036854775808", "1.5", "[]int{}", "st(sl, s)", "@p()", "input()"}, "leaf")
	}
	x := func() string { return w.expr(d - 1) }
	switch gen.Uniform(w.T, 20, "expr") {
	case 0, 1:
		return x() + gen.Pick(w.T, []string{" + ", " - ", " * ", " / ", " % "}, "op") + x()
	case 2:
		return x() + gen.Pick(w.T, []string{" == ", " != ", " < ", " >= "}, "op") + x()
	case 3:
		return x() + gen.Pick(w.T, []string{" && ", " || "}, "op") + x()
	case 4:
		return "!" + x()
	case 5:
		return "(" + x() + ")"
	case 6:
		return w.name() + "[" + x() + "]"
	case 7:
		return w.name() + "[" + gen.Pick(w.T, []string{"", "1", x()}, "lo") + ":" + gen.Pick(w.T, []string{"", "1", x()}, "hi") + "]"
	case 8:
		return w.typ() + "{" + w.list(d-1, 3) + "}"
	case 9:
		return gen.Pick(w.T, []string{"one", "two", "v", "st", "len", "itoa", "copy", "read", "exists", "input", "print", "panic", "write", "undef"}, "fn") + "(" + w.list(d-1, 3) + ")"
	case 10:
		return "@" + gen.Pick(w.T, []string{"p", "\"p q\"", "p2"}, "prog") + "(" + w.list(d-1, 3) + ")" + gen.Pick(w.T, []string{"", " | @q()", " | @q(" + x() + ")"}, "pipe")
	case 11:
		return "len(" + x() + ")"
	case 12:
		return "copy(" + x() + ", " + x() + ")"
	case 13:
		return "one(" + x() + ")"
	case 14:
		return "st(" + x() + ", " + x() + ")"
	case 15:
		return "itoa(" + x() + ")"
	}
	return w.expr(0)
}

func (w *wild) block(d int) string {
	s := "{\n"
	for n := gen.Uniform(w.T, 3, "blk"); n > 0; n-- {
		s += w.stmt(d - 1)
	}
	return s + "}"
}

func (w *wild) simple() string {
	switch gen.Uniform(w.T, 8, "simple") {
	case 0:
		return gen.Pick(w.T, []string{"z", "y, z", "i, z", "i", "s", "z, z"}, "lhs") + " := " + w.expr(2) + gen.Pick(w.T, []string{"", "", ", " + w.expr(1)}, "more")
	case 1:
		return w.name() + " = " + w.expr(2)
	case 2:
		return w.name() + ", " + w.name() + " = " + w.expr(2) + gen.Pick(w.T, []string{"", ", " + w.expr(1)}, "more")
	case 3:
		return w.name() + gen.Pick(w.T, []string{" += ", " -= ", " *= ", " %= ", " /= "}, "op") + w.expr(2)
	case 4:
		return w.name() + gen.Pick(w.T, []string{"++", "--"}, "op")
	case 5:
		return w.name() + "[" + w.expr(1) + "] = " + w.expr(2)
	case 6:
		return "var " + gen.Pick(w.T, []string{"z", "y, z", "i"}, "names") + " " + gen.Pick(w.T, []string{w.typ(), ""}, "t") + gen.Pick(w.T, []string{"", " = " + w.expr(2), " = " + w.expr(1) + ", " + w.expr(1)}, "val")
	}
	return w.expr(2)
}

func (w *wild) stmt(d int) string {
	if d <= 0 {
		return w.simple() + "\n"
	}
	switch gen.Uniform(w.T, 16, "stmt") {
	case 0:
		s := "if " + w.expr(2) + " " + w.block(d)
		for gen.Uniform(w.T, 3, "elif") == 0 {
			s += " else if " + w.expr(1) + " " + w.block(d)
		}
		if gen.Uniform(w.T, 2, "else") == 0 {
			s += " else " + w.block(d)
		}
		return s + "\n"
	case 1:
		s := "switch " + gen.Pick(w.T, []string{"", w.expr(2)}, "tag") + " {\n"
		for n := gen.Uniform(w.T, 4, "cases"); n > 0; n-- {
			s += gen.Pick(w.T, []string{"case " + w.expr(1) + ":\n", "case " + w.expr(1) + ":\n", "default:\n"}, "case")
			if gen.Uniform(w.T, 3, "body") > 0 {
				s += w.stmt(d - 1)
			}
			if gen.Uniform(w.T, 6, "brk") == 0 {
				s += "break\n"
			}
		}
		return s + "}\n"
	case 2:
		return "for " + gen.Pick(w.T, []string{"", w.expr(2) + " "}, "cond") + w.block(d) + "\n"
	case 3:
		return "for " + gen.Pick(w.T, []string{"", w.simple()}, "init") + "; " + gen.Pick(w.T, []string{"", w.expr(2)}, "cond") + "; " + gen.Pick(w.T, []string{"", w.simple()}, "post") + " " + w.block(d) + "\n"
	case 4:
		return "for " + gen.Pick(w.T, []string{"k", "k, l", "i, k", "k, k", "_, k"}, "vars") + " := range " + w.expr(2) + " " + w.block(d) + "\n"
	case 5:
		return "func " + gen.Pick(w.T, []string{"n1", "n2", "one", "i"}, "fn") + gen.Pick(w.T, []string{"()", "(p int)", "(p " + w.typ() + ", q " + w.typ() + ")", "(p int, p int)", ""}, "params") + " " +
			gen.Pick(w.T, []string{"", "int ", w.typ() + " ", "(int, " + w.typ() + ") ", "() "}, "rets") + w.block(d) + "\n"
	case 6:
		return "return " + w.list(2, 2) + "\n"
	case 7:
		return gen.Pick(w.T, []string{"break", "continue"}, "jump") + "\n"
	case 8:
		return gen.Pick(w.T, []string{"print", "panic", "write"}, "out") + "(" + w.list(2, 3) + ")\n"
	}
	return w.simple() + "\n"
}

var repeated = []string{"a%d := %d\n", "print(%d, %d)\n", "func f%d() {\nprint(%d)\n}\n", "if true {\nx%d := %d\n}\n", " + %d", "case %d:\nprint(%d)\n", "for i%d := 0; i%d < 1; i%d++ {\n}\n", "/* %d */", "// %d\n", "\n", " ", "\"%d\", ",
	"else if true {\n}", "@p(\"%d\")\n", "| @q(\"%d\")", "aaaaaaaa", "1", "\"", "`", "'", "\\", "é", "import \"x%d\"\n", "x \"x%d\"\n", "(%d)", "[%d]", "a = a + %d\n", "a, ", ";", "\\n", "var s%d string\n", "s += \"%d\"\n",
	"func g%d(a int) int {\nreturn a + %d\n}\n", "switch %d {\n}\n", "return %d\n", "write(\"f\", \"%d\")\n"}

func repetition(t *rapid.T) string {
	unit := gen.Pick(t, repeated, "unit")
	n := 1 << gen.Uniform(t, 14, "log")
	n = min(n+gen.Uniform(t, n, "more"), 24000/len(unit))
	var b strings.Builder
	b.WriteString(gen.Pick(t, []string{"", "x := 1", "x := []string{", "switch 1 {\n", "if true {\n}", "print(", "@p()", "var ", "func f() {\n", "import (\n", "\"", "`", "//", "/*", "a := 1\n", "s := \"\"\n"}, "pre"))
	for i := 0; i < n; i++ {
		b.WriteString(strings.ReplaceAll(unit, "%d", fmt.Sprint(i)))
	}
	b.WriteString(gen.Pick(t, []string{"", "\n", "}", "}\n", ")\n", "\"\n", "`\n", "*/", "\n}\n", "{\n}\n", ":= 1\n", "= 1\n"}, "post"))
	return b.String()
}

// importGraph: any directed graph over files, with missing files, directories,
// links and the main file itself among the targets.
func importGraph(t *rapid.T, c *TotalCase) {
	n := gen.Uniform(t, 6, "files") + 1
	deep := gen.Uniform(t, 5, "deep") == 0
	if deep {
		n = gen.Uniform(t, 60, "files") + 2
	}
	names := []string{"main.tsh"}
	for i := 1; i < n; i++ {
		names = append(names, fmt.Sprintf("%sf%d.tsh", gen.Pick(t, []string{"", "d/"}, "dir"), i))
	}
	c.Dirs = []string{"d", "empty"}
	for i, nm := range names {
		var b strings.Builder
		var targets []string
		if deep { // a ladder: exponentially many paths
			for k := 0; k < 2 && i+1 < n; k++ {
				j := min(n-1, i+1+gen.Uniform(t, 2, "rung"))
				targets = append(targets, names[j])
			}
			if gen.Uniform(t, 40, "back") == 0 {
				targets = append(targets, names[gen.Uniform(t, i+1, "to")])
			}
		} else {
			for k := gen.Uniform(t, 4, "edges"); k > 0; k-- {
				if gen.Uniform(t, 4, "odd") == 0 {
					targets = append(targets, gen.Pick(t, []string{"missing.tsh", "", ".", "..", "empty", "d", "strings", "os", "strings.tsh", "/nonexistent", "\\x00", "link.tsh", "loop.tsh", "main.tsh/", "d/../main.tsh", "dangling.tsh", "main", "/"}, "path"))
				} else {
					targets = append(targets, names[gen.Uniform(t, n, "to")])
				}
			}
		}
		up := ""
		if strings.HasPrefix(nm, "d/") {
			up = "../"
		}
		if len(targets) > 0 || gen.Uniform(t, 8, "emptyimport") == 0 {
			b.WriteString("import (\n")
			for k, x := range targets {
				if x != "strings" && x != "os" && x != "" && !strings.HasPrefix(x, "/") {
					x = up + x
				}
				switch gen.Uniform(t, 12, "alias") {
				case 0:
					fmt.Fprintf(&b, "\"%s\"\n", x)
				case 1:
					fmt.Fprintf(&b, "a \"%s\"\n", x)
				default:
					fmt.Fprintf(&b, "m%d \"%s\"\n", k, x)
				}
			}
			b.WriteString(")\n")
		}
		fmt.Fprintf(&b, "func F() int {\n")
		if len(targets) > 0 && gen.Uniform(t, 3, "call") > 0 {
			b.WriteString("return m0.F()\n")
		} else {
			b.WriteString("return 1\n")
		}
		b.WriteString("}\n")
		if gen.Uniform(t, 3, "top") > 0 {
			b.WriteString("print(F())\n")
		}
		c.Files[nm] = h.Text(b.String())
	}
	c.Links = map[string]string{"link.tsh": "main.tsh", "loop.tsh": "loop.tsh", "dangling.tsh": "nowhere"}
	switch gen.Uniform(t, 12, "main") {
	case 0:
		c.Main = "missing.tsh"
	case 1:
		c.Main = "d"
	case 2:
		c.Main = "link.tsh"
	case 3:
		c.Main = "loop.tsh"
	}
}

var _ = lang.TInt
