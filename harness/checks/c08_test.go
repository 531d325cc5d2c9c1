package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"tshverif/gen"
	"tshverif/h"

	"pgregory.net/rapid"
)

// DataCase: string values sent along paths of the language.
type DataCase struct {
	A, B   h.Text
	From   [2]int // origin of each value
	Paths  []int
	InFunc bool
	Panic  bool
}

const (
	fromLit = iota
	fromRaw
	fromFile
	fromStdin
	fromCommand
	fromCommandArg // echoed back by a command that got it as argument
	fromPrompt     // standard input, read with a prompt that holds the other value
	nOrigins
)

var originNames = []string{"literal", "raw literal", "file", "standard input", "command output", "command argument", "prompted input"}

var dataKind = h.NewKind("data", checkData)

var dataPaths = []string{"print", "assign", "concat", "append", "compare", "pass", "return two", "slice literal", "slice assign", "range", "subscript", "len", "write", "switch", "compare literal", "copy",
	"global", "swap", "nested call", "parameter assign", "loop carried", "slice of function", "zero value", "write append", "path", "default value", "many parameters", "prompt", "loop condition"}

// program returns the source, the expected output, the expected files of the
// working directory and standard input.
func (c DataCase) program() (src, want, stdin string, files, made map[string]string, panics bool) {
	files = map[string]string{}
	made = map[string]string{}
	var s, top, w strings.Builder
	expr := [2]string{}
	val := [2]string{string(c.A), string(c.B)}
	for i := range expr {
		v := val[i]
		name := []string{"p", "q"}[i]
		switch c.From[i] {
		case fromLit:
			expr[i] = asciiLit(v)
			continue
		case fromRaw:
			expr[i] = "`" + v + "`"
			continue
		case fromFile:
			f := "in" + fmt.Sprint(i)
			files[f] = v + "\n"
			fmt.Fprintf(&s, "%s := read(\"%s\")\n", name, f)
		case fromStdin:
			stdin += v + "\n"
			fmt.Fprintf(&s, "%s := input()\n", name)
		case fromPrompt:
			stdin += v + "\n"
			prompt := `"? "`
			if i == 1 {
				prompt = expr[0]
			}
			fmt.Fprintf(&s, "%s := input(%s)\n", name, prompt)
		case fromCommand:
			f := "out" + fmt.Sprint(i)
			files[f] = v + "\n"
			fmt.Fprintf(&s, "%s, %se, %sc := @cat(\"%s\")\nif %sc != 0 {\nprint(\"cat failed\", %se)\n}\n", name, name, name, f, name, name)
		case fromCommandArg:
			fmt.Fprintf(&s, "%s, %se, %sc := @printf(\"%%s\\n\", %s)\nif %sc != 0 {\nprint(\"printf failed\", %se)\n}\n", name, name, name, asciiLit(v), name, name)
		}
		expr[i] = name
	}
	E, F := expr[0], expr[1]
	a, b := val[0], val[1]
	line := func(vs ...any) {
		for i, x := range vs {
			if i > 0 {
				w.WriteByte(' ')
			}
			switch y := x.(type) {
			case bool:
				if y {
					w.WriteByte('1')
				} else {
					w.WriteByte('0')
				}
			default:
				fmt.Fprint(&w, y)
			}
		}
		w.WriteByte('\n')
	}
	for k, p := range c.Paths {
		v := func(n string) string { return fmt.Sprintf("%s%d", n, k) }
		f := func(format string, args ...any) { fmt.Fprintf(&s, format+"\n", args...) }
		switch dataPaths[p] {
		case "print":
			f("print(%s)", E)
			line(a)
			f("print(%s, %s, 1, %s)", F, E, E)
			line(b, a, 1, a)
		case "assign":
			f("%s := %s\nvar %s string = %s\nvar %s string\n%s = %s\n%s = %s\nprint(%s, %s)", v("x"), E, v("y"), F, v("z"), v("z"), v("x"), v("x"), v("y"), v("x"), v("z"))
			line(b, a)
		case "concat":
			f("print(\"<\" + %s + \"|\" + %s + \">\" + %s)", E, F, E)
			line("<" + a + "|" + b + ">" + a)
		case "append":
			f("%s := %s\n%s += %s\n%s += \"x\"\n%s += %s\nprint(%s)", v("x"), E, v("x"), F, v("x"), v("x"), E, v("x"))
			line(a + b + "x" + a)
		case "compare":
			f("%s := %s", v("x"), E)
			f("print(%s == %s, %s != %s, %s == %s, %s != %s, %s == \"\", \"\" == %s)", E, F, E, F, v("x"), E, F, v("x"), F, F)
			line(a == b, a != b, true, a != b, b == "", b == "")
			f("if %s == %s {\nprint(\"same\")\n} else if %s != %s {\nprint(\"other\")\n}", v("x"), F, E, F)
			if a == b {
				line("same")
			} else {
				line("other")
			}
		case "pass":
			fmt.Fprintf(&top, "func %s(m string, n int, o string) string {\nprint(m, n, o)\nreturn o\n}\n", v("f"))
			f("print(%s(%s, 1, %s))", v("f"), E, F)
			line(a, 1, b)
			line(b)
		case "return two":
			fmt.Fprintf(&top, "func %s(m string, o string) (string, string) {\nreturn o, m + o\n}\n", v("f"))
			f("%s, %s := %s(%s, %s)\nprint(%s, %s)", v("x"), v("y"), v("f"), E, F, v("x"), v("y"))
			line(b, a+b)
		case "slice literal":
			f("%s := []string{%s, \"mid\", %s}\nprint(%s[0], %s[1], %s[2], len(%s))", v("l"), E, F, v("l"), v("l"), v("l"), v("l"))
			line(a, "mid", b, 3)
		case "slice assign":
			f("%s := []string{}\n%s[2] = %s\n%s[0] = %s\n%s[0] = %s + %s[2]\nprint(%s[0], %s[1], %s[2])", v("l"), v("l"), E, v("l"), E, v("l"), F, v("l"), v("l"), v("l"), v("l"))
			line(b+a, "", a)
		case "range":
			f("for %s, %s := range %s + \"#\" {\nprint(%s, %s, \"<\" + %s + \">\")\n}", v("i"), v("c"), E, v("i"), v("c"), v("c"))
			for i := 0; i < len(a)+1; i++ {
				ch := (a + "#")[i : i+1]
				line(i, ch, "<"+ch+">")
			}
			f("for %s, %s := range []string{%s, %s} {\nprint(%s, %s)\n}", v("j"), v("d"), E, F, v("j"), v("d"))
			line(0, a)
			line(1, b)
		case "subscript":
			f("%s := %s", v("x"), E)
			if len(a) > 0 {
				m := len(a) / 2
				f("print(%s[0], %s[%d], %s[:%d], %s[%d:], %s[0:1], %s[:])", v("x"), v("x"), len(a)-1, v("x"), m, v("x"), m, v("x"), v("x"))
				line(a[:1], a[len(a)-1:], a[:m], a[m:], a[:1], a)
			}
			f("print(\"<\" + %s[:] + \">\")", v("x"))
			line("<" + a + ">")
		case "len":
			f("%s := %s\nprint(len(%s), len(%s), len(%s + %s))", v("x"), F, E, v("x"), E, F)
			line(len(a), len(b), len(a)+len(b))
		case "write":
			f("write(\"%s\", %s)\nprint(read(\"%s\") == %s, len(read(\"%s\")))", v("w"), E, v("w"), E, v("w"))
			line(true, len(a))
			made[v("w")] = a + "\n"
		case "write append":
			f("write(\"%s\", %s)\nwrite(\"%s\", %s, true)\nprint(read(\"%s\"))", v("w"), E, v("w"), F, v("w"))
			line(a + "\n" + b)
			made[v("w")] = a + "\n" + b + "\n"
		case "switch":
			f("switch %s {\ncase %s:\nprint(\"B\")\ncase %s:\nprint(\"A\")\ndefault:\nprint(\"none\")\n}", E, F, E)
			if a == b {
				line("B")
			} else {
				line("A")
			}
		case "compare literal":
			f("if %s == %s {\nprint(\"equal\")\n} else {\nprint(\"different\")\n}", E, asciiLit(a))
			line("equal")
		case "copy":
			f("%s := []string{\"\"}\n%s := []string{%s, %s}\nprint(copy(%s, %s), %s[0], %s[1])", v("l"), v("m"), E, F, v("l"), v("m"), v("l"), v("l"))
			line(2, a, b)
		case "global":
			fmt.Fprintf(&top, "var %s string\nfunc %s(m string) {\n%s = m\n%s += m\n}\n", v("g"), v("f"), v("g"), v("g"))
			f("%s(%s)\nprint(%s)", v("f"), E, v("g"))
			line(a + a)
		case "swap":
			f("%s := %s\n%s := %s\n%s, %s = %s, %s\nprint(%s, %s)", v("x"), E, v("y"), F, v("x"), v("y"), v("y"), v("x"), v("x"), v("y"))
			line(b, a)
		case "nested call":
			fmt.Fprintf(&top, "func %s(m string) string {\nreturn \"(\" + m + \")\"\n}\n", v("f"))
			f("print(%s(%s(%s) + %s))", v("f"), v("f"), E, F)
			line("((" + a + ")" + b + ")")
		case "parameter assign":
			fmt.Fprintf(&top, "func %s(m string, l []string) string {\nm = m + l[0]\nl[1] = m\nreturn m\n}\n", v("f"))
			f("%s := []string{%s}\nprint(%s(%s, %s), %s[0], %s[1])", v("l"), F, v("f"), E, v("l"), v("l"), v("l"))
			line(a+b, b, a+b)
		case "loop carried":
			f("%s := \"\"\nfor %s := 0; %s < 3; %s++ {\n%s = %s + %s\n}\nprint(%s)", v("x"), v("i"), v("i"), v("i"), v("x"), v("x"), E, v("x"))
			line(a + a + a)
		case "slice of function":
			fmt.Fprintf(&top, "func %s(m string, n string) []string {\nreturn []string{m, n}\n}\n", v("f"))
			f("%s := %s(%s, %s)\nfor %s, %s := range %s {\nprint(%s)\n}", v("l"), v("f"), E, F, v("i"), v("c"), v("l"), v("c"))
			line(a)
			line(b)
		case "zero value":
			f("var %s string\n%s = %s + %s\nprint(%s)", v("x"), v("x"), v("x"), E, v("x"))
			line(a)
		case "path":
			f("print(exists(%s + \"/nope\"))", E)
			line(false)
		case "default value":
			fmt.Fprintf(&top, "var %s = \"old\"\n", v("g"))
			f("if %s != %s + \"x\" {\n%s = %s\n}\nprint(%s)", v("g"), E, v("g"), E, v("g"))
			if "old" != a+"x" {
				line(a)
			} else {
				line("old")
			}
		case "prompt":
			stdin += "  typed \\line\t \n"
			f("print(input(%s) + \"|\")", E)
			line("  typed \\line\t |")
		case "loop condition":
			f("%s := \"\"\nfor %s != %s {\n%s = %s + \"\"\nprint(%s)\n}\nprint(%s == %s)", v("x"), v("x"), E, v("x"), E, v("x"), v("x"), E)
			if a != "" {
				line(a)
			}
			line(true)
		case "many parameters":
			fmt.Fprintf(&top, "func %s(a1 string, a2 string, a3 string, a4 string, a5 string, a6 string, a7 string, a8 string, a9 string, a10 string, a11 string) {\nprint(a1, a2, a9, a10, a11)\n}\n", v("f"))
			f("%s(%s, %s, \"\", \"\", \"\", \"\", \"\", \"\", %s, %s, %s)", v("f"), E, F, F, E, F)
			line(a, b, b, a, b)
		}
	}
	if c.Panic {
		fmt.Fprintf(&s, "panic(%s)\n", E)
		line("panic: " + a)
		panics = true
	}
	body := s.String()
	if c.InFunc {
		body = "func run() {\n" + body + "}\nrun()\n"
	}
	src = top.String() + body
	return src, w.String(), stdin, files, made, panics
}

func checkData(c DataCase) string {
	src, want, stdin, files, made, panics := c.program()
	o := h.TranspileSource(src, "bash")
	if r := o.Rejected(); r != "" {
		return "program is not accepted: " + r + "\n" + src
	}
	dir := filepath.Join(h.Scratch(), "datacwd")
	os.RemoveAll(dir)
	if err := os.MkdirAll(dir, 0o777); err != nil {
		h.Infra("%v", err)
	}
	os.Chmod(dir, 0o777)
	// Names that unquoted patterns would match.
	bait := map[string]string{"a": "", "b": "", "x": "", "ab": "", "zz": "", "-n": ""}
	for n, s := range files {
		bait[n] = s
	}
	for n, s := range bait {
		if err := os.WriteFile(filepath.Join(dir, n), []byte(s), 0o644); err != nil {
			h.Infra("%v", err)
		}
	}
	r := h.Bash(o.Script, h.RunOpt{Dir: dir, Stdin: stdin, Env: []string{"a=LEAK", "x=LEAK", "b=LEAK", "IFS= \t\n"}})
	tail := "\n--- source\n" + src + "\n--- script\n" + o.Script
	if r.Signal != "" {
		return "script does not terminate normally (" + r.Signal + ")" + tail
	}
	for n, s := range made {
		bait[n] = s
	}
	es, err := os.ReadDir(dir)
	if err != nil {
		h.Infra("%v", err)
	}
	for _, e := range es {
		w, ok := bait[e.Name()]
		if !ok {
			return fmt.Sprintf("the script created %q: a value was executed or misread as a path%s", e.Name(), tail)
		}
		b, err := os.ReadFile(filepath.Join(dir, e.Name()))
		if err != nil {
			h.Infra("%v", err)
		}
		if string(b) != w {
			return fmt.Sprintf("file %q holds %q, want %q%s", e.Name(), b, w, tail)
		}
	}
	if len(es) != len(bait) {
		return "a file is missing" + tail
	}
	if r.Stderr != "" {
		return "script writes to standard error: " + r.Stderr + tail
	}
	if r.Stdout != want {
		return "output differs: " + h.Diff(want, r.Stdout) + tail
	}
	if st := map[bool]int{false: 0, true: 1}[panics]; st != r.Status {
		return fmt.Sprintf("exit status %d, want %d%s", r.Status, st, tail)
	}
	return ""
}

var dataSpecials = []string{"", "-n", "-e", "-E", "-ne", "--", "-", "--help", "-neE", "-v x", "!", "(", ")", "()", "( a", "-f", "-z", "=", "==", "!=", "-eq", "-a", "-o", "[", "]", "[[", "{a,b}", "{1..3}", "*", "?", "[ab]", "~", "~root", "~/x",
	"$(touch CANARY)", "`touch CANARY`", "; touch CANARY", "| touch CANARY", "& touch CANARY", "> CANARY", "\" ; touch CANARY ; \"", "\"; touch CANARY #", "'; touch CANARY; '", "$((1+1))", "${a}", "$a", "$x$b", "$1", "$@", "$*", "$#", "$?", "$$", "$!", "$0", "${#a}", "${IFS}", "$", "$$x", "\\$a", "\\\\$a", "\\", "\\\\", "\\n", "\\t", "\\\"", "\\`", "a\\", "\\a", "\\x41", "\\0", "\\c", "%s", "%d %s", "%%", "%", "%b", "\"", "\"\"", "'", "''", "`", "``",
	" ", "  ", " a", "a ", "a  b", "\t", "\ta\t", "\n", "\n\n", "a\n", "a\n\n", "\na", "a\nb", " \n ", "#", "# a", "a#b", "//", "/* */", "&&", "||", "<", ">", "<<EOF", "<<<x", "EOF", "!!", "!a", "^a^b", "0", "00", "1", "-1", "+1", "1e3", "08", "true", "false", "nil", "_", "_h0", "_rv0", "${_h0}", "v_x", "a=b", "x[0]", "x[$(touch CANARY)]", "a[1]=2", "declare", "exit", "exit 3", "return", "done", "fi", "}", "{", ";;", "esac", ":", ".", "..", "/", "%~1", "!x!", "%x%", "^"}

func dataValue(t *rapid.T, nl bool) string {
	var v string
	switch gen.Uniform(t, 4, "value") {
	case 0:
		v = gen.Pick(t, dataSpecials, "special")
	case 1: // one character in every position
		c := "\n\t"
		for i := 32; i < 127; i++ {
			c += string(rune(i))
		}
		x := string(c[gen.Uniform(t, len(c), "char")])
		v = strings.ReplaceAll(gen.Pick(t, []string{"#", "##", "a#", "#a", "a#a", " #", "# ", "\\#", "#\\", "$#", "#$", "\"#", "#\"", "'#", "#'", "\\\\#", "#-", "-#", "${#}", "$(#)", "`#`", "#\n", "\n#", "# #", "a#b#c"}, "pattern"), "#", x)
	case 2:
		const c = "\"\\$`'!*?[]{}();&|<>#~-%= \t\nab01"
		for n := gen.Uniform(t, 10, "len"); n > 0; n-- {
			i := gen.Uniform(t, len(c), "c")
			v += c[i : i+1]
		}
	default:
		v = gen.Pick(t, dataSpecials, "s1") + gen.Pick(t, []string{"", " ", "\n", "x", "\\", "\""}, "glue") + gen.Pick(t, dataSpecials, "s2")
	}
	if !nl {
		v = strings.ReplaceAll(v, "\n", "\t")
	}
	return v
}

func TestC08(t *testing.T) {
	h.Check(t, func(t *rapid.T) {
		var c DataCase
		for i := range c.From {
			c.From[i] = gen.Uniform(t, nOrigins, "origin")
			if i == 1 && gen.Uniform(t, 2, "litB") == 0 {
				c.From[i] = fromLit
			}
			v := dataValue(t, c.From[i] != fromStdin && c.From[i] != fromPrompt)
			if c.From[i] == fromRaw && strings.Contains(v, "`") {
				c.From[i] = fromLit
			}
			if i == 0 {
				c.A = h.Text(v)
			} else {
				c.B = h.Text(v)
			}
		}
		if gen.Uniform(t, 6, "same") == 0 && c.From[1] != fromStdin && c.From[1] != fromPrompt && c.From[1] != fromRaw {
			c.B = c.A
		}
		for n := gen.Uniform(t, 4, "paths") + 1; n > 0; n-- {
			c.Paths = append(c.Paths, gen.Uniform(t, len(dataPaths), "path"))
		}
		c.InFunc = gen.Uniform(t, 3, "infunc") == 0
		c.Panic = gen.Uniform(t, 8, "panic") == 0
		for _, p := range c.Paths {
			h.Class("path "+dataPaths[p], "origin "+originNames[c.From[0]])
		}
		if c.InFunc {
			h.Class("in a function")
		}
		src, want, _, _, _, _ := c.program()
		special := strings.ContainsAny(string(c.A)+string(c.B), "\"\\$`'!*?[]{}();&|<>#~-%= \t\n")
		h.Count(src, special, func() any { return map[string]any{"source": src, "want": want} })
		dataKind.Run(t, c)
	})
}
