package checks

import (
	"fmt"
	"path/filepath"
	"strings"
	"testing"

	"tshverif/batchvm"
	"tshverif/gen"
	"tshverif/h"

	"pgregory.net/rapid"
)

// StrCall is one call of a library function.
type StrCall struct {
	Fn   string
	S    []h.Text // string arguments
	N    int      // int argument
	List []h.Text // Join
	Mode int      // 0 literals, 1 variables, 2 through a wrapper function
}

type StrCase struct {
	Calls  []StrCall
	Target string
}

var strKind = h.NewKind("strings", checkStrings)

type strSig struct {
	params string // s string, n int, l list
	rets   string // s, i, b, l
}

var strSigs = map[string]strSig{
	"Index": {"ss", "i"}, "Contains": {"ss", "b"}, "Join": {"ls", "s"}, "HasPrefix": {"ss", "b"}, "HasSuffix": {"ss", "b"}, "Count": {"ss", "i"},
	"Split": {"ss", "l"}, "Repeat": {"sn", "s"}, "Replace": {"sssn", "s"}, "ReplaceAll": {"sss", "s"}, "Cut": {"ss", "ssb"},
	"CutPrefix": {"ss", "sb"}, "CutSuffix": {"ss", "sb"}, "TrimPrefix": {"ss", "s"}, "TrimSuffix": {"ss", "s"}, "TrimLeft": {"ss", "s"},
	"TrimRight": {"ss", "s"}, "Trim": {"ss", "s"}, "TrimSpace": {"s", "s"},
}

var strNames = func() (r []string) {
	for n := range strSigs {
		r = append(r, n)
	}
	sortStrings(r)
	return
}()

// asciiLit writes any ASCII string as a literal.
func asciiLit(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == '"' || c == '\\':
			b.WriteByte('\\')
			b.WriteByte(c)
		case c == '\n':
			b.WriteString(`\n`)
		case c == '\t':
			b.WriteString(`\t`)
		case c < 32 || c > 126:
			fmt.Fprintf(&b, `\x%02x`, c)
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// goStrings is the oracle.
func goStrings(c StrCall) (rets []any) {
	s := func(i int) string { return string(c.S[i]) }
	switch c.Fn {
	case "Index":
		return []any{strings.Index(s(0), s(1))}
	case "Contains":
		return []any{strings.Contains(s(0), s(1))}
	case "Join":
		var l []string
		for _, x := range c.List {
			l = append(l, string(x))
		}
		return []any{strings.Join(l, s(0))}
	case "HasPrefix":
		return []any{strings.HasPrefix(s(0), s(1))}
	case "HasSuffix":
		return []any{strings.HasSuffix(s(0), s(1))}
	case "Count":
		return []any{strings.Count(s(0), s(1))}
	case "Split":
		return []any{strings.Split(s(0), s(1))}
	case "Repeat":
		return []any{strings.Repeat(s(0), c.N)}
	case "Replace":
		return []any{strings.Replace(s(0), s(1), s(2), c.N)}
	case "ReplaceAll":
		return []any{strings.ReplaceAll(s(0), s(1), s(2))}
	case "Cut":
		a, b, f := strings.Cut(s(0), s(1))
		return []any{a, b, f}
	case "CutPrefix":
		a, f := strings.CutPrefix(s(0), s(1))
		return []any{a, f}
	case "CutSuffix":
		a, f := strings.CutSuffix(s(0), s(1))
		return []any{a, f}
	case "TrimPrefix":
		return []any{strings.TrimPrefix(s(0), s(1))}
	case "TrimSuffix":
		return []any{strings.TrimSuffix(s(0), s(1))}
	case "TrimLeft":
		return []any{strings.TrimLeft(s(0), s(1))}
	case "TrimRight":
		return []any{strings.TrimRight(s(0), s(1))}
	case "Trim":
		return []any{strings.Trim(s(0), s(1))}
	case "TrimSpace":
		return []any{strings.TrimSpace(s(0))}
	}
	h.Infra("unknown function %s", c.Fn)
	return nil
}

var tshTypes = map[byte]string{'s': "string", 'i': "int", 'n': "int", 'b': "bool", 'l': "[]string"}

// source and expected output of a case.
func (c StrCase) program() (string, string) {
	var src, want strings.Builder
	src.WriteString("import \"strings\"\n")
	for k, call := range c.Calls {
		sig := strSigs[call.Fn]
		var args, params []string
		si := 0
		for j := 0; j < len(sig.params); j++ {
			var lit string
			switch sig.params[j] {
			case 's':
				lit = asciiLit(string(call.S[si]))
				si++
			case 'n':
				lit = fmt.Sprint(call.N)
			case 'l':
				var es []string
				for _, e := range call.List {
					es = append(es, asciiLit(string(e)))
				}
				lit = "[]string{" + strings.Join(es, ", ") + "}"
			}
			if call.Mode == 1 {
				v := fmt.Sprintf("a%d_%d", k, j)
				fmt.Fprintf(&src, "%s := %s\n", v, lit)
				lit = v
			}
			args = append(args, lit)
			params = append(params, fmt.Sprintf("p%d %s", j, tshTypes[sig.params[j]]))
		}
		callee := "strings." + call.Fn
		if call.Mode == 2 {
			var ps []string
			for j := range params {
				ps = append(ps, fmt.Sprintf("p%d", j))
			}
			rets := tshTypes[sig.rets[0]]
			ret := "return " + callee + "(" + strings.Join(ps, ", ") + ")"
			if len(sig.rets) > 1 {
				var ts, vs []string
				for j := range sig.rets {
					ts = append(ts, tshTypes[sig.rets[j]])
					vs = append(vs, fmt.Sprintf("r%d", j))
				}
				rets = "(" + strings.Join(ts, ", ") + ")"
				ret = strings.Join(vs, ", ") + " := " + callee + "(" + strings.Join(ps, ", ") + ")\nreturn " + strings.Join(vs, ", ")
			}
			fmt.Fprintf(&src, "func w%d(%s) %s {\n%s\n}\n", k, strings.Join(params, ", "), rets, ret)
			callee = fmt.Sprintf("w%d", k)
		}
		var vs []string
		for j := range sig.rets {
			vs = append(vs, fmt.Sprintf("r%d_%d", k, j))
		}
		fmt.Fprintf(&src, "%s := %s(%s)\n", strings.Join(vs, ", "), callee, strings.Join(args, ", "))
		for j, r := range goStrings(call) {
			switch x := r.(type) {
			case []string:
				fmt.Fprintf(&src, "print(\"%s\", len(%s))\nfor i, e := range %s {\nprint(i, \"<\" + e + \">\")\n}\n", call.Fn, vs[j], vs[j])
				fmt.Fprintf(&want, "%s %d\n", call.Fn, len(x))
				for i, e := range x {
					fmt.Fprintf(&want, "%d <%s>\n", i, e)
				}
			case string:
				fmt.Fprintf(&src, "print(\"%s\", \"<\" + %s + \">\", len(%s))\n", call.Fn, vs[j], vs[j])
				fmt.Fprintf(&want, "%s <%s> %d\n", call.Fn, x, len(x))
			case bool:
				fmt.Fprintf(&src, "print(\"%s\", %s)\n", call.Fn, vs[j])
				n := 0
				if x {
					n = 1
				}
				fmt.Fprintf(&want, "%s %d\n", call.Fn, n)
			case int:
				fmt.Fprintf(&src, "print(\"%s\", %s)\n", call.Fn, vs[j])
				fmt.Fprintf(&want, "%s %d\n", call.Fn, x)
			}
		}
	}
	return src.String(), want.String()
}

func checkStrings(c StrCase) string {
	src, want := c.program()
	dir := h.WriteTree("prog", map[string]h.Text{"main.tsh": h.Text(src)})
	o := h.Transpile(filepath.Join(dir, "main.tsh"), c.Target)
	if r := o.Rejected(); r != "" {
		return "program with calls of std/strings is not accepted: " + r + "\n" + src
	}
	var out, serr string
	status := 0
	if c.Target == "batch" {
		r := batchvm.Run(o.Script, batchvm.Opt{})
		if r.Unsupported != "" {
			h.Infra("cmd.exe model: %s\n%s", r.Unsupported, o.Script)
		}
		if r.Timeout {
			return "script does not terminate\n" + src
		}
		out, serr, status = r.Out, r.Err, r.Status
	} else {
		r := h.Bash(o.Script, h.RunOpt{CPU: 20})
		if r.Signal != "" {
			return "script does not terminate normally (" + r.Signal + ")\n" + src
		}
		out, serr, status = r.Stdout, r.Stderr, r.Status
	}
	if serr != "" {
		return "script writes to standard error: " + serr + "\n" + src
	}
	if out != want {
		return c.Target + ": result differs from Go: " + h.Diff(want, out) + "\n--- source\n" + src
	}
	if status != 0 {
		return fmt.Sprintf("exit status %d\n%s", status, src)
	}
	return ""
}

func TestC15(t *testing.T) {
	h.Check(t, func(t *rapid.T) {
		c := StrCase{Target: "bash"}
		alpha := gen.Pick(t, []string{"ab", "ab", "aab,", "a b", "abc", " \t\n\r\v\fx", "a\"'$`\\*?[]-!~", "\x01\x7f\x1ba \n", "01-+", ""}, "alphabet")
		if gen.Uniform(t, 6, "batch") == 0 {
			c.Target = "batch"
			alpha = gen.Pick(t, []string{"ab", "a b", "ab,", "01", "a=;", "x.:-"}, "alphabet")
		}
		if alpha == "" { // any ASCII character but NUL
			for i := 1; i < 128; i++ {
				alpha += string(rune(i))
			}
		}
		max := 7
		if h.Thorough() {
			max = 12
		}
		for k := gen.Uniform(t, 6, "calls") + 1; k > 0; k-- {
			c.Calls = append(c.Calls, strCall(t, alpha, max))
		}
		for _, x := range c.Calls {
			h.Class(x.Fn, "mode "+fmt.Sprint(x.Mode))
			for _, s := range x.S {
				if s == "" {
					h.Class(x.Fn + ": empty argument")
				}
			}
			if x.N < 0 {
				h.Class(x.Fn + ": negative count")
			} else if x.N == 0 && strings.Contains(strSigs[x.Fn].params, "n") {
				h.Class(x.Fn + ": zero count")
			}
		}
		h.Class(c.Target)
		src, want := c.program()
		h.Count(src, want != "", func() any { return map[string]any{"source": src, "want": want} })
		strKind.Run(t, c)
	})
}

func randStr(t *rapid.T, alpha string, max int) string {
	n := gen.Uniform(t, max+1, "len")
	b := make([]byte, n)
	for i := range b {
		b[i] = alpha[gen.Uniform(t, len(alpha), "c")]
	}
	return string(b)
}

func strCall(t *rapid.T, alpha string, max int) StrCall {
	c := StrCall{Fn: gen.Pick(t, strNames, "fn"), Mode: gen.Uniform(t, 3, "mode")}
	s := randStr(t, alpha, max)
	// The second argument is often part of the first.
	part := func() string {
		switch gen.Uniform(t, 8, "part") {
		case 0:
			return ""
		case 1:
			return s
		case 2:
			return randStr(t, alpha, 3)
		case 3:
			return s + randStr(t, alpha, 1)
		case 4: // prefix
			return s[:gen.Uniform(t, len(s)+1, "k")]
		case 5: // suffix
			return s[gen.Uniform(t, len(s)+1, "k"):]
		}
		if len(s) == 0 {
			return ""
		}
		i := gen.Uniform(t, len(s), "i")
		return s[i:min(len(s), i+gen.Uniform(t, 2, "w")+1)]
	}
	sig := strSigs[c.Fn]
	first := true
	for _, p := range sig.params {
		switch p {
		case 's':
			switch {
			case first && c.Fn != "Join":
				c.S = append(c.S, h.Text(s))
			case len(c.S) == 1:
				c.S = append(c.S, h.Text(part()))
			default:
				c.S = append(c.S, h.Text(randStr(t, alpha, 3)))
			}
			first = false
		case 'n':
			if c.Fn == "Repeat" {
				c.N = gen.Uniform(t, 5, "n")
			} else {
				c.N = gen.Uniform(t, 7, "n") - 2
			}
		case 'l':
			for k := gen.Uniform(t, 5, "elems"); k > 0; k-- {
				c.List = append(c.List, h.Text(randStr(t, alpha, 3)))
			}
		}
	}
	return c
}
