package checks

import (
	"fmt"
	"path/filepath"
	"regexp"
	"strings"
	"testing"

	"tshverif/gen"
	"tshverif/h"
	"tshverif/lang"

	"pgregory.net/rapid"
)

// TypeCase: a program that differs from a well-typed one in at most one place.
type TypeCase struct {
	Src    h.Text
	Accept bool
	Why    string
}

var typeKind = h.NewKind("typing", checkTyping)

func checkTyping(c TypeCase) string {
	dir := h.WriteTree("typing", map[string]h.Text{"main.tsh": c.Src})
	p := filepath.Join(dir, "main.tsh")
	var acc [2]bool
	for i, target := range []string{"bash", "batch"} {
		o := h.Transpile(p, target)
		if o.Panic != "" {
			return "transpiler panicked for " + target + ": " + o.Panic + "\n" + string(c.Src)
		}
		if o.Err != nil && o.Script != "" {
			return "an error and a script for " + target + "\n" + string(c.Src)
		}
		acc[i] = o.Err == nil
		if acc[i] && !c.Accept {
			return "ill-typed program (" + c.Why + ") is accepted for " + target + "\n" + string(c.Src)
		}
		if !acc[i] && c.Accept {
			return "well-typed program (" + c.Why + ") is rejected for " + target + ": " + o.Err.Error() + "\n" + string(c.Src)
		}
	}
	return ""
}

// ---------------------------------------------------------------- the table

type verdict int

const (
	vSkip verdict = iota
	vAcc
	vRej
)

type tform struct {
	t    string
	text string
	comp bool // needs brackets next to an operator
}

var tforms = []tform{
	{"bool", "true", false}, {"bool", "false", false}, {"bool", "vb", false}, {"bool", "fb()", false}, {"bool", "(vb)", false}, {"bool", "!vb", false}, {"bool", "1 < 2", true}, {"bool", "vs == \"a\"", true}, {"bool", "vb != true", true}, {"bool", "vb && true", true}, {"bool", "vi == 1 || vb", true}, {"bool", "sb[0]", false}, {"bool", "exists(\"x\")", false}, {"bool", "ve == nil", true},
	{"int", "1", false}, {"int", "0", false}, {"int", "vi", false}, {"int", "fi()", false}, {"int", "(vi)", false}, {"int", "vi + 1", true}, {"int", "vi * 2 - 1", true}, {"int", "vi % 2", true}, {"int", "si[0]", false}, {"int", "len(vs)", false}, {"int", "len(si)", false}, {"int", "copy(si, si)", false}, {"int", "fid(vi)", false},
	{"string", "\"a\"", false}, {"string", "\"\"", false}, {"string", "`raw`", false}, {"string", "\"1\"", false}, {"string", "vs", false}, {"string", "fs()", false}, {"string", "(vs)", false}, {"string", "vs + \"a\"", true}, {"string", "ss[0]", false}, {"string", "vs[0]", false}, {"string", "vs[0:1]", false}, {"string", "vs[1:]", false}, {"string", "itoa(1)", false}, {"string", "input()", false}, {"string", "read(\"f\")", false}, {"string", "\"true\"", false},
	{"error", "ve", false}, {"error", "fe()", false}, {"error", "(ve)", false}, {"error", "se[0]", false},
	{"nil", "nil", false},
	{"[]bool", "sb", false}, {"[]bool", "fsb()", false}, {"[]bool", "[]bool{true}", false}, {"[]bool", "[]bool{}", false},
	{"[]int", "si", false}, {"[]int", "fsi()", false}, {"[]int", "[]int{1, 2}", false}, {"[]int", "[]int{}", false},
	{"[]string", "ss", false}, {"[]string", "fss()", false}, {"[]string", "[]string{\"a\"}", false}, {"[]string", "[]string{}", false},
	{"[]error", "se", false}, {"[]error", "fse()", false}, {"[]error", "[]error{}", false},
	{"void", "fv()", false}, {"void", "fv1(1)", false},
	{"2 int,int", "f2ii()", false}, {"2 int,string", "f2is()", false}, {"2 string,string", "f2ss()", false}, {"3 int,string,bool", "f3isb()", false},
	{"app", "@ls(\"-d\")", false},
}

var scalars = []string{"bool", "int", "string", "error"}
var allTypes = []string{"bool", "int", "string", "error", "[]bool", "[]int", "[]string", "[]error"}
var varOf = map[string]string{"bool": "vb", "int": "vi", "string": "vs", "error": "ve", "[]bool": "sb", "[]int": "si", "[]string": "ss", "[]error": "se"}
var litOf = map[string]string{"bool": "true", "int": "1", "string": "\"a\"", "error": "nil", "[]bool": "[]bool{}", "[]int": "[]int{}", "[]string": "[]string{}", "[]error": "[]error{}"}
var consumer = map[string]string{"bool": "cb", "int": "ci", "string": "cs", "error": "ce", "[]bool": "csb", "[]int": "csi", "[]string": "css", "[]error": "cse"}

func normT(t string) string { return strings.ReplaceAll(t, "error", "string") }

func valued(t string) bool {
	return strings.HasPrefix(t, "[]") || t == "bool" || t == "int" || t == "string" || t == "error"
}

// is accepts exactly the listed types. The README makes error "just a string
// type" and nil an empty string, where Go's rules differ: mixtures of those
// are not judged.
func is(ts ...string) func(string) verdict {
	return func(t string) verdict {
		r := vRej
		for _, x := range ts {
			switch {
			case x == t, x == "error" && t == "nil":
				return vAcc
			case normT(x) == normT(t), t == "nil" && x == "string", t == "nil" && strings.HasPrefix(x, "[]"):
				r = vSkip
			}
		}
		return r
	}
}

func but(f func(string) verdict, skip ...string) func(string) verdict {
	return func(t string) verdict {
		for _, s := range skip {
			if s == t || s == "multi" && t[0] >= '2' && t[0] <= '3' || s == "slice" && strings.HasPrefix(t, "[]") {
				return vSkip
			}
		}
		return f(t)
	}
}

type tpos struct {
	name string
	tmpl string // § marks the slot, ¤ a slot next to an operator
	ok   func(string) verdict
	sig  string // needs a function with this result list ("-": a void function)
}

var tposs = func() (ps []tpos) {
	add := func(name, tmpl string, ok func(string) verdict, sig ...string) {
		p := tpos{name, tmpl, ok, ""}
		if len(sig) > 0 {
			p.sig = sig[0]
		}
		ps = append(ps, p)
	}
	single := but(is(allTypes...), "nil")
	for _, t := range allTypes {
		v, l := varOf[t], litOf[t]
		add("var "+t, "var zz "+t+" = §", is(t))
		add("var list first "+t, "var zz, yy "+t+" = §, "+l, is(t))
		add("var list second "+t, "var zz, yy "+t+" = "+l+", §", is(t))
		add("assign "+t, v+" = §", is(t))
		add("assign list first "+t, "var zz int\n"+v+", zz = §, 2", is(t))
		add("assign list second "+t, "var zz int\nzz, "+v+" = 2, §", is(t))
		add("inferred "+t, "zz := §\nvar yy "+t+" = zz", but(is(t), "nil"))
		add("inferred var "+t, "var zz = §\n"+v+" = zz", but(is(t), "nil"))
		add("inferred list "+t, "zz, yy := 1, §\n"+v+" = yy", but(is(t), "nil"))
		add("redefined "+t, "var zz "+t+"\nzz, yy := §, 1", is(t))
		add("argument "+t, consumer[t]+"(§)", is(t))
		add("first argument "+t, consumer[t]+"2(§, 1)", is(t))
		add("second argument "+t, "i"+consumer[t]+"(1, §)", is(t))
		add("argument in expression "+t, "zz := 1 + "+consumer[t]+"2(§, 1)", is(t))
		add("return "+t, "return §", is(t), t)
		add("return list first "+t, "return §, \"a\"", is(t), "("+t+", string)")
		add("return list second "+t, "return 1, §", is(t), "(int, "+t+")")
		add("return in branches "+t, "if vi == 0 {\nreturn "+l+"\n} else if vi == 1 {\nfor vb {\nreturn §\n}\n}", is(t), t)
	}
	for _, t := range scalars {
		add("slice literal "+t, "zz := []"+t+"{§}", is(t))
		add("slice literal first "+t, "zz := []"+t+"{§, "+litOf[t]+"}", is(t))
		add("slice literal last "+t, "zz := []"+t+"{"+litOf[t]+", "+litOf[t]+", §}", is(t))
		add("slice element "+t, varOf["[]"+t]+"[1] = §", is(t))
		add("copy source "+t, "zz := copy("+varOf["[]"+t]+", §)", is("[]"+t))
		add("slice index "+t, "zz := "+varOf["[]"+t]+"[§]", is("int"))
		add("slice assign index "+t, varOf["[]"+t]+"[§] = "+litOf[t], is("int"))
		add("range element "+t, "for zz, yy := range "+varOf["[]"+t]+" {\nyy = §\n}", is(t))
	}
	add("range index", "for zz, yy := range ss {\nzz = §\n}", is("int"))
	add("range string element", "for zz, yy := range vs {\nyy = §\n}", is("string"))
	add("short definition", "zz := §", single)
	add("var definition", "var zz = §", single)
	add("multi short definition", "zz, yy := §, \"a\"", single)
	add("multi short definition last", "xx, zz, yy := true, 1, §", single)
	for _, op := range []string{"+", "-", "*", "/", "%"} {
		for _, t := range allTypes {
			ok := is()
			switch {
			case t == "int":
				ok = is("int")
			case t == "string" && op == "+":
				ok = but(is("string"), "nil")
			case t == "error" && op == "+":
				ok = but(is(), "string", "error", "nil")
			}
			add("operand "+t+" "+op, "zz := "+varOf[t]+" "+op+" ¤", ok)
			add("operand "+op+" "+t, "zz := ¤ "+op+" "+varOf[t], ok)
			add("compound "+t+" "+op+"=", varOf[t]+" "+op+"= §", ok)
			if t == "int" || t == "string" {
				add("chain "+t+" "+op, "zz := "+varOf[t]+" "+op+" "+litOf[t]+" "+op+" ¤", ok)
			}
		}
	}
	for _, op := range []string{"==", "!=", "<", "<=", ">", ">="} {
		for _, t := range allTypes {
			ok := is()
			eq := op == "==" || op == "!="
			switch {
			case t == "int":
				ok = is("int")
			case eq && t == "error":
				ok = is("error", "nil")
			case eq && !strings.HasPrefix(t, "[]"):
				ok = is(t)
			case strings.HasPrefix(t, "[]"):
				ok = but(is(), "nil")
			case t == "string" || t == "error":
				ok = but(is(), "string", "error", "nil")
			}
			add("compare "+t+" "+op, "zz := "+varOf[t]+" "+op+" ¤", ok)
			add("compare "+op+" "+t, "zz := ¤ "+op+" "+varOf[t], ok)
		}
	}
	for _, op := range []string{"&&", "||"} {
		for _, t := range allTypes {
			ok := is()
			if t == "bool" {
				ok = is("bool")
			}
			add("logic "+t+" "+op, "zz := "+varOf[t]+" "+op+" ¤", ok)
			add("logic "+op+" "+t, "zz := ¤ "+op+" "+varOf[t], ok)
			if t == "bool" {
				add("logic chain "+op, "zz := vb "+op+" true "+op+" ¤", ok)
			}
		}
	}
	add("negation", "zz := !¤", is("bool"))
	add("if", "if § {\nprint(1)\n}", is("bool"))
	add("else if", "if vb {\nprint(1)\n} else if § {\nprint(1)\n}", is("bool"))
	add("second else if", "if vb {\nprint(1)\n} else if vb {\nprint(1)\n} else if § {\nprint(2)\n} else {\nprint(3)\n}", is("bool"))
	add("for", "for § {\nbreak\n}", is("bool"))
	add("for three", "for zz := 0; §; zz++ {\nbreak\n}", is("bool"))
	add("for init", "for zz := §; zz < 3; zz++ {\nbreak\n}", is("int"))
	add("for post", "for zz := 0; zz < 3; zz += § {\nbreak\n}", is("int"))
	add("for post assign", "for zz := 0; zz < 3; zz = § {\nbreak\n}", is("int"))
	add("range", "for zz, yy := range § {\nprint(zz)\n}", but(is("string", "[]bool", "[]int", "[]string", "[]error"), "error", "nil"))
	for _, t := range scalars {
		add("case of "+t, "switch "+varOf[t]+" {\ncase §:\nprint(1)\n}", is(t))
		add("second case of "+t, "switch "+varOf[t]+" {\ncase "+litOf[t]+":\nprint(1)\ncase §:\nprint(2)\ndefault:\nprint(3)\n}", is(t))
		if t != "error" {
			add("switch with "+t, "switch § {\ncase "+litOf[t]+":\nprint(1)\n}", is(t))
		}
	}
	add("bare case", "switch {\ncase §:\nprint(1)\n}", is("bool"))
	add("bare second case", "switch {\ncase vb:\nprint(1)\ncase §:\nprint(1)\n}", is("bool"))
	add("case of true", "switch true {\ncase §:\nprint(1)\n}", is("bool"))
	add("case of a slice", "switch si {\ncase §:\nprint(1)\n}", but(is(), "nil"))
	add("string index", "zz := vs[§]", is("int"))
	add("string from", "zz := vs[§:2]", is("int"))
	add("string from open", "zz := vs[§:]", is("int"))
	add("string to", "zz := vs[0:§]", is("int"))
	add("string to open", "zz := vs[:§]", is("int"))
	add("void return", "return §", but(is(), "void"), "-")
	add("len", "zz := len(§)", but(is("string", "[]bool", "[]int", "[]string", "[]error"), "error", "nil"))
	add("itoa", "zz := itoa(§)", is("int"))
	add("print", "print(§)", but(is(scalars...), "slice", "nil", "multi", "app"))
	add("print second", "print(\"a\", §)", but(is(scalars...), "slice", "nil", "multi", "app"))
	add("panic", "panic(§)", but(is("string", "error"), "int", "bool", "slice", "nil", "multi", "app"))
	add("read", "zz := read(§)", is("string"))
	add("exists", "zz := exists(§)", is("string"))
	add("write path", "write(§, \"a\")", is("string"))
	add("write content", "write(\"f\", §)", is("string"))
	add("write append", "write(\"f\", \"a\", §)", is("bool"))
	add("write all first", "write(§, \"a\", true)", is("string"))
	add("input", "zz := input(§)", is("string"))
	add("two results", "return §", but(is(), "multi"), "(int, string)")
	add("missing result", "return 1, §", is(), "(int, int, string)")
	add("surplus result", "return 1, \"a\", §", but(is(), "multi"), "(int, string)")
	add("surplus argument", "ci2(1, 1, §)", is())
	add("argument of a function without parameters", "fv(§)", but(is(), "void"))
	return
}()

type tfixed struct {
	text string
	ok   bool
}

var tfixeds = func() (fs []tfixed) {
	acc := func(ss ...string) {
		for _, s := range ss {
			fs = append(fs, tfixed{s, true})
		}
	}
	rej := func(ss ...string) {
		for _, s := range ss {
			fs = append(fs, tfixed{s, false})
		}
	}
	acc("fv()", "fv1(1)", "ci2(1, 2)", "zz := len(vs)", "zz := input()", "zz := input(\"p\")", "write(\"a\", \"b\")", "write(\"a\", \"b\", true)", "copy(si, si)", "fi()", "f2ii()", "vi++", "vi--",
		"zz, yy := f2is()\nvar xx int = zz\nvar ww string = yy", "zz, yy, xx := @ls()\nvar ww int = xx\nvar vv string = zz\nvar uu string = yy",
		"var zz int\nvar yy, xx string\nyy, xx, zz = @ls(\"a\") | @cat()", "var zz []int\nzz = si", "var zz error = nil", "ve = nil", "zz := ve == nil", "zz := nil != ve", "ce(nil)", "var zz, yy = 1, \"a\"\nvar xx int = zz\nvar ww string = yy",
		"switch vi {\ncase 1:\nprint(1)\ncase vi:\nprint(1)\ndefault:\nprint(2)\n}", "for zz, yy := range []bool{true} {\nvar xx bool = yy\nvar ww int = zz\n}", "for zz, yy := range vs {\nvar xx string = yy\nvar ww int = zz\n}",
		"zz := !vb && (vi < 2 || vs == \"a\") && fb()", "zz := (1 + 2) * vi - len(vs) % (3 + fi())", "zz := vs + vs[0] + ss[vi] + itoa(vi + 1) + vs[vi:len(vs)]", "fid(fid(fid(1)))", "var zz bool = vi == fid(1) && fb()",
		"zz := []int{vi, len(ss), fid(2), si[0]}\nsi = zz", "si[si[0]] = si[fid(1)]")
	rej("zz := print(1)", "zz := panic(\"a\")", "var zz int = print(1)", "print(print(1))", "vi = write(\"a\", \"b\")",
		"len()", "zz := len()", "zz := len(vs, vs)", "zz := itoa()", "zz := itoa(1, 2)", "zz := input(\"a\", \"b\")", "zz := copy(si)", "zz := copy()", "zz := copy(si, si, si)", "zz := read()", "zz := read(\"a\", \"b\")",
		"write()", "write(\"a\")", "write(\"a\", \"b\", true, true)", "zz := exists()", "zz := exists(\"a\", \"b\")", "panic()", "panic(\"a\", \"b\")",
		"vb[0] = true", "vi[0] = 1", "vs[0] = \"a\"", "ve[0] = nil", "print(vi[0])", "print(vb[0])", "zz := vi[0:1]", "zz := vb[:1]",
		"vb++", "vs++", "si++", "vb--", "vs--", "ve++", "fi()++",
		"vi()", "zz := vs()", "var zz int = nil", "var zz bool = nil", "vi = nil", "ci(nil)", "zz := vi == nil", "zz := nil + 1", "if nil {\nprint(1)\n}", "zz := vb == nil",
		"zz, yy := 1", "zz := 1, 2", "var zz, yy int = 1", "var zz, yy int = 1, 2, 3", "var zz int = 1, 2", "vi, vs = 1", "vi = 1, 2", "vi, vs = 1, \"a\", 2", "var zz, yy int = 1, \"a\"", "vi, vs = \"a\", 1",
		"zz, yy, xx := f2ii()", "zz, yy := f2ii(), 1", "zz, yy, xx := f2ii(), 1", "zz, yy, xx := 1, f2ii()", "zz, yy := fi()", "zz, yy := fv()", "zz, yy := f3isb()", "var zz, yy int = f3isb()", "var zz, yy int = fi()",
		"zz := f2ii() + 1", "zz := 1 + f2ii()", "if f2ii() {\nprint(1)\n}", "zz := []int{f2ii()}", "zz, yy := @ls()", "zz, yy, xx, ww := @ls()", "zz := @ls() | @cat()", "zz := \"a\" + @ls()",
		"var zz int\nvar yy, xx string\nzz, yy, xx = @ls()", "var zz, yy, xx int = @ls()", "zz, yy, xx := @ls()\nvar ww int = zz", "zz, yy, xx := @ls()\nvar ww string = xx", "zz, yy, xx := @ls()\nvar ww int = yy", "zz, yy, xx := @ls()\nvar ww bool = xx",
		"zz := []void{}", "var zz float = 1", "var zz = []int", "zz := int", "zz := si + si", "zz := si == si", "zz := ss != ss", "zz := !si", "zz := !vi", "zz := !vs", "si = ss", "ss = se + ss",
		"for zz, yy := range vi {\nprint(zz)\n}", "for zz, yy := range ss {\nvar xx int = yy\n}", "for zz, yy := range ss {\nvar xx string = zz\n}", "for zz, yy := range vs {\nvar xx int = yy\n}", "for zz, yy := range vs {\nvs = zz\n}",
		"copy(si, vs)", "copy(vs, vs)", "copy(vs, ss)", "copy(vi, si)", "copy(si, ss)", "copy(sb, si)", "zz := []int{1}[\"a\"]", "switch si {\ncase si:\nprint(1)\n}")
	for f, n := range map[string]int{"fv": 0, "fv1": 1, "fid": 1, "ci2": 2, "f2ii": 0, "fi": 0, "c3": 3} {
		for k := 0; k <= 4; k++ {
			call := f + "(" + strings.Join([]string{"1", "1", "1", "1"}[:k], ", ") + ")"
			if k == n {
				acc(call)
			} else {
				rej(call)
			}
		}
	}
	multi := map[string][]string{"f2ii()": {"int", "int"}, "f2is()": {"int", "string"}, "f2ss()": {"string", "string"}, "f3isb()": {"int", "string", "bool"}, "@ls()": {"string", "string", "int"}}
	ts := []string{"int", "string", "bool", "[]int"}
	for _, m := range []string{"f2ii()", "f2is()", "f2ss()", "f3isb()", "@ls()"} {
		var rec func(cur []string)
		rec = func(cur []string) {
			if len(cur) > 1 || len(cur) == 1 && m != "@ls()" {
				same := strings.Join(cur, ",") == strings.Join(multi[m], ",")
				defs, names := "", []string{}
				for i, t := range cur {
					defs += fmt.Sprintf("var z%d %s\n", i, t)
					names = append(names, fmt.Sprintf("z%d", i))
				}
				fs = append(fs, tfixed{defs + strings.Join(names, ", ") + " = " + m, same})
				// One variable new, the others have their type already.
				if len(cur) > 1 {
					d := strings.SplitN(defs, "\n", 2)[1]
					fs = append(fs, tfixed{d + strings.Join(names, ", ") + " := " + m, len(cur) == len(multi[m]) && strings.Join(cur[1:], ",") == strings.Join(multi[m][1:], ",")})
				}
				uni := true
				for _, t := range cur {
					uni = uni && t == cur[0]
				}
				if uni {
					fs = append(fs, tfixed{"var " + strings.Join(names, ", ") + " " + cur[0] + " = " + m, same})
				}
			}
			if len(cur) < 3 {
				for _, t := range ts {
					rec(append(append([]string{}, cur...), t))
				}
			}
		}
		rec(nil)
	}
	return
}()

var tfuncs = map[string]string{
	"fb": "() bool {\nreturn true\n}", "fi": "() int {\nreturn 1\n}", "fs": "() string {\nreturn \"a\"\n}", "fe": "() error {\nreturn nil\n}",
	"fsb": "() []bool {\nreturn []bool{}\n}", "fsi": "() []int {\nreturn []int{1}\n}", "fss": "() []string {\nreturn []string{}\n}", "fse": "() []error {\nreturn []error{}\n}",
	"fv": "() {\nprint(\"v\")\n}", "fv1": "(p int) {\nprint(p)\n}", "fid": "(p int) int {\nreturn p\n}",
	"f2ii": "() (int, int) {\nreturn 1, 2\n}", "f2is": "() (int, string) {\nreturn 1, \"a\"\n}", "f2ss": "() (string, string) {\nreturn \"a\", \"b\"\n}", "f3isb": "() (int, string, bool) {\nreturn 1, \"a\", true\n}",
	"c3": "(p int, q int, r int) int {\nreturn p + q + r\n}",
}
var tvars = map[string]string{"vb": "var vb bool", "vi": "vi := 1", "vs": "vs := \"abc\"", "ve": "var ve error", "sb": "sb := []bool{true}", "si": "si := []int{1, 2}", "ss": "var ss []string", "se": "var se []error"}
var tnames []string

func init() {
	for t, c := range consumer {
		tfuncs[c] = "(p " + t + ") {\nprint(1)\n}"
		tfuncs[c+"2"] = "(p " + t + ", q int) int {\nreturn q\n}"
		tfuncs["i"+c] = "(q int, p " + t + ") int {\nreturn q\n}"
	}
	for n := range tfuncs {
		tnames = append(tnames, n)
	}
	sortStrings(tnames)
}

var idents = regexp.MustCompile(`[a-z][a-z0-9]*`)

// How a statement is embedded.
type tctx struct {
	Locals bool
	Func   bool
	Wraps  []int
}

var twraps = []string{
	"if vb {\n%s\n}", "if vb {\nprint(1)\n} else {\n%s\n}", "if vb {\nprint(1)\n} else if vi == 2 {\n%s\n}", "for vb {\n%s\n}", "for q1 := 0; q1 < 2; q1++ {\n%s\n}", "for q2, q3 := range vs {\n%s\n}",
	"switch vi {\ncase 1:\n%s\n}", "switch {\ncase vb:\nprint(1)\ndefault:\n%s\n}", "switch vs {\ncase \"a\":\nprint(1)\ncase \"b\":\n%s\ndefault:\nprint(1)\n}", "print(1)\n%s", "if vb {\n%s\n} else {\nprint(2)\n}", "for {\n%s\nbreak\n}",
}

func (c tctx) embed(stmt, sig string) string {
	used := map[int]bool{}
	for _, w := range c.Wraps {
		if used[w] {
			continue // the loop variables of a wrapper are not defined twice
		}
		used[w] = true
		stmt = fmt.Sprintf(twraps[w], stmt)
	}
	var top, vars strings.Builder
	words := map[string]bool{}
	for _, w := range idents.FindAllString(stmt, -1) {
		words[w] = true
	}
	for _, n := range tnames {
		if words[n] {
			top.WriteString("func " + n + tfuncs[n] + "\n")
		}
	}
	for _, n := range []string{"vb", "vi", "vs", "ve", "sb", "si", "ss", "se"} {
		if words[n] {
			vars.WriteString(tvars[n] + "\n")
		}
	}
	if !c.Func && sig == "" {
		return top.String() + vars.String() + stmt + "\n"
	}
	end, res := "", ""
	if sig != "" && sig != "-" {
		res = sig + " "
		var vals []string
		for _, t := range strings.Split(strings.Trim(sig, "()"), ", ") {
			vals = append(vals, litOf[t])
		}
		end = "return " + strings.Join(vals, ", ") + "\n"
	}
	if c.Locals {
		return top.String() + "func gg(p0 int) " + res + "{\n" + vars.String() + stmt + "\n" + end + "}\ngg(1)\n"
	}
	return top.String() + vars.String() + "func gg() " + res + "{\n" + stmt + "\n" + end + "}\ngg()\n"
}

func fill(tmpl string, f tform) string {
	op := f.text
	if f.comp {
		op = "(" + op + ")"
	}
	return strings.ReplaceAll(strings.ReplaceAll(tmpl, "§", f.text), "¤", op)
}

// judge gives the verdict for a form in a position.
func judge(p tpos, f tform) verdict {
	v := p.ok(f.t)
	if f.t == "app" && v == vAcc {
		v = vSkip
	}
	return v
}

func tableSize() int { return len(tposs)*len(tforms) + len(tfixeds) }

func tableCase(i int, c tctx) (TypeCase, bool) {
	if i >= len(tposs)*len(tforms) {
		x := tfixeds[i-len(tposs)*len(tforms)]
		return TypeCase{h.Text(c.embed(x.text, "")), x.ok, x.text}, true
	}
	p, f := tposs[i/len(tforms)], tforms[i%len(tforms)]
	v := judge(p, f)
	if v == vSkip {
		return TypeCase{}, false
	}
	return TypeCase{h.Text(c.embed(fill(p.tmpl, f), p.sig)), v == vAcc, p.name + ": " + f.text + " (" + f.t + ")"}, true
}

// ------------------------------------------------- nested expressions

// texpr generates an expression of type t. If fault is set, exactly one of its
// slots holds a value of a type the slot does not allow.
// free: the surroundings take any type, so the fault has to lie deeper.
func texpr(t *rapid.T, ty string, depth int, fault, free bool, why *string) string {
	if fault && free && depth == 0 {
		depth = 1
	}
	leaf := func(ty string) string {
		var c []string
		for _, f := range tforms {
			if f.t == ty {
				if f.comp {
					c = append(c, "("+f.text+")")
				} else {
					c = append(c, f.text)
				}
			}
		}
		return gen.Pick(t, c, "leaf")
	}
	if depth == 0 {
		if !fault {
			return leaf(ty)
		}
		var c []string
		for _, o := range append([]string{"void", "2 int,int", "2 string,string", "app"}, allTypes...) {
			if normT(o) != normT(ty) {
				c = append(c, o)
			}
		}
		o := gen.Pick(t, c, "wrong")
		*why = o + " where " + ty + " is needed"
		return leaf(o)
	}
	type slot struct{ ty string }
	sub := func(faulty bool, ty string) string {
		d := depth - 1
		if d > 0 && gen.Uniform(t, 4, "shallow") == 0 {
			d = 0
		}
		return texpr(t, ty, d, faulty, false, why)
	}
	// Each production: text with slots written as {type}.
	prods := map[string][]string{
		"bool":     {"({int} == {int})", "({string} == {string})", "({bool} == {bool})", "({int} < {int})", "({int} >= {int})", "({bool} && {bool})", "({bool} || {bool})", "({bool} && {bool} || {bool})", "!{bool}", "({bool})", "exists({string})", "sb[{int}]", "({int} != {int})", "gbool({int}, {string}, {bool})"},
		"int":      {"({int} + {int})", "({int} * {int})", "({int} - {int} / {int})", "({int} % {int})", "({int})", "si[{int}]", "len({string})", "len({[]int})", "fid({int})", "c3({int}, {int}, {int})", "copy(si, {[]int})", "gint({bool}, {[]string}, {string})"},
		"string":   {"({string} + {string})", "({string} + {string} + {string})", "({string})", "ss[{int}]", "vs[{int}]", "vs[{int}:{int}]", "vs[{int}:]", "itoa({int})", "read({string})", "input({string})", "gstr({int}, {bool}, {[]int})"},
		"[]int":    {"[]int{{int}, {int}}", "[]int{{int}}", "gsli({int}, {[]int})"},
		"[]string": {"[]string{{string}, {string}}", "[]string{{string}, \"a\", {string}}"},
	}
	ps := prods[ty]
	if len(ps) == 0 {
		return texpr(t, ty, 0, fault, false, why)
	}
	p := gen.Pick(t, ps, "prod")
	for fault && free && strings.HasPrefix(p, "({") && strings.HasSuffix(p, "})") && !strings.Contains(p, " ") {
		p = gen.Pick(t, ps, "prod") // a group would hand the wrong type on
	}
	n := len(slotRe.FindAllString(p, -1))
	bad := -1
	if fault {
		bad = gen.Uniform(t, n, "which")
	}
	k := -1
	return slotRe.ReplaceAllStringFunc(p, func(s string) string {
		k++
		st := s[1 : len(s)-1]
		// With two operands of free type the faulty one must clash with the
		// other: the other stays of the type written in the production.
		if k == bad && strings.HasPrefix(p, "len(") {
			o := gen.Pick(t, []string{"bool", "int", "void", "2 int,int"}, "lenwrong")
			if depth > 1 && gen.Uniform(t, 2, "deep") == 0 {
				return texpr(t, st, depth-1, true, true, why)
			}
			*why = o + " for len"
			return leaf(o)
		}
		return sub(k == bad, st)
	})
}

var slotRe = regexp.MustCompile(`\{(\[\])?(int|bool|string)\}`)

func init() {
	tfuncs["gbool"] = "(p int, q string, r bool) bool {\nreturn r\n}"
	tfuncs["gint"] = "(p bool, q []string, r string) int {\nreturn 1\n}"
	tfuncs["gstr"] = "(p int, q bool, r []int) string {\nreturn \"a\"\n}"
	tfuncs["gsli"] = "(p int, q []int) []int {\nreturn q\n}"
	tnames = append(tnames, "gbool", "gint", "gstr", "gsli")
}

func genCtx(t *rapid.T) (c tctx) {
	c.Func = gen.Uniform(t, 3, "func") > 0
	c.Locals = rapid.Bool().Draw(t, "locals")
	for n := gen.Uniform(t, 4, "nwraps"); n > 0; n-- {
		c.Wraps = append(c.Wraps, gen.Uniform(t, len(twraps), "wrap"))
	}
	return
}

// The statement positions that take an expression of a type, for nested
// expressions.
var tstmts = []struct{ tmpl, ty, sig string }{
	{"zz := {bool}", "", ""}, {"zz := {int}", "", ""}, {"zz := {string}", "", ""}, {"var zz bool = {bool}", "", ""}, {"var zz, yy int = {int}, {int}", "", ""}, {"vi, vs = {int}, {string}", "", ""},
	{"if {bool} {\ncs({string})\n} else if {bool} {\nvi = {int}\n}", "", ""}, {"for {bool} {\nvi = {int}\n}", "", ""}, {"for zz := {int}; {bool}; zz += {int} {\nprint(1)\n}", "", ""},
	{"switch {int} {\ncase {int}:\nprint(1)\ncase {int}:\nprint(2)\n}", "", ""}, {"switch {string} {\ncase {string}:\nprint(1)\n}", "", ""}, {"switch {\ncase {bool}:\nprint(1)\ncase {bool}:\nprint(2)\n}", "", ""},
	{"si[{int}] = {int}", "", ""}, {"ss[{int}] = {string}", "", ""}, {"vi += {int}", "", ""}, {"vs += {string}", "", ""}, {"vi %= {int}", "", ""}, {"write({string}, {string}, {bool})", "", ""}, {"c3({int}, {int}, {int})", "", ""}, {"icss({int}, {[]string})", "", ""},
	{"return {int}", "", "int"}, {"return {string}, {bool}", "", "(string, bool)"}, {"return {[]int}", "", "[]int"}, {"zz, yy := {int}, {bool}", "", ""}, {"for zz, yy := range {[]int} {\nyy = {int}\n}", "", ""},
}

func nestedCase(t *rapid.T, depth int) TypeCase {
	s := gen.Pick(t, tstmts, "stmt")
	n := len(slotRe.FindAllString(s.tmpl, -1))
	bad := -1
	if gen.Uniform(t, 3, "fault") > 0 {
		bad = gen.Uniform(t, n, "slot")
	}
	why := "well-typed"
	k := -1
	text := slotRe.ReplaceAllStringFunc(s.tmpl, func(x string) string {
		k++
		ty := x[1 : len(x)-1]
		d := gen.Uniform(t, depth+1, "depth")
		// A bare wrong value would be fine where any type is.
		free := strings.HasPrefix(s.tmpl, "zz := ") || strings.HasPrefix(s.tmpl, "zz, yy := ") || strings.Contains(s.tmpl, "range {") && k == 0 || strings.HasPrefix(s.tmpl, "for zz := ") && k == 0
		return texpr(t, ty, d, k == bad, free, &why)
	})
	return TypeCase{h.Text(genCtx(t).embed(text, s.sig)), bad < 0, why + ": " + text}
}

// ------------------------------------------------- corrupted programs

func typeTag(t lang.Type) string { return t.Norm().String() }

// corrupted takes a generated well-typed program and replaces one operand,
// argument, value, condition, index or element by one of another type.
func corrupted(t *rapid.T) (TypeCase, bool) {
	p := gen.New(t, gen.Cfg{MaxFuncs: 3, Slices: true, Strings: true, Copy: true, Switch: true, Globals: true, Multi: true, SliceParm: true, TypedErr: true, Panic: true,
		MinTop: 2, MaxTop: 6, MaxBlock: 3, Depth: 3, ExprDepth: 3, SmallInts: true}).Program()
	type slot struct {
		e    *lang.Expr
		want string
		why  string
	}
	var slots []slot
	add := func(e *lang.Expr, want lang.Type, why string) {
		if e != nil && want.K != lang.KVoid && e.Op != lang.ENil {
			slots = append(slots, slot{e, typeTag(want), why})
		}
	}
	var rets []lang.Type
	expr := func(e *lang.Expr) {
		switch e.Op {
		case lang.EBin, lang.ELog:
			add(e.A[0], e.A[0].T, "operand of "+e.Sym)
			add(e.A[1], e.A[1].T, "operand of "+e.Sym)
		case lang.ECmp:
			if e.A[0].Op != lang.ENil && e.A[1].Op != lang.ENil {
				add(e.A[0], e.A[0].T, "operand of "+e.Sym)
				add(e.A[1], e.A[1].T, "operand of "+e.Sym)
			}
		case lang.ENot:
			add(e.A[0], lang.TBool, "operand of !")
		case lang.ECall:
			for i, a := range e.A {
				add(a, e.F.Params[i].T, "argument")
			}
		case lang.EItoa:
			add(e.A[0], lang.TInt, "argument of itoa")
		case lang.EIndex:
			add(e.A[1], lang.TInt, "index")
		case lang.ESub:
			add(e.A[1], lang.TInt, "index")
			add(e.A[2], lang.TInt, "index")
		case lang.ESliceLit:
			for _, a := range e.A {
				add(a, e.T.Elem(), "slice element")
			}
		}
	}
	var walk func(ss []*lang.Stmt)
	walk = func(ss []*lang.Stmt) {
		for _, s := range ss {
			if s == nil {
				continue
			}
			es := append([]*lang.Expr{}, s.E...)
			es = append(es, s.Tag, s.Cond)
			switch s.Op {
			case lang.SVarDef:
				if len(s.E) == len(s.Vars) && s.T.K != lang.KVoid {
					for _, e := range s.E {
						add(e, s.T, "defined value")
					}
				}
			case lang.SAssign:
				if len(s.E) == len(s.Vars) {
					for i, e := range s.E {
						add(e, s.Vars[i].T, "assigned value")
					}
				}
			case lang.SCompound:
				add(s.E[0], s.Vars[0].T, "compound operand")
			case lang.SSliceAssign:
				add(s.E[0], lang.TInt, "assigned index")
				add(s.E[1], s.Vars[0].T.Elem(), "assigned element")
			case lang.SReturn:
				if len(s.E) == len(rets) {
					for i, e := range s.E {
						add(e, rets[i], "returned value")
					}
				}
			case lang.SFor:
				add(s.Cond, lang.TBool, "condition")
			case lang.SFunc:
				rets = s.F.Rets
				walk(s.F.Body)
				rets = nil
			}
			for _, b := range s.Branches {
				if b.Cond != nil {
					want := lang.TBool
					if s.Op == lang.SSwitch && s.Tag != nil {
						want = s.Tag.T
					}
					add(b.Cond, want, "condition or case")
					es = append(es, b.Cond)
				}
				walk(b.Body)
			}
			walk([]*lang.Stmt{s.Init, s.Post})
			walk(s.Body)
			for _, e := range es {
				lang.WalkExpr(e, expr)
			}
		}
	}
	walk(p.Main.Items)
	// A node the generator uses in two places would change in both.
	uses := map[*lang.Expr]int{}
	lang.WalkStmts(p.Main.Items, nil, func(e *lang.Expr) { uses[e]++ })
	k := 0
	for _, s := range slots {
		if uses[s.e] == 1 {
			slots[k] = s
			k++
		}
	}
	if slots = slots[:k]; k == 0 {
		return TypeCase{}, false
	}
	s := gen.Pick(t, slots, "slot")
	repl := map[string]*lang.Expr{
		"int": {Op: lang.ELit, T: lang.TInt, I: 1}, "string": {Op: lang.ELit, T: lang.TStr, S: "x"}, "bool": {Op: lang.ELit, T: lang.TBool, I: 1},
		"[]int": {Op: lang.ESliceLit, T: lang.SliceOf(lang.KInt)}, "[]string": {Op: lang.ESliceLit, T: lang.SliceOf(lang.KStr)}, "[]bool": {Op: lang.ESliceLit, T: lang.SliceOf(lang.KBool)},
	}
	var c []string
	for _, k := range []string{"int", "string", "bool", "[]int", "[]string", "[]bool"} {
		if k != s.want {
			c = append(c, k)
		}
	}
	ty := gen.Pick(t, c, "type")
	*s.e = *repl[ty]
	return TypeCase{h.Text(p.Main.Source()), false, s.why + ": " + ty + " instead of " + s.want}, true
}

// ------------------------------------------------- long lists

// longList is a list of 2 to 14 entries - parameters, results, definitions,
// assignments, elements, operands, branches or cases - of which at most one
// has the wrong type (or is missing, or is there too many).
func longList(t *rapid.T) TypeCase {
	n := 2 + gen.Uniform(t, 13, "n")
	ltypes := []string{"bool", "int", "string", "[]bool", "[]int", "[]string"}
	kind := gen.Pick(t, []string{"arguments", "arguments", "results", "result use", "var list", "definition", "assignment", "elements", "operands", "strings", "logic", "branches", "cases", "bare cases", "returns", "print", "nested"}, "kind")
	fixed := map[string]string{"operands": "int", "strings": "string", "logic": "bool", "branches": "bool", "bare cases": "bool"}[kind]
	switch kind {
	case "var list", "elements", "cases", "returns", "nested":
		fixed = gen.Pick(t, ltypes[:3], "type")
		if kind == "var list" || kind == "returns" {
			fixed = gen.Pick(t, ltypes, "type")
		}
	}
	tys := make([]string, n)
	for i := range tys {
		if tys[i] = fixed; fixed == "" {
			tys[i] = gen.Pick(t, ltypes, "type")
		}
	}
	leaf := func(ty string) string {
		var c []string
		for _, f := range tforms {
			if f.t == ty {
				if f.comp {
					c = append(c, "("+f.text+")")
				} else {
					c = append(c, f.text)
				}
			}
		}
		return gen.Pick(t, c, "leaf")
	}
	bad, why := -1, "well-typed"
	if gen.Uniform(t, 4, "fault") > 0 {
		bad = gen.Uniform(t, n, "which")
	}
	arity := 0
	switch kind {
	case "arguments", "results", "var list", "definition", "assignment", "result use":
		if bad >= 0 && gen.Uniform(t, 4, "arity") == 0 {
			arity, why = 1-2*gen.Uniform(t, 2, "more"), "arity"
			bad = -1
		}
	}
	other := func(ty string) string {
		var c []string
		for _, o := range ltypes {
			if o != ty {
				c = append(c, o)
			}
		}
		return gen.Pick(t, c, "wrong")
	}
	vals := make([]string, n)
	for i, ty := range tys {
		if i == bad {
			if o := other(ty); gen.Uniform(t, 6, "void") == 0 || kind == "print" || kind == "definition" {
				vals[i] = leaf("void")
			} else {
				vals[i] = leaf(o)
			}
			why = fmt.Sprintf("%s: entry %d of %d is %s instead of %s", kind, i+1, n, vals[i], ty)
		} else {
			vals[i] = leaf(ty)
		}
	}
	if kind == "print" {
		for i := range vals {
			if i != bad {
				vals[i] = leaf(gen.Pick(t, ltypes[:3], "printed"))
			}
		}
	}
	// A list which is too short or too long.
	change := func(xs []string, more string) []string {
		switch arity {
		case 1:
			return append(append([]string{}, xs...), more)
		case -1:
			return xs[:len(xs)-1]
		}
		return xs
	}
	names := func(prefix string) (r []string) {
		for i := range tys {
			r = append(r, fmt.Sprintf("%s%d", prefix, i))
		}
		return
	}
	params, defs := "", ""
	for i, ty := range tys {
		params += fmt.Sprintf(", p%d %s", i, ty)
		defs += fmt.Sprintf("var z%d %s\n", i, ty)
	}
	params = strings.TrimPrefix(params, ", ")
	var lits []string
	for _, ty := range tys {
		lits = append(lits, litOf[ty])
	}
	last := leaf(tys[n-1])
	pre, stmt, sig := "", "", ""
	args := strings.Join(change(vals, last), ", ")
	sep := func(op string) string { return strings.Join(vals, " "+op+" ") }
	switch kind {
	case "arguments":
		pre = "func longf(" + params + ") int {\nreturn 1\n}\n"
		stmt = gen.Pick(t, []string{"longf(%s)", "zz := longf(%s)", "print(longf(%s))", "vi = fid(longf(%s)) + 1", "if longf(%s) == 1 {\nprint(1)\n}", "return longf(%s)", "si[longf(%s)] = 1"}, "use")
		if strings.HasPrefix(stmt, "return") {
			sig = "int"
		}
		stmt = fmt.Sprintf(stmt, args)
	case "results":
		stmt, sig = "return "+args, "("+strings.Join(tys, ", ")+")"
	case "result use":
		rets := append([]string{}, tys...)
		if bad >= 0 {
			rets[bad] = other(tys[bad])
			why = fmt.Sprintf("result %d of %d is %s, the variable %s", bad+1, n, rets[bad], tys[bad])
		}
		rets = change(rets, "int")
		var rl []string
		for _, ty := range rets {
			rl = append(rl, litOf[ty])
		}
		list := strings.Join(rets, ", ")
		if len(rets) > 1 {
			list = "(" + list + ")"
		}
		pre = "func longf() " + list + " {\nreturn " + strings.Join(rl, ", ") + "\n}\n"
		switch gen.Uniform(t, 2, "use") {
		case 0:
			stmt = defs + strings.Join(names("z"), ", ") + " = longf()"
		default:
			stmt = "var " + strings.Join(names("z"), ", ") + " = longf()"
			if rapid.Bool().Draw(t, "short") {
				stmt = strings.Join(names("z"), ", ") + " := longf()"
			}
			for i, ty := range tys {
				stmt += fmt.Sprintf("\nvar y%d %s = z%d", i, ty, i)
			}
		}
	case "var list":
		stmt = "var " + strings.Join(names("z"), ", ") + " " + fixed + " = " + args
	case "definition":
		if stmt = "var " + strings.Join(names("z"), ", ") + " = " + args; rapid.Bool().Draw(t, "short") {
			stmt = strings.Join(names("z"), ", ") + " := " + args
		}
		for i, ty := range tys {
			stmt += fmt.Sprintf("\nvar y%d %s = z%d", i, ty, i)
		}
	case "assignment":
		stmt = defs + strings.Join(names("z"), ", ") + " = " + args
	case "elements":
		stmt = "zz := []" + fixed + "{" + args + "}"
	case "operands":
		ops := []string{"+", "-", "*", "/", "%"}
		stmt = "zz := " + vals[0]
		for _, v := range vals[1:] {
			stmt += " " + gen.Pick(t, ops, "op") + " " + v
		}
	case "strings":
		stmt = "zz := " + sep("+")
	case "logic":
		stmt = "zz := " + vals[0]
		for _, v := range vals[1:] {
			stmt += " " + gen.Pick(t, []string{"&&", "||"}, "op") + " " + v
		}
	case "branches":
		stmt = "if " + vals[0] + " {\nprint(0)\n}"
		for i, v := range vals[1:] {
			stmt += fmt.Sprintf(" else if %s {\nprint(%d)\n}", v, i+1)
		}
	case "cases", "bare cases":
		if stmt = "switch {\n"; kind == "cases" {
			stmt = "switch " + leaf(fixed) + " {\n"
		}
		for i, v := range vals {
			stmt += fmt.Sprintf("case %s:\nprint(%d)\n", v, i)
		}
		stmt += "}"
	case "returns":
		sig = fixed
		for i, v := range vals {
			stmt += fmt.Sprintf("if vi == %d {\nreturn %s\n}\n", i, v)
		}
	case "print":
		stmt = "print(" + args + ")"
	case "nested":
		pre = "func longf(p " + fixed + ", q int) " + fixed + " {\nreturn p\n}\n"
		stmt = leaf(fixed)
		if bad >= 0 {
			stmt = vals[bad]
		}
		for i := 0; i < n; i++ {
			stmt = "longf(" + stmt + ", " + fmt.Sprint(i) + ")"
		}
		stmt = "zz := " + stmt
	}
	if arity != 0 {
		why = fmt.Sprintf("%s: %+d of %d", kind, arity, n)
	}
	h.Class("long list: " + kind)
	return TypeCase{h.Text(pre + genCtx(t).embed(stmt, sig)), bad < 0 && arity == 0, why + ": " + stmt}
}

func TestC06(t *testing.T) {
	// The table, every entry in a few embeddings; each shard takes its part.
	reps := 1
	if h.Thorough() {
		reps = 12
	}
	seed := h.Seed()
	for i := h.Shard(); i < tableSize(); i += h.Shards() {
		for r := 0; r < reps; r++ {
			if h.Over() {
				break
			}
			x := uint64(i*reps+r)*0x9E3779B97F4A7C15 + uint64(seed)*0xD1B54A32D192ED03
			x ^= x >> 29
			x *= 0xBF58476D1CE4E5B9
			x ^= x >> 32
			c := tctx{Func: x&1 == 0, Locals: x&2 == 0}
			for n, y := int(x>>2&3), x>>8; n > 0; n, y = n-1, y>>8 {
				c.Wraps = append(c.Wraps, int(y&255)%len(twraps))
			}
			d, ok := tableCase(i, c)
			if !ok {
				continue
			}
			h.Class(map[bool]string{true: "table: accept", false: "table: reject"}[d.Accept])
			h.Count(string(d.Src), true, func() any { return d })
			typeKind.Run(t, d)
		}
	}
	h.Check(t, func(t *rapid.T) {
		var d TypeCase
		switch gen.Uniform(t, 5, "mode") {
		case 4:
			d = longList(t)
		case 0:
			var ok bool
			if d, ok = tableCase(gen.Uniform(t, tableSize(), "entry"), genCtx(t)); !ok {
				h.Discard()
				return
			}
			h.Class("random table entry")
		case 1, 2:
			depth := 3
			if h.Thorough() {
				depth = 5
			}
			d = nestedCase(t, depth)
			h.Class("nested expression")
		default:
			var ok bool
			if d, ok = corrupted(t); !ok {
				h.Discard()
				return
			}
			h.Class("corrupted program: " + strings.SplitN(d.Why, ":", 2)[0])
		}
		h.Class(map[bool]string{true: "accept", false: "reject"}[d.Accept])
		h.Count(string(d.Src), true, func() any { return d })
		typeKind.Run(t, d)
	})
}
