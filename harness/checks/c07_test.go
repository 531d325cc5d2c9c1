package checks

import (
	"fmt"
	"path/filepath"
	"strings"
	"testing"

	"tshverif/gen"
	"tshverif/h"

	"pgregory.net/rapid"
)

// NameCase: source files, and whether the names in them resolve.
type NameCase struct {
	Files  map[string]h.Text
	Accept bool
	Why    string
}

var nameKind = h.NewKind("names", checkNames)

func checkNames(c NameCase) string {
	dir := h.WriteTree("names", c.Files)
	p := filepath.Join(dir, "main.tsh")
	for _, target := range []string{"bash", "batch"} {
		o := h.Transpile(p, target)
		src := "\n" + string(c.Files["main.tsh"])
		if o.Panic != "" {
			return "transpiler panicked for " + target + ": " + o.Panic + src
		}
		if o.Err == nil && !c.Accept {
			return "program with a scope error (" + c.Why + ") is accepted for " + target + src
		}
		if o.Err != nil && c.Accept {
			return "program whose names all resolve is rejected for " + target + ": " + o.Err.Error() + src
		}
		if o.Err != nil && o.Script != "" {
			return "an error and a script for " + target + src
		}
	}
	return ""
}

type nvar struct{ name, ty string }

type nfunc struct {
	name   string
	params []string // types
	rets   []string
}

// names builds a program statement by statement and keeps track of what is
// visible, independently of the parser.
type names struct {
	t      *rapid.T
	b      strings.Builder
	scopes [][]nvar
	funcs  []nfunc
	later  []string // function names that are defined further down
	cur    *nfunc   // function being defined
	loops  int
	sw     int
	kind   string // of the fault
	fault  int    // choice points left until the fault; <0: never
	why    string // the fault that was made
	alias  []string
	depth  int
	pool   []string
	past   []string // names that were visible once

	written bool // the fault is in the text
}

var npools = [][]string{{"a", "b", "c", "x", "y", "i"}, {"a", "A", "aa", "a1", "b", "B"}, {"n", "value", "i", "j", "k", "tmp"}}

func (n *names) u(k int, l string) int { return gen.Uniform(n.t, k, l) }

// w writes text. Names of the fault carry a mark, so that a fault which was
// chosen but not written does not count.
func (n *names) w(f string, a ...any) {
	x := fmt.Sprintf(f, a...)
	if strings.Contains(x, mark) {
		n.written = true
	}
	n.b.WriteString(bare(x))
}

const mark = "\x01"

func bare(s string) string { return strings.ReplaceAll(s, mark, "") }

// now reports whether the fault is to be made at this choice point.
func (n *names) now(kind string) bool {
	if n.kind != kind || n.fault < 0 || n.why != "" {
		return false
	}
	n.fault--
	return n.fault < 0
}

func (n *names) lookup(name string) (string, bool) {
	name = bare(name)
	for i := len(n.scopes) - 1; i >= 0; i-- {
		for _, v := range n.scopes[i] {
			if v.name == name {
				return v.ty, true
			}
		}
	}
	return "", false
}

func (n *names) visible(ty string) (r []string) {
	for _, s := range n.scopes {
		for _, v := range s {
			if v.ty == ty {
				r = append(r, v.name)
			}
		}
	}
	return
}

func (n *names) hidden() (r []string) {
	// Prefer names that exist somewhere: they were visible once.
	for _, x := range n.past {
		if _, ok := n.lookup(x); !ok {
			r = append(r, x, x, x)
		}
	}
	for _, x := range append([]string{"undefd"}, n.pool...) {
		if _, ok := n.lookup(x); !ok {
			r = append(r, x)
		}
	}
	for _, f := range n.funcs {
		r = append(r, f.name) // a function is not a variable
	}
	return
}

func (n *names) define(name, ty string) {
	name = bare(name)
	n.scopes[len(n.scopes)-1] = append(n.scopes[len(n.scopes)-1], nvar{name, ty})
	n.past = append(n.past, name)
}

// newName picks a name for a definition; "" if every name is taken.
func (n *names) newName(not ...string) string {
	if n.now("redefine") {
		var r []string
		for _, s := range n.scopes {
			for _, v := range s {
				r = append(r, v.name)
			}
		}
		for _, x := range not {
			r = append(r, bare(x))
		}
		if len(r) > 0 {
			x := gen.Pick(n.t, r, "taken")
			n.why = "redefinition of " + x
			return x + mark
		}
		n.fault = 0
	}
	var r []string
	for _, x := range n.pool {
		_, ok := n.lookup(x)
		for _, y := range not {
			ok = ok || x == bare(y)
		}
		if !ok {
			r = append(r, x)
		}
	}
	if len(r) == 0 {
		n.u(1, "none")
		return ""
	}
	return gen.Pick(n.t, r, "new")
}

// use picks a variable for a use, or a literal.
func (n *names) use(ty string, lit bool) string {
	if n.now("use") {
		x := gen.Pick(n.t, n.hidden(), "hidden")
		n.why = "use of " + x
		return x + mark
	}
	vs := n.visible(ty)
	if len(vs) > 0 && (!lit || n.u(4, "var") > 0) {
		return gen.Pick(n.t, vs, "use")
	}
	if !lit {
		return ""
	}
	return map[string]string{"int": "1", "string": "\"s\"", "bool": "true", "[]int": "[]int{1}"}[ty]
}

func (n *names) call(ret string, stmt bool) string {
	if n.now("call") {
		c := []string{"nofunc()"}
		why := []string{"call of an undefined function"}
		if n.cur != nil {
			as := make([]string, len(n.cur.params))
			for i, p := range n.cur.params {
				as[i] = n.lit(p)
			}
			c = append(c, n.cur.name+"("+strings.Join(as, ", ")+")")
			why = append(why, "call of the function from within itself")
		}
		for _, l := range n.later {
			c = append(c, l+"(1)")
			why = append(why, "call before the definition")
		}
		if vs := n.visible("int"); len(vs) > 0 {
			c = append(c, vs[0]+"()")
			why = append(why, "call of a variable")
		}
		for _, a := range n.alias {
			c = append(c, a+".hidden(1)", a+".Nothing(1)", "Public(1)", "hidden(1)", a+"x.Public(1)", a+".notThere(1)")
			why = append(why, "call of a private function", "call of a missing function", "call of an imported function without alias", "call of an imported function without alias", "call via an unknown alias", "call of a missing function")
		}
		k := n.u(len(c), "badcall")
		n.why = why[k]
		return c[k] + mark
	}
	var fs []nfunc
	for _, f := range n.funcs {
		if stmt || len(f.rets) == 1 && f.rets[0] == ret {
			fs = append(fs, f)
		}
	}
	for _, a := range n.alias {
		if stmt || ret == "int" {
			fs = append(fs, nfunc{name: a + ".Public", params: []string{"int"}, rets: []string{"int"}})
		}
	}
	if len(fs) == 0 {
		return ""
	}
	f := gen.Pick(n.t, fs, "func")
	var as []string
	for _, p := range f.params {
		as = append(as, n.expr(p, 1))
	}
	return f.name + "(" + strings.Join(as, ", ") + ")"
}

func (n *names) lit(ty string) string {
	return map[string]string{"int": "1", "string": "\"s\"", "bool": "true", "[]int": "[]int{1}"}[ty]
}

func (n *names) expr(ty string, d int) string {
	if d <= 0 {
		return n.use(ty, true)
	}
	switch n.u(4, "expr") {
	case 0:
		if c := n.call(ty, false); c != "" {
			return c
		}
	case 1:
		switch ty {
		case "int":
			switch n.u(4, "intexpr") {
			case 0:
				return n.expr("int", d-1) + " + " + n.expr("int", d-1)
			case 1:
				return "len(" + n.expr("string", d-1) + ")"
			case 2:
				if v := n.use("[]int", false); v != "" {
					return v + "[" + n.expr("int", d-1) + "]"
				}
			default:
				return "(" + n.expr("int", d-1) + " * 2)"
			}
		case "string":
			if v := n.use("string", false); v != "" && n.u(2, "sub") == 0 {
				return v + "[" + n.expr("int", d-1) + "]"
			}
			return n.expr("string", d-1) + " + itoa(" + n.expr("int", d-1) + ")"
		case "bool":
			if n.u(2, "cmp") == 0 {
				return n.expr("int", d-1) + " < " + n.expr("int", d-1)
			}
			return n.expr("bool", d-1) + " && !" + n.use("bool", true)
		default:
			return "[]int{" + n.expr("int", d-1) + ", " + n.expr("int", d-1) + "}"
		}
	}
	return n.use(ty, true)
}

var ntypes = []string{"int", "int", "int", "string", "bool", "[]int"}

func (n *names) ty() string { return gen.Pick(n.t, ntypes, "type") }

func (n *names) block(max int, def ...nvar) {
	n.w(" {\n")
	n.scopes = append(n.scopes, nil)
	for _, v := range def {
		n.define(v.name, v.ty)
	}
	n.stmts(max)
	n.scopes = n.scopes[:len(n.scopes)-1]
	n.w("}")
}

func (n *names) stmts(max int) {
	k := n.u(max+1, "stmts")
	if len(n.scopes) == 1 {
		k++
	}
	for ; k > 0; k-- {
		n.stmt()
	}
	if n.now("misplace") {
		n.misplace()
	}
}

// misplace puts a construct where it does not belong.
func (n *names) misplace() {
	var c, why []string
	add := func(s, w string) { c, why = append(c, s), append(why, w) }
	if n.loops == 0 && n.sw == 0 {
		add("break\n", "break outside a loop")
	}
	if n.loops == 0 {
		add("continue\n", "continue outside a loop")
	}
	if n.cur == nil {
		add("return\n", "return outside a function")
		add("return 1\n", "return outside a function")
	}
	if len(n.scopes) > 1 {
		add("func inner() {\nprint(1)\n}\n", "function below top level")
		add("func inner2(q9 int) int {\nreturn q9\n}\n", "function below top level")
	}
	if len(c) == 0 {
		return
	}
	k := n.u(len(c), "misplaced")
	n.w("%s", c[k]+mark)
	n.why = why[k]
	n.fault = -1
}

func (n *names) stmt() {
	defer func() {
		if n.why != "" && !n.written && n.kind != "dup" {
			n.why, n.fault = "", 0 // not written: try again
		}
	}()
	top := len(n.scopes) == 1
	deep := n.depth >= 3
	switch k := n.u(21, "stmt"); {
	case k < 4: // definition
		switch n.u(6, "def") {
		case 0:
			ty := n.ty()
			if x := n.newName(); x != "" {
				n.w("var %s %s\n", x, ty)
				n.define(x, ty)
			}
		case 1:
			ty := n.ty()
			e := n.expr(ty, 1)
			if x := n.newName(); x != "" {
				n.w("var %s %s = %s\n", x, ty, e)
				n.define(x, ty)
			}
		case 2:
			ty := n.ty()
			if x := n.newName(); x != "" {
				if n.now("own") {
					if _, vis := n.lookup(x); !vis {
						n.why = "a variable in its own definition"
						n.w("%s := %s\n", x, x+mark)
						n.define(x, ty)
						return
					}
				}
				n.w("%s := %s\n", x, n.expr(ty, 2))
				n.define(x, ty)
			}
		case 3: // var list
			ty := n.ty()
			if x := n.newName(); x != "" {
				if y := n.newName(x); y != "" {
					if n.u(2, "init") == 0 {
						n.w("var %s, %s %s\n", x, y, ty)
					} else {
						n.w("var %s, %s %s = %s, %s\n", x, y, ty, n.expr(ty, 1), n.expr(ty, 1))
					}
					n.define(x, ty)
					n.define(y, ty)
				}
			}
		case 4: // short list of new variables
			t1, t2 := n.ty(), n.ty()
			if x := n.newName(); x != "" {
				if y := n.newName(x); y != "" {
					if (strings.HasSuffix(x+y, mark) || strings.HasSuffix(x, mark)) && bare(x) != bare(y) {
						// One new name is enough: make both old or equal.
						if _, ok := n.lookup(x); ok {
							y = bare(x) + mark
						} else {
							x = bare(y) + mark
						}
					}
					n.w("%s, %s := %s, %s\n", x, y, n.expr(t1, 1), n.expr(t2, 1))
					n.define(x, t1)
					n.define(y, t2)
				}
			}
		default: // short list with an old variable
			old := n.use("int", false)
			if old == "" {
				return
			}
			if strings.HasSuffix(old, mark) {
				// Only an undefined name on the left is a definition, not an error.
				n.w("%s = %s\n", old, n.expr("int", 1))
				return
			}
			t2 := n.ty()
			y := n.newName(old)
			if y == "" {
				return
			}
			if strings.HasSuffix(y, mark) {
				n.w("%s, %s := %s, %s\n", old, y, "1", n.litOf(y, t2))
				return
			}
			a, b := n.expr("int", 1), n.expr(t2, 1)
			if n.u(2, "order") == 0 {
				n.w("%s, %s := %s, %s\n", old, y, a, b)
			} else {
				n.w("%s, %s := %s, %s\n", y, old, b, a)
			}
			n.define(y, t2)
		}
	case k < 6:
		ty := n.ty()
		if x := n.use(ty, false); x != "" {
			n.w("%s = %s\n", x, n.expr(ty, 2))
		}
	case k < 7:
		if x := n.use("int", false); x != "" {
			switch n.u(3, "intstmt") {
			case 0:
				n.w("%s++\n", x)
			case 1:
				n.w("%s += %s\n", x, n.expr("int", 1))
			default:
				if y := n.use("string", false); y != "" {
					n.w("%s, %s = %s, %s\n", x, y, n.expr("int", 1), n.expr("string", 1))
				}
			}
		}
	case k < 8:
		if x := n.use("[]int", false); x != "" {
			n.w("%s[%s] = %s\n", x, n.expr("int", 1), n.expr("int", 1))
		}
	case k < 11:
		n.w("print(%s, %s)\n", n.expr(n.ty4(), 2), n.expr(n.ty4(), 1))
	case k < 12:
		if c := n.call("", true); c != "" {
			n.w("%s\n", c)
		}
	case k < 14 && !deep:
		n.depth++
		n.w("if %s", n.expr("bool", 2))
		n.block(3)
		for n.u(3, "elif") == 0 {
			n.w(" else if %s", n.expr("bool", 1))
			n.block(3)
		}
		if n.u(2, "else") == 0 {
			n.w(" else")
			n.block(3)
		}
		n.w("\n")
		n.depth--
	case k < 17 && !deep:
		n.depth++
		sw := n.sw
		n.sw = 0
		switch n.u(4, "loop") {
		case 0:
			n.w("for %s", n.expr("bool", 2))
			n.loops++
			n.block(3)
			n.loops--
		case 1:
			n.w("for")
			n.loops++
			n.block(3)
			n.loops--
		case 2:
			init := n.expr("int", 1)
			x := n.newName()
			if x == "" {
				x = "zz"
				if _, ok := n.lookup(x); ok {
					n.w("for true {\n}\n")
					n.sw = sw
					n.depth--
					return
				}
			}
			n.scopes = append(n.scopes, nil)
			n.define(x, "int")
			n.w("for %s := %s; %s; ", x, init, n.expr("bool", 1))
			switch n.u(3, "post") {
			case 0:
				n.w("%s++", n.use("int", false))
			case 1:
				n.w("%s += %s", n.use("int", false), n.expr("int", 1))
			default:
				n.w("%s = %s", n.use("int", false), n.expr("int", 1))
			}
			n.loops++
			n.block(3)
			n.loops--
			n.scopes = n.scopes[:len(n.scopes)-1]
		default:
			ty := gen.Pick(n.t, []string{"[]int", "string"}, "rangety")
			src := n.expr(ty, 1)
			x := n.newName()
			if x == "" {
				n.w("for true {\n}\n")
				n.sw = sw
				n.depth--
				return
			}
			y := n.newName(x)
			if y == "" {
				n.w("for true {\n}\n")
				n.sw = sw
				n.depth--
				return
			}
			n.w("for %s, %s := range %s", x, y, src)
			ey := "int"
			if ty == "string" {
				ey = "string"
			}
			n.scopes = append(n.scopes, nil)
			n.loops++
			n.block(3, nvar{x, "int"}, nvar{y, ey})
			n.loops--
			n.scopes = n.scopes[:len(n.scopes)-1]
		}
		n.w("\n")
		n.sw = sw
		n.depth--
	case k < 18 && !deep:
		n.depth++
		n.sw++
		ty := gen.Pick(n.t, []string{"int", "string", "bool", ""}, "tag")
		if ty == "" {
			n.w("switch {\n")
			ty = "bool"
		} else {
			n.w("switch %s {\n", n.expr(ty, 1))
		}
		cases := n.u(3, "cases")
		if cases == 0 {
			cases = 1
		}
		for i := 0; i < cases; i++ {
			n.w("case %s:\n", n.expr(ty, 1))
			n.scopes = append(n.scopes, nil)
			n.stmts(2)
			n.scopes = n.scopes[:len(n.scopes)-1]
		}
		if n.u(2, "default") == 0 {
			n.w("default:\n")
			n.scopes = append(n.scopes, nil)
			n.stmts(2)
			n.scopes = n.scopes[:len(n.scopes)-1]
		}
		n.w("}\n")
		n.sw--
		n.depth--
	case k < 20:
		if n.loops > 0 && (n.sw == 0 || true) {
			n.w("%s\n", gen.Pick(n.t, []string{"break", "continue"}, "jump"))
		}
	default:
		if n.cur != nil && !top {
			n.ret()
		}
	}
}

func (n *names) litOf(name, ty string) string {
	if t, ok := n.lookup(name); ok {
		return n.lit(t)
	}
	return n.lit(ty)
}

func (n *names) ty4() string { return gen.Pick(n.t, []string{"int", "string", "bool"}, "printable") }

func (n *names) ret() {
	var es []string
	for _, r := range n.cur.rets {
		es = append(es, n.expr(r, 1))
	}
	n.w("%s\n", strings.TrimRight("return "+strings.Join(es, ", "), " "))
}

var fnPool = []string{"f", "g", "h", "run", "F", "calc"}

func (n *names) function(name string) {
	f := nfunc{name: name}
	if n.now("dup") && len(n.funcs) > 0 {
		f.name = gen.Pick(n.t, n.funcs, "dup").name
		n.written = true
		n.why = "second function " + f.name
	}
	n.scopes = append(n.scopes, nil)
	var ps []string
	var defs []nvar
	for k := n.u(4, "params"); k > 0; k-- {
		var prev []string
		for _, d := range defs {
			prev = append(prev, d.name)
		}
		x := n.newName(prev...)
		if x == "" {
			break
		}
		ty := n.ty()
		ps = append(ps, x+" "+ty)
		defs = append(defs, nvar{x, ty})
		f.params = append(f.params, ty)
	}
	n.scopes = n.scopes[:len(n.scopes)-1]
	for k := n.u(3, "rets"); k > 0; k-- {
		f.rets = append(f.rets, n.ty())
	}
	res := strings.Join(f.rets, ", ")
	if len(f.rets) > 1 {
		res = "(" + res + ")"
	}
	if res != "" {
		res += " "
	}
	n.w("func %s(%s) %s{\n", f.name, strings.Join(ps, ", "), res)
	n.scopes = append(n.scopes, nil)
	for _, d := range defs {
		n.define(d.name, d.ty)
	}
	n.cur = &f
	n.stmts(5)
	if len(f.rets) > 0 {
		if n.now("falloff") {
			n.fallOff(f)
		} else {
			n.ret()
		}
	}
	n.cur = nil
	n.scopes = n.scopes[:len(n.scopes)-1]
	n.w("}\n")
	n.funcs = append(n.funcs, f)
}

// fallOff ends a value-returning function so that its end can be reached: the
// last statement is a tree of branches and loops at least one path of which
// does not end with a return.
func (n *names) fallOff(f nfunc) {
	var es []string
	for _, r := range f.rets {
		es = append(es, n.lit(r))
	}
	n.w("%s", n.falling("return "+strings.Join(es, ", ")+"\n", 3)+mark)
	n.why = "the end of a value-returning function can be reached"
}

// falling is a block whose end can be reached; ret is a return statement. The
// conditions cannot be known before the script runs.
func (n *names) falling(ret string, d int) string {
	cond := func() string {
		return gen.Pick(n.t, []string{`exists("f")`, `input() == "x"`, `len(input()) > 2`}, "cond")
	}
	// branch is a block that returns or does not.
	branch := func(falls bool) string {
		if falls {
			return n.falling(ret, d-1)
		}
		switch n.u(4, "rbranch") {
		case 0:
			return "print(2)\n" + ret
		case 1:
			return "if " + cond() + " {\n" + ret + "}\n" + ret
		}
		return ret
	}
	k := n.u(7, "falling")
	if d <= 0 {
		k = n.u(3, "falling")
	}
	switch k {
	case 0:
		return "print(1)\n"
	case 1:
		return "q6 := 1\n"
	case 2:
		return "q6 := 1\nq6++\n"
	case 3, 4: // if
		m := n.u(4, "branches") + 1
		hasElse := n.u(4, "else") > 0
		bad := -1
		if hasElse {
			bad = n.u(m+1, "bad")
		}
		s := ""
		for i := 0; i < m; i++ {
			s += map[bool]string{true: "if ", false: "} else if "}[i == 0] + cond() + " {\n" + branch(i == bad)
		}
		if hasElse {
			s += "} else {\n" + branch(m == bad)
		}
		return s + "}\n"
	case 5: // switch
		m := n.u(3, "cases") + 1
		def := n.u(m+2, "def") // == m+1: none
		bad := -1
		if def <= m {
			bad = n.u(m+1, "bad")
		}
		s := "switch len(input()) {\n"
		k := 0
		for i := 0; i <= m; i++ {
			if i == def {
				s += "default:\n" + branch(k == bad)
				k++
			}
			if i < m {
				s += fmt.Sprintf("case %d:\n", i) + branch(k == bad)
				k++
			}
		}
		return s + "}\n"
	default:
		h := gen.Pick(n.t, []string{"for " + cond(), "for q7, q8 := range input()", "for q7 := 0; q7 < len(input()); q7++"}, "loop")
		if n.u(4, "brk") == 0 {
			return "for {\nif " + cond() + " {\nbreak\n}\n" + branch(false) + "}\n"
		}
		return h + " {\n" + branch(false) + "}\n"
	}
}

func nameProgram(t *rapid.T, budget int) NameCase {
	n := &names{t: t, scopes: [][]nvar{nil}, fault: -1, pool: gen.Pick(t, npools, "pool")}
	files := map[string]h.Text{}
	if gen.Uniform(t, 4, "import") == 0 {
		n.alias = []string{"m"}
		files["m.tsh"] = "mv := 3\nfunc hidden(p int) int {\nreturn p\n}\nfunc Public(p int) int {\nreturn hidden(p) + mv\n}\n"
		n.w("import m \"m.tsh\"\n")
		if gen.Uniform(t, 2, "two") == 0 {
			n.b.Reset()
			n.alias = append(n.alias, "o")
			files["o.tsh"] = "func Public(a int) int {\nb := a\nreturn b\n}\nfunc hidden(a int) int {\nreturn a\n}\n"
			n.w("import (\nm \"m.tsh\"\no \"o.tsh\"\n)\n")
		}
	}
	if gen.Uniform(t, 3, "faulty") > 0 {
		n.kind = gen.Pick(t, []string{"use", "use", "use", "redefine", "redefine", "redefine", "call", "call", "falloff", "dup", "own", "misplace", "misplace"}, "kind")
		n.fault = gen.Uniform(t, map[string]int{"use": 6, "redefine": 4, "call": 2, "falloff": 1, "dup": 2, "own": 1, "misplace": 2}[n.kind]*budget/3, "at")
	}
	nf := gen.Uniform(t, 4, "funcs")
	for i := 0; i < nf; i++ {
		n.later = append(n.later, fnPool[i])
	}
	for i := 0; i < nf; i++ {
		n.stmts(3)
		n.later = n.later[1:]
		n.function(fnPool[i])
	}
	n.stmts(budget)
	if n.kind == "misplace" && n.fault >= 0 && n.why == "" {
		n.misplace()
	}
	files["main.tsh"] = h.Text(n.b.String())
	if !n.written {
		n.why = ""
	}
	return NameCase{files, n.why == "", n.why}
}

func TestC07(t *testing.T) {
	h.Check(t, func(t *rapid.T) {
		b := 6
		if h.Thorough() {
			b = 12
		}
		c := nameProgram(t, b)
		w := "accept"
		if !c.Accept {
			w = "reject: " + strings.TrimRight(strings.SplitN(c.Why+" of ", " of ", 2)[0]+" of", " ")
			if !strings.HasPrefix(c.Why, "use of") && !strings.HasPrefix(c.Why, "redefinition of") {
				w = "reject: " + c.Why
			}
			if strings.HasPrefix(c.Why, "second function") {
				w = "reject: second function"
			}
		}
		h.Class(w)
		src := string(c.Files["main.tsh"])
		h.Count(src, strings.Contains(src, "{"), func() any { return c })
		nameKind.Run(t, c)
	})
}
