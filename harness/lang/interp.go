package lang

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Slice is a growable array with reference semantics.
type Slice struct {
	E      []Val
	Elem   Kind
	ranged int
}

type Val struct {
	I int64
	S string
	L *Slice
}

// Undefined is raised when a program leaves the domain of the properties
// (index out of range, division by zero, out of fuel, ...).
type Undefined struct{ Why string }

type exitSignal struct{ code int }

type ctl uint8

const (
	cNext ctl = iota
	cBreak
	cContinue
	cReturn
)

type Result struct {
	Out    string
	Status int
	Files  map[string]string
	Steps  int
	Marks  map[string]int // dynamic coverage
	Undef  string
}

type Interp struct {
	Bits   int
	Fuel   int
	MaxStr int
	MaxLen int
	MaxOut int
	Files  map[string]string // nil: file builtins are undefined
	Stdin  []string
	// Apps evaluates a command chain; nil makes command calls undefined.
	Apps func(chain []AppInv, capture bool) (out string, code int64)

	env   []Val
	out   strings.Builder
	ret   []Val
	steps int
	marks map[string]int
	done  map[*Module]bool
}

type AppInv struct {
	Prog string
	Args []string
}

func (in *Interp) undef(f string, a ...any) { panic(Undefined{fmt.Sprintf(f, a...)}) }
func (in *Interp) mark(s string)            { in.marks[s]++ }

func (in *Interp) wrap(v int64) int64 {
	if in.Bits == 32 {
		return int64(int32(v))
	}
	return v
}

// Run executes the whole program.
func (in *Interp) Run(p *Program) (res Result) {
	in.env = make([]Val, p.NumVars())
	in.marks = map[string]int{}
	in.done = map[*Module]bool{}
	if in.Bits == 0 {
		in.Bits = 64
	}
	if p.Big {
		if in.Bits == 32 {
			in.Fuel, in.MaxLen = 6000, 400
		} else {
			in.Fuel, in.MaxLen, in.MaxStr, in.MaxOut = 16000, 3000, 9000, 200000
		}
	}
	if in.MaxOut == 0 {
		in.MaxOut = 20000
	}
	if in.Fuel == 0 {
		in.Fuel = 4000
	}
	if in.MaxStr == 0 {
		in.MaxStr = 600
	}
	if in.MaxLen == 0 {
		in.MaxLen = 64
	}
	defer func() {
		res.Out = in.out.String()
		res.Files = in.Files
		res.Steps = in.steps
		res.Marks = in.marks
		if r := recover(); r != nil {
			switch x := r.(type) {
			case Undefined:
				res.Undef = x.Why
			case exitSignal:
				res.Status = x.code
			default:
				panic(r)
			}
		}
	}()
	in.module(p.Main)
	return
}

func (in *Interp) module(m *Module) {
	if in.done[m] {
		return
	}
	in.done[m] = true
	for _, im := range m.Imports {
		if im.Mod != nil {
			in.module(im.Mod)
		}
	}
	in.stmts(m.Items)
}

func (in *Interp) stmts(ss []*Stmt) ctl {
	for _, s := range ss {
		if c := in.stmt(s); c != cNext {
			return c
		}
	}
	return cNext
}

func (in *Interp) tick() {
	in.steps++
	if in.steps > in.Fuel {
		in.undef("fuel")
	}
}

func (in *Interp) line(s string) {
	in.out.WriteString(s)
	in.out.WriteByte('\n')
	if in.out.Len() > in.MaxOut {
		in.undef("output")
	}
}

func (in *Interp) zero(t Type) Val {
	if t.Slice {
		return Val{L: &Slice{Elem: t.K}}
	}
	return Val{}
}

func (in *Interp) values(es []*Expr, n int) []Val {
	if len(es) == 1 && n > 1 {
		return in.multi(es[0])
	}
	vs := make([]Val, len(es))
	for i, e := range es {
		vs[i] = in.expr(e)
	}
	return vs
}

func (in *Interp) multi(e *Expr) []Val {
	if e.Op == EApp {
		out, code := in.app(e, true)
		return []Val{{S: out}, {}, {I: code}}
	}
	return in.call(e)
}

func (in *Interp) str(v Val, t Type) string {
	if t.Slice {
		in.undef("print of a slice")
	}
	switch t.K {
	case KBool, KInt:
		return strconv.FormatInt(v.I, 10)
	}
	return v.S
}

func (in *Interp) stmt(s *Stmt) ctl {
	in.tick()
	switch s.Op {
	case SVarDef:
		if len(s.E) == 0 {
			for _, v := range s.Vars {
				in.env[v.ID] = in.zero(v.T)
			}
			return cNext
		}
		fallthrough
	case SShort, SAssign:
		vs := in.values(s.E, len(s.Vars))
		for i, v := range s.Vars {
			in.env[v.ID] = vs[i]
		}
	case SCompound:
		l := in.env[s.Vars[0].ID]
		r := in.expr(s.E[0])
		in.env[s.Vars[0].ID] = in.bin(l, s.Sym, r, s.Vars[0].T)
	case SIncDec:
		d := int64(1)
		if s.Sym == "--" {
			d = -1
		}
		v := s.Vars[0]
		in.env[v.ID] = in.bin(in.env[v.ID], "+", Val{I: d}, TInt)
	case SSliceAssign:
		l := in.env[s.Vars[0].ID].L
		i := in.expr(s.E[0]).I
		v := in.expr(s.E[1])
		in.store(l, i, v)
	case SIf:
		conds := make([]bool, len(s.Branches))
		for i, b := range s.Branches {
			conds[i] = b.Cond == nil || in.expr(b.Cond).I != 0
		}
		for i, b := range s.Branches {
			if conds[i] {
				in.mark(fmt.Sprintf("if-branch-%d", min(i, 2)))
				return in.stmts(b.Body)
			}
		}
	case SSwitch:
		tag := Val{I: 1}
		tt := TBool
		if s.Tag != nil {
			tag = in.expr(s.Tag)
			tt = s.Tag.T
		}
		hit := make([]bool, len(s.Branches))
		def := -1
		for i, b := range s.Branches {
			if b.Default {
				def = i
				continue
			}
			hit[i] = equal(tag, in.expr(b.Cond), tt)
		}
		for i, b := range s.Branches {
			if hit[i] {
				in.mark("switch-case")
				return in.switchBody(b)
			}
		}
		if def >= 0 {
			in.mark("switch-default")
			return in.switchBody(s.Branches[def])
		}
	case SFor:
		if s.Init != nil {
			in.stmt(s.Init)
		}
		for first := true; ; first = false {
			in.tick()
			if !first && s.Post != nil {
				in.stmt(s.Post)
			}
			if s.Cond != nil && in.expr(s.Cond).I == 0 {
				break
			}
			in.mark("loop-iter")
			c := in.stmts(s.Body)
			if c == cBreak {
				in.mark("break")
				break
			}
			if c == cContinue {
				in.mark("continue")
			}
			if c == cReturn {
				return c
			}
		}
	case SForRange:
		v := in.expr(s.E[0])
		n := len(v.S)
		sl := s.E[0].T.Slice
		if sl {
			n = len(v.L.E)
			v.L.ranged++
			defer func() { v.L.ranged-- }()
		}
		for i := 0; i < n; i++ {
			in.tick()
			in.env[s.Vars[0].ID] = Val{I: int64(i)}
			if len(s.Vars) > 1 {
				if sl {
					in.env[s.Vars[1].ID] = v.L.E[i]
				} else {
					in.env[s.Vars[1].ID] = Val{S: v.S[i : i+1]}
				}
			}
			in.mark("range-iter")
			c := in.stmts(s.Body)
			if c == cBreak {
				in.mark("break")
				break
			}
			if c == cContinue {
				in.mark("continue")
			}
			if c == cReturn {
				return c
			}
		}
	case SBreak:
		return cBreak
	case SContinue:
		return cContinue
	case SReturn:
		in.ret = in.values(s.E, 0)
		return cReturn
	case SExpr:
		e := s.E[0]
		if e.Op == ECall {
			in.call(e)
		} else if e.Op == EApp {
			in.app(e, false)
		} else {
			in.expr(e)
		}
	case SPrint:
		parts := make([]string, len(s.E))
		for i, e := range s.E {
			parts[i] = in.str(in.expr(e), e.T)
		}
		in.mark("print")
		in.line(strings.Join(parts, " "))
	case SPanic:
		v := in.expr(s.E[0])
		in.line("panic: " + in.str(v, s.E[0].T))
		in.mark("panic")
		panic(exitSignal{1})
	case SWrite:
		if in.Files == nil {
			in.undef("write")
		}
		p := in.expr(s.E[0]).S
		d := in.expr(s.E[1]).S
		app := false
		if len(s.E) > 2 {
			app = in.expr(s.E[2]).I != 0
		}
		if app {
			in.Files[p] = in.Files[p] + d + "\n"
		} else {
			in.Files[p] = d + "\n"
		}
		in.mark("write")
	case SFunc, SBlank, SComment:
	default:
		in.undef("statement %d", s.Op)
	}
	return cNext
}

// switchBody runs a case body; break leaves the switch.
func (in *Interp) switchBody(b *Branch) ctl {
	c := in.stmts(b.Body)
	if c == cBreak {
		in.mark("switch-break")
		return cNext
	}
	return c
}

func (in *Interp) store(l *Slice, i int64, v Val) {
	if i < 0 {
		in.undef("negative slice index")
	}
	if i >= int64(in.MaxLen) {
		in.undef("slice too long")
	}
	if i >= int64(len(l.E)) {
		if l.ranged > 0 {
			in.undef("slice grown while ranged over")
		}
		if i > int64(len(l.E)) {
			in.mark("gap")
		}
		in.mark("grow")
	}
	for int64(len(l.E)) <= i {
		l.E = append(l.E, Val{})
	}
	l.E[i] = v
}

func equal(a, b Val, t Type) bool {
	switch t.Norm().K {
	case KBool, KInt:
		return a.I == b.I
	}
	return a.S == b.S
}

func b2i(b bool) Val {
	if b {
		return Val{I: 1}
	}
	return Val{}
}

func (in *Interp) bin(l Val, op string, r Val, t Type) Val {
	if t.Norm().K == KStr {
		if len(l.S)+len(r.S) > in.MaxStr {
			in.undef("string too long")
		}
		return Val{S: l.S + r.S}
	}
	if in.Bits == 32 && (l.I == -1<<31 || r.I == -1<<31) {
		in.undef("INT_MIN operand") // not a number cmd.exe accepts in SET /A
	}
	var v int64
	switch op {
	case "+":
		v = l.I + r.I
	case "-":
		v = l.I - r.I
	case "*":
		v = l.I * r.I
	case "/", "%":
		if r.I == 0 {
			in.undef("division by zero")
		}
		if r.I == -1 && in.Bits == 32 && l.I == -1<<31 {
			in.undef("overflowing division")
		}
		if op == "/" {
			v = l.I / r.I
		} else {
			v = l.I % r.I
		}
	default:
		panic("bin " + op)
	}
	return Val{I: in.wrap(v)}
}

func (in *Interp) expr(e *Expr) Val {
	in.tick()
	switch e.Op {
	case ELit:
		return Val{I: e.I, S: e.S}
	case ENil:
		return Val{}
	case EVar:
		return in.env[e.V.ID]
	case ENot:
		return b2i(in.expr(e.A[0]).I == 0)
	case EGroup:
		return in.expr(e.A[0])
	case EBin:
		l := in.expr(e.A[0])
		return in.bin(l, e.Sym, in.expr(e.A[1]), e.T)
	case ECmp:
		l := in.expr(e.A[0])
		r := in.expr(e.A[1])
		t := e.A[0].T.Norm()
		if t.Slice {
			in.undef("slice comparison")
		}
		switch e.Sym {
		case "==":
			return b2i(equal(l, r, t))
		case "!=":
			return b2i(!equal(l, r, t))
		}
		c := 0
		if t.K == KStr {
			c = strings.Compare(l.S, r.S)
		} else if l.I < r.I {
			c = -1
		} else if l.I > r.I {
			c = 1
		}
		switch e.Sym {
		case "<":
			return b2i(c < 0)
		case "<=":
			return b2i(c <= 0)
		case ">":
			return b2i(c > 0)
		case ">=":
			return b2i(c >= 0)
		}
		panic("cmp " + e.Sym)
	case ELog:
		l := in.expr(e.A[0]).I != 0
		r := in.expr(e.A[1]).I != 0
		if e.Sym == "&&" {
			return b2i(l && r)
		}
		return b2i(l || r)
	case ECall:
		vs := in.call(e)
		if len(vs) == 0 {
			in.undef("void value")
		}
		return vs[0]
	case ELen:
		v := in.expr(e.A[0])
		if e.A[0].T.Slice {
			return Val{I: int64(len(v.L.E))}
		}
		return Val{I: int64(len(v.S))}
	case EItoa:
		return Val{S: strconv.FormatInt(in.expr(e.A[0]).I, 10)}
	case EIndex:
		v := in.expr(e.A[0])
		i := in.expr(e.A[1]).I
		if e.A[0].T.Slice {
			if i < 0 || i >= int64(len(v.L.E)) {
				in.undef("slice index %d of %d", i, len(v.L.E))
			}
			return v.L.E[i]
		}
		if i < 0 || i >= int64(len(v.S)) {
			in.undef("string index %d of %d", i, len(v.S))
		}
		return Val{S: v.S[i : i+1]}
	case ESub:
		v := in.expr(e.A[0])
		lo, hi := int64(0), int64(len(v.S))
		if e.A[1] != nil {
			lo = in.expr(e.A[1]).I
		}
		if e.A[2] != nil {
			hi = in.expr(e.A[2]).I
		}
		if lo < 0 || hi < lo || hi > int64(len(v.S)) {
			in.undef("substring [%d:%d] of %d", lo, hi, len(v.S))
		}
		return Val{S: v.S[lo:hi]}
	case ESliceLit:
		l := &Slice{Elem: e.T.K}
		for _, a := range e.A {
			l.E = append(l.E, in.expr(a))
		}
		return Val{L: l}
	case ECopy:
		d := in.expr(e.A[0]).L
		s := in.expr(e.A[1]).L
		n := len(s.E)
		src := append([]Val{}, s.E...)
		for i := 0; i < n; i++ {
			in.store(d, int64(i), src[i])
		}
		in.mark("copy")
		return Val{I: int64(n)}
	case ERead:
		if in.Files == nil {
			in.undef("read")
		}
		p := in.expr(e.A[0]).S
		c, ok := in.Files[p]
		if !ok {
			in.undef("read of a missing file")
		}
		in.mark("read")
		return Val{S: strings.TrimSuffix(c, "\n")}
	case EExists:
		if in.Files == nil {
			in.undef("exists")
		}
		_, ok := in.Files[in.expr(e.A[0]).S]
		return b2i(ok)
	case EInput:
		if len(e.A) > 0 {
			in.expr(e.A[0])
		}
		if len(in.Stdin) == 0 {
			in.undef("end of input")
		}
		s := in.Stdin[0]
		in.Stdin = in.Stdin[1:]
		in.mark("input")
		return Val{S: s}
	case EApp:
		out, _ := in.app(e, true)
		return Val{S: out}
	}
	in.undef("expression %d", e.Op)
	return Val{}
}

func (in *Interp) app(e *Expr, capture bool) (string, int64) {
	if in.Apps == nil {
		in.undef("command call")
	}
	var chain []AppInv
	for c := e; c != nil; c = c.Next {
		inv := AppInv{Prog: c.S}
		if c.Prog != nil {
			inv.Prog = *c.Prog
		}
		for _, a := range c.A {
			inv.Args = append(inv.Args, in.str(in.expr(a), a.T))
		}
		chain = append(chain, inv)
	}
	out, code := in.Apps(chain, capture)
	if !capture {
		in.out.WriteString(out)
		return "", 0
	}
	return strings.TrimSuffix(out, "\n"), code
}

func (in *Interp) call(e *Expr) []Val {
	args := make([]Val, len(e.A))
	for i, a := range e.A {
		args[i] = in.expr(a)
	}
	f := e.F
	for i, p := range f.Params {
		in.env[p.ID] = args[i]
	}
	in.mark("call")
	if e.Alias != "" {
		in.mark("crosscall")
	}
	in.ret = nil
	in.stmts(f.Body)
	r := in.ret
	in.ret = nil
	if len(r) != len(f.Rets) {
		if len(f.Rets) == 0 {
			return nil
		}
		in.undef("missing return in %s", f.Name)
	}
	return r
}

// MarkList renders dynamic coverage marks.
func (r Result) MarkList() string {
	ks := []string{}
	for k := range r.Marks {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}
