package gen

import (
	"fmt"

	. "tshverif/lang"

	"pgregory.net/rapid"
)

// Hazards generates programs about one thing only: operands whose value is
// changed by a call in the same expression, statement or header. Globals of
// every type are read next to calls of functions that change them (by
// assignment, by swapping two slice variables, by writing or adding an
// element), in every position an expression can take.
//
// Invariants that keep the program within the language's domain: the strings
// gs, gr, p always have three characters or more, the slices three elements or
// more, and gk is 0, 1 or 2.
type hz struct {
	*G
	gi, gj, gk, gs, gr, gb, gd *Var
	ga, gc, gt, gu             *Var
	muts                       map[Type][]*Func // one result: the parameter
	voids                      []*Func
	multi                      []*Func
	loc                        []*Var // locals of the statement list being generated
	calls                      int
	tmp                        int
	inLoop                     bool
}

var (
	sInt = SliceOf(KInt)
	sStr = SliceOf(KStr)
)

// Hazards generates such a program.
func Hazards(t *rapid.T, c Cfg) *Program {
	z := &hz{G: New(t, c), muts: map[Type][]*Func{}}
	m := &Module{File: "main.tsh"}
	z.mod, z.P.Main, z.P.Mods = m, m, []*Module{m}
	gv := func(n string, t Type, init *Expr) *Var {
		v := z.P.NewVar(Var{Name: n, T: t, Global: true})
		m.Items = append(m.Items, &Stmt{Op: SVarDef, Vars: []*Var{v}, T: t, E: []*Expr{init}})
		return v
	}
	z.gi = gv("gi", TInt, IntLit(int64(z.n(-3, 9, "gi"))))
	z.gj = gv("gj", TInt, IntLit(int64(z.n(0, 20, "gj"))))
	z.gk = gv("gk", TInt, IntLit(int64(z.n(0, 2, "gk"))))
	z.gs = gv("gs", TStr, StrLit(Pick(t, hzWords, "gs")))
	z.gr = gv("gr", TStr, StrLit(Pick(t, hzWords, "gr")))
	z.gb = gv("gb", TBool, Lit(TBool, int64(z.n(0, 1, "gb")), ""))
	z.gd = gv("gd", TBool, Lit(TBool, int64(z.n(0, 1, "gd")), ""))
	z.ga = gv("ga", sInt, &Expr{Op: ESliceLit, T: sInt, A: []*Expr{IntLit(1), IntLit(2), IntLit(3)}})
	z.gc = gv("gc", sInt, &Expr{Op: ESliceLit, T: sInt, A: []*Expr{IntLit(40), IntLit(50), IntLit(60)}})
	z.gt = gv("gt", sStr, &Expr{Op: ESliceLit, T: sStr, A: []*Expr{StrLit("t0"), StrLit("t1"), StrLit("t2")}})
	z.gu = gv("gu", sStr, &Expr{Op: ESliceLit, T: sStr, A: []*Expr{StrLit("u0"), StrLit(""), StrLit("u 2")}})

	for i, t := range []Type{TInt, TStr, TBool, sInt, sStr} {
		n := 1
		if i < 2 {
			n = z.n(1, 2, "nmut")
		}
		for k := 0; k < n; k++ {
			m.Items = append(m.Items, z.mutator([]string{"mi", "ms", "mb", "ma", "mt"}[i]+fmt.Sprint(k), t))
		}
	}
	if z.p(60, "void") {
		m.Items = append(m.Items, z.mutator("mv", TVoid))
	}
	if z.p(60, "m2") {
		m.Items = append(m.Items, z.mutator2())
	}
	inFn := z.p(35, "infunc")
	var body []*Stmt
	n := z.n(2, 5, "nhz")
	for i := 0; i < n; i++ {
		body = append(body, z.hazard(1)...)
		if z.p(70, "dump") {
			body = append(body, z.state())
		}
	}
	if inFn {
		rt := Pick(t, []Type{TInt, TStr, TBool, TVoid}, "rett")
		f := &Func{Name: "work"}
		if rt != TVoid {
			f.Rets = []Type{rt, TStr}
			f.RetMin = []int{0, 0}
			body = append(body, &Stmt{Op: SReturn, E: []*Expr{z.ex(rt, 2), z.ex(TStr, 2)}})
		}
		f.Body = body
		m.Items = append(m.Items, &Stmt{Op: SFunc, F: f})
		call := &Expr{Op: ECall, F: f, T: TVoid}
		if rt == TVoid {
			m.Items = append(m.Items, &Stmt{Op: SExpr, E: []*Expr{call}})
		} else {
			a, b := z.local(rt), z.local(TStr)
			m.Items = append(m.Items, &Stmt{Op: SShort, Vars: []*Var{a, b}, E: []*Expr{call}},
				&Stmt{Op: SPrint, E: []*Expr{Ref(a), Ref(b)}})
		}
	} else {
		m.Items = append(m.Items, body...)
	}
	m.Items = append(m.Items, z.state())
	return z.P
}

var hzWords = []string{"abc", "xyz0", "p q", "hello", "-n 1", "00 7"}

func (z *hz) local(t Type) *Var {
	z.tmp++
	return z.P.NewVar(Var{Name: fmt.Sprintf("v%d", z.tmp), T: t})
}

// mutation returns statements which change some globals.
func (z *hz) mutation(n int) (r []*Stmt) {
	asg := func(v *Var, e *Expr) *Stmt { return &Stmt{Op: SAssign, Vars: []*Var{v}, E: []*Expr{e}} }
	rot := func(v *Var) *Stmt {
		return asg(v, Bin("+", &Expr{Op: ESub, T: TStr, A: []*Expr{Ref(v), IntLit(1), nil}}, &Expr{Op: ESub, T: TStr, A: []*Expr{Ref(v), IntLit(0), IntLit(1)}}))
	}
	not := func(v *Var) *Stmt { return asg(v, &Expr{Op: ENot, T: TBool, A: []*Expr{Ref(v)}}) }
	for ; n > 0; n-- {
		switch z.n(0, 14, "mut") {
		case 0:
			r = append(r, &Stmt{Op: SCompound, Vars: []*Var{z.gi}, Sym: "+", E: []*Expr{IntLit(int64(z.n(1, 5, "d")))}})
		case 1:
			r = append(r, &Stmt{Op: SIncDec, Vars: []*Var{z.gj}, Sym: "++"})
		case 2:
			r = append(r, asg(z.gk, Bin("%", Group(Bin("+", Ref(z.gk), IntLit(1))), IntLit(3))))
		case 3:
			r = append(r, rot(z.gs))
		case 4:
			r = append(r, rot(z.gr))
		case 5:
			r = append(r, asg(Pick(z.T, []*Var{z.gs, z.gr}, "sv"), StrLit(Pick(z.T, hzWords, "w"))))
		case 6:
			r = append(r, not(z.gb))
		case 7:
			r = append(r, not(z.gd))
		case 8:
			r = append(r, &Stmt{Op: SAssign, Vars: []*Var{z.ga, z.gc}, E: []*Expr{Ref(z.gc), Ref(z.ga)}})
		case 9:
			r = append(r, &Stmt{Op: SAssign, Vars: []*Var{z.gt, z.gu}, E: []*Expr{Ref(z.gu), Ref(z.gt)}})
		case 10:
			v := Pick(z.T, []*Var{z.ga, z.gc}, "sl")
			r = append(r, &Stmt{Op: SSliceAssign, Vars: []*Var{v}, E: []*Expr{IntLit(int64(z.n(0, 2, "i"))), Bin("+", Ref(z.gi), IntLit(100))}})
		case 11:
			v := Pick(z.T, []*Var{z.gt, z.gu}, "sl")
			r = append(r, &Stmt{Op: SSliceAssign, Vars: []*Var{v}, E: []*Expr{IntLit(int64(z.n(0, 2, "i"))), Ref(z.gs)}})
		case 12:
			v := Pick(z.T, []*Var{z.ga, z.gc}, "sl")
			r = append(r, asg(v, &Expr{Op: ESliceLit, T: sInt, A: []*Expr{Ref(z.gi), Ref(z.gj), IntLit(7)}}))
		case 13:
			v := Pick(z.T, []*Var{z.gt, z.gu}, "sl")
			r = append(r, asg(v, &Expr{Op: ESliceLit, T: sStr, A: []*Expr{Ref(z.gs), StrLit("n"), Ref(z.gr)}}))
		case 14:
			r = append(r, asg(z.gs, Ref(z.gr)))
		}
	}
	return r
}

// mutator defines a function that changes globals and returns its parameter.
func (z *hz) mutator(name string, t Type) *Stmt {
	f := &Func{Name: name}
	tr := []*Expr{StrLit("<" + name)}
	var p *Var
	if t != TVoid {
		p = z.P.NewVar(Var{Name: Pick(z.T, []string{"p", "q", "v1"}, "pn"), T: t, Param: true})
		f.Params = []*Var{p}
		f.Rets, f.RetMin = []Type{t}, []int{0}
		if t.Slice {
			tr = append(tr, &Expr{Op: EIndex, T: t.Elem(), A: []*Expr{Ref(p), IntLit(0)}})
		} else {
			tr = append(tr, Ref(p))
		}
	}
	if z.p(80, "tr") {
		f.Body = append(f.Body, &Stmt{Op: SPrint, E: tr})
	}
	f.Body = append(f.Body, z.mutation(z.n(1, 4, "nm"))...)
	if t == TVoid {
		z.voids = append(z.voids, f)
	} else {
		f.Body = append(f.Body, &Stmt{Op: SReturn, E: []*Expr{Ref(p)}})
		z.muts[t] = append(z.muts[t], f)
	}
	return &Stmt{Op: SFunc, F: f}
}

func (z *hz) mutator2() *Stmt {
	p := z.P.NewVar(Var{Name: "p", T: TInt, Param: true})
	f := &Func{Name: "m2", Params: []*Var{p}, Rets: []Type{TInt, TStr, TBool}, RetMin: []int{0, 0, 0}}
	f.Body = append([]*Stmt{{Op: SPrint, E: []*Expr{StrLit("<m2"), Ref(p)}}}, z.mutation(3)...)
	f.Body = append(f.Body, &Stmt{Op: SReturn, E: []*Expr{Bin("+", Ref(p), Ref(z.gi)), Ref(z.gs), Ref(z.gb)}})
	z.multi = append(z.multi, f)
	return &Stmt{Op: SFunc, F: f}
}

func (z *hz) state() *Stmt {
	var e []*Expr
	for _, v := range []*Var{z.gi, z.gj, z.gk, z.gs, z.gr, z.gb, z.gd} {
		e = append(e, Ref(v))
	}
	for _, v := range []*Var{z.ga, z.gc, z.gt, z.gu} {
		for i := 0; i < 3; i++ {
			e = append(e, &Expr{Op: EIndex, T: v.T.Elem(), A: []*Expr{Ref(v), IntLit(int64(i))}})
		}
		if z.p(15, "len") {
			e = append(e, &Expr{Op: ELen, T: TInt, A: []*Expr{Ref(v)}})
		}
	}
	return &Stmt{Op: SPrint, E: e}
}

// mut calls a mutator of type t.
func (z *hz) mut(t Type, arg *Expr) *Expr {
	z.calls++
	return &Expr{Op: ECall, F: Pick(z.T, z.muts[t], "mf"), T: t, A: []*Expr{arg}, Min: arg.Min}
}

func (z *hz) scalarT() Type { return Pick(z.T, []Type{TInt, TInt, TStr, TStr, TBool}, "st") }

// ex generates an expression; about half of the leaves are plain globals, and
// calls are likely.
func (z *hz) ex(t Type, d int) *Expr {
	if d <= 0 {
		return z.ref(t, 0)
	}
	if z.p(35, "call") {
		return z.mut(t, z.sized(t, d-1))
	}
	if z.p(30, "plain") {
		return z.ref(t, d)
	}
	var e *Expr
	switch {
	case t.Slice:
		e = &Expr{Op: ESliceLit, T: t}
		for i := 0; i < 3; i++ {
			e.A = append(e.A, z.ex(t.Elem(), d-1))
		}
		return e
	case t == TInt:
		switch z.n(0, 3, "ie") {
		case 0:
			e = &Expr{Op: ELen, T: TInt, A: []*Expr{z.ex(Pick(z.T, []Type{TStr, TStr, sInt, sStr}, "lt"), d-1)}}
		case 1:
			e = &Expr{Op: EIndex, T: TInt, A: []*Expr{Ref(Pick(z.T, []*Var{z.ga, z.gc}, "sl")), z.idx(d)}}
		default:
			op := Pick(z.T, []string{"+", "-", "*"}, "op")
			if op == "*" {
				// Factors stay small.
				e = Bin(op, at(5, z.ex(TInt, d-1)), IntLit(int64(z.n(2, 3, "k"))))
			} else {
				e = Bin(op, at(4, z.ex(TInt, d-1)), at(5, z.ex(TInt, d-1)))
			}
		}
	case t == TBool:
		switch z.n(0, 4, "be") {
		case 0:
			e = &Expr{Op: ENot, T: TBool, A: []*Expr{at(6, z.ex(TBool, d-1))}}
		case 1:
			e = Log("&&", at(2, z.ex(TBool, d-1)), at(3, z.ex(TBool, d-1)))
		case 2:
			e = Log("||", at(1, z.ex(TBool, d-1)), at(2, z.ex(TBool, d-1)))
		case 3:
			e = Cmp(Pick(z.T, []string{"==", "!=", "<", ">=", "<=", ">"}, "op"), at(4, z.ex(TInt, d-1)), at(4, z.ex(TInt, d-1)))
		default:
			ct := Pick(z.T, []Type{TStr, TBool}, "ct")
			e = Cmp(Pick(z.T, []string{"==", "!="}, "op"), at(4, z.ex(ct, d-1)), at(4, z.ex(ct, d-1)))
		}
	default:
		switch z.n(0, 4, "se") {
		case 0:
			e = &Expr{Op: EItoa, T: TStr, A: []*Expr{z.ex(TInt, d-1)}}
		case 1:
			e = z.sub(d)
		case 2:
			e = &Expr{Op: EIndex, T: TStr, A: []*Expr{Ref(Pick(z.T, []*Var{z.gt, z.gu, z.gs, z.gr}, "sl")), z.idx(d)}}
		default:
			e = Bin("+", at(4, z.ex(TStr, d-1)), at(5, z.ex(TStr, d-1)))
		}
	}
	if z.p(10, "grp") {
		e = Group(e)
	}
	return e
}

// idx is an expression with a value of 0, 1 or 2.
func (z *hz) idx(d int) *Expr {
	e := Ref(z.gk)
	if z.p(30, "ilit") {
		e = IntLit(int64(z.n(0, 2, "i")))
	}
	if d > 0 && z.p(45, "icall") {
		e = z.mut(TInt, e)
	}
	return e
}

func (z *hz) sub(d int) *Expr {
	e := &Expr{Op: ESub, T: TStr, A: []*Expr{Ref(Pick(z.T, []*Var{z.gs, z.gr}, "ss")), nil, nil}}
	lo, hi := z.idx(d), IntLit(3)
	if z.p(40, "hcall") {
		hi = z.mut(TInt, hi)
	}
	switch z.n(0, 3, "sk") {
	case 0:
		e.A[1] = lo
	case 1:
		e.A[2] = z.idx(d)
	case 2:
		e.A[1], e.A[2] = lo, hi
	case 3:
		e.A[1], e.A[2] = IntLit(0), z.idx(d)
	}
	return e
}

// ref is an operand that the back-end may refer to by name.
func (z *hz) ref(t Type, d int) *Expr {
	var vs []*Var
	switch t {
	case TInt:
		if d > 0 && z.p(15, "lenref") {
			return &Expr{Op: ELen, T: TInt, A: []*Expr{Ref(Pick(z.T, []*Var{z.gs, z.gr, z.ga, z.gt}, "lv"))}}
		}
		vs = []*Var{z.gi, z.gi, z.gj, z.gk}
	case TStr:
		if d > 0 && z.p(20, "itoaref") {
			return &Expr{Op: EItoa, T: TStr, A: []*Expr{Ref(z.gi)}}
		}
		vs = []*Var{z.gs, z.gr}
	case TBool:
		vs = []*Var{z.gb, z.gd}
	case sInt:
		vs = []*Var{z.ga, z.gc}
	default:
		vs = []*Var{z.gt, z.gu}
	}
	for _, v := range z.loc {
		if v.T == t {
			vs = append(vs, v)
		}
	}
	e := Ref(Pick(z.T, vs, "rv"))
	if d > 0 && z.p(10, "grp") {
		e = Group(e)
	}
	return e
}

// sized is an expression that keeps the invariants when it is a mutator's
// argument (its result may be stored in a global).
func (z *hz) sized(t Type, d int) *Expr {
	if t == TInt && d > 0 && z.p(40, "iarg") {
		return z.ex(TInt, d)
	}
	if t == TBool && d > 0 && z.p(40, "barg") {
		return z.ex(TBool, d)
	}
	if d > 0 && z.p(25, "nest") {
		return z.mut(t, z.ref(t, 0))
	}
	return z.glob(t)
}

// glob is a global variable that keeps the length invariants.
func (z *hz) glob(t Type) *Expr {
	switch t {
	case TInt:
		return Ref(Pick(z.T, []*Var{z.gi, z.gj, z.gk}, "gv"))
	case TStr:
		return Ref(Pick(z.T, []*Var{z.gs, z.gr}, "gv"))
	case TBool:
		return Ref(Pick(z.T, []*Var{z.gb, z.gd}, "gv"))
	case sInt:
		return Ref(Pick(z.T, []*Var{z.ga, z.gc}, "gv"))
	}
	return Ref(Pick(z.T, []*Var{z.gt, z.gu}, "gv"))
}

// keep is a value that may be stored in a global of type t.
func (z *hz) keep(t Type, d int) *Expr {
	switch {
	case t == TBool || t == TInt:
		return z.ex(t, d)
	case t.Slice && z.p(30, "lit"):
		e := &Expr{Op: ESliceLit, T: t}
		for i := 0; i < 3; i++ {
			e.A = append(e.A, z.ex(t.Elem(), d-1))
		}
		return e
	}
	if z.p(50, "kc") {
		return z.mut(t, z.glob(t))
	}
	return z.glob(t)
}

func (z *hz) body() []*Stmt {
	n := len(z.loc)
	defer func() { z.loc = z.loc[:n] }()
	r := []*Stmt{{Op: SPrint, E: []*Expr{StrLit("body"), z.ref(z.scalarT(), 0), z.ref(z.scalarT(), 0)}}}
	if z.p(40, "bm") {
		r = append(r, z.mutation(1)...)
	}
	if z.p(15, "bh") {
		r = append(r, z.hazard(0)...)
	}
	return r
}

// scalars that may be assigned to; gk is not one of them.
func (z *hz) target(t Type) *Var {
	var vs []*Var
	switch t {
	case TInt:
		vs = []*Var{z.gi, z.gj}
	case TStr:
		vs = []*Var{z.gs, z.gr}
	case TBool:
		vs = []*Var{z.gb, z.gd}
	case sInt:
		vs = []*Var{z.ga, z.gc}
	default:
		vs = []*Var{z.gt, z.gu}
	}
	return Pick(z.T, vs, "tv")
}

// hazard generates one statement (and prints of what it defines).
func (z *hz) hazard(d int) []*Stmt {
	ed := 2
	if z.p(25, "deep") {
		ed = 3
	}
	k := z.n(0, 13, "hk")
	if d == 0 {
		k = z.n(0, 7, "hk")
	}
	switch k {
	case 0, 1: // list of values
		s := &Stmt{Op: SPrint}
		for i, n := 0, z.n(2, 4, "np"); i < n; i++ {
			s.E = append(s.E, z.ex(z.scalarT(), ed))
		}
		return []*Stmt{s}
	case 2: // definition of several
		s := &Stmt{Op: SShort}
		pr := &Stmt{Op: SPrint}
		if z.p(40, "var") {
			s.Op = SVarDef
			s.T = Pick(z.T, []Type{TInt, TStr, TBool}, "vt")
		}
		for i, n := 0, z.n(1, 3, "nv"); i < n; i++ {
			t := z.scalarT()
			if s.Op == SVarDef {
				t = s.T
			}
			v := z.local(t)
			s.Vars = append(s.Vars, v)
			s.E = append(s.E, z.ex(t, ed))
			pr.E = append(pr.E, Ref(v))
		}
		if d > 0 {
			z.loc = append(z.loc, s.Vars...)
		}
		return []*Stmt{s, pr}
	case 3: // assignment of several, also permutations
		s := &Stmt{Op: SAssign}
		seen := map[*Var]bool{}
		for i, n := 0, z.n(1, 3, "na"); i < n; i++ {
			t := Pick(z.T, []Type{TInt, TStr, TBool, sInt, sStr}, "at")
			v := z.target(t)
			if seen[v] {
				continue
			}
			seen[v] = true
			s.Vars = append(s.Vars, v)
			s.E = append(s.E, z.keep(t, ed))
		}
		return []*Stmt{s}
	case 4: // element assignment
		v := z.target(Pick(z.T, []Type{sInt, sStr}, "sat"))
		i := z.idx(ed)
		if z.p(15, "grow") && d > 0 && !z.inLoop {
			i = &Expr{Op: ELen, T: TInt, A: []*Expr{Ref(v)}}
			if z.p(50, "gc") {
				i = z.mut(TInt, i)
			}
		}
		return []*Stmt{{Op: SSliceAssign, Vars: []*Var{v}, E: []*Expr{i, z.ex(v.T.Elem(), ed)}}}
	case 5: // compound assignment
		v := Pick(z.T, []*Var{z.gi, z.gj}, "cv")
		if z.p(30, "loc") {
			l := z.local(TStr)
			return []*Stmt{{Op: SShort, Vars: []*Var{l}, E: []*Expr{z.glob(TStr)}},
				{Op: SCompound, Vars: []*Var{l}, Sym: "+", E: []*Expr{z.ex(TStr, ed)}}, {Op: SPrint, E: []*Expr{Ref(l)}}}
		}
		return []*Stmt{{Op: SCompound, Vars: []*Var{v}, Sym: Pick(z.T, []string{"+", "-"}, "cs"), E: []*Expr{z.ex(TInt, ed)}}}
	case 6: // a function's several values
		if len(z.multi) == 0 {
			if len(z.voids) == 0 {
				return []*Stmt{{Op: SExpr, E: []*Expr{z.mut(TInt, z.ex(TInt, ed))}}}
			}
			return []*Stmt{{Op: SExpr, E: []*Expr{{Op: ECall, F: z.voids[0], T: TVoid}}}}
		}
		z.calls++
		c := &Expr{Op: ECall, F: z.multi[0], T: TVoid, A: []*Expr{z.ex(TInt, ed)}}
		if z.p(50, "masg") {
			l := z.local(TStr)
			return []*Stmt{{Op: SVarDef, Vars: []*Var{l}, T: TStr}, {Op: SAssign, Vars: []*Var{z.gj, l, z.gd}, E: []*Expr{c}}, {Op: SPrint, E: []*Expr{Ref(l)}}}
		}
		a, b, e := z.local(TInt), z.local(TStr), z.local(TBool)
		return []*Stmt{{Op: SShort, Vars: []*Var{a, b, e}, E: []*Expr{c}}, {Op: SPrint, E: []*Expr{Ref(a), Ref(b), Ref(e)}}}
	case 7: // copy
		t := Pick(z.T, []Type{sInt, sStr}, "ct")
		dst := z.keep(t, ed)
		if dst.Op != EVar {
			dst = z.glob(t)
		}
		c := &Expr{Op: ECopy, T: TInt, A: []*Expr{dst, z.keep(t, ed)}}
		l := z.local(TInt)
		return []*Stmt{{Op: SShort, Vars: []*Var{l}, E: []*Expr{Bin("+", Ref(z.gi), c)}}, {Op: SPrint, E: []*Expr{Ref(l)}}}
	case 8, 9: // chain of branches
		s := &Stmt{Op: SIf}
		for i, n := 0, z.n(1, 3, "nb"); i < n; i++ {
			s.Branches = append(s.Branches, &Branch{Cond: z.ex(TBool, ed), Body: z.body()})
		}
		if z.p(50, "else") {
			s.Branches = append(s.Branches, &Branch{Body: z.body()})
		}
		return []*Stmt{s}
	case 10: // switch
		s := &Stmt{Op: SSwitch}
		t := z.scalarT()
		s.Tag = z.ex(t, ed)
		for i, n := 0, z.n(1, 3, "nc"); i < n; i++ {
			s.Branches = append(s.Branches, &Branch{Cond: z.ex(t, ed-1), Body: z.body()})
		}
		if z.p(60, "default") {
			s.Branches = append(s.Branches, &Branch{Default: true, Body: z.body()})
		}
		return []*Stmt{s}
	case 11: // loop with a condition
		i := z.local(TInt)
		var conds *Expr = Cmp("<", Ref(i), z.mut(TInt, IntLit(int64(z.n(0, 3, "trips")))))
		if z.p(50, "rev") {
			conds = Cmp(">", z.mut(TInt, IntLit(int64(z.n(0, 3, "trips")))), Ref(i))
		}
		if z.p(60, "and") {
			conds = Log("&&", conds, at(3, z.ex(TBool, ed-1)))
		}
		old := z.inLoop
		z.inLoop = true
		b := z.body()
		z.inLoop = old
		s := &Stmt{Op: SFor, Parts: true, Init: &Stmt{Op: SShort, Vars: []*Var{i}, E: []*Expr{IntLit(0)}}, Cond: conds,
			Post: &Stmt{Op: SIncDec, Vars: []*Var{i}, Sym: "++"}, Body: b}
		return []*Stmt{s}
	case 12: // range
		t := Pick(z.T, []Type{TStr, sInt, sStr}, "rt")
		i := z.local(TInt)
		s := &Stmt{Op: SForRange, Vars: []*Var{i}}
		et := TStr
		if t.Slice {
			et = t.Elem()
		}
		v := z.local(et)
		s.Vars = append(s.Vars, v)
		s.E = []*Expr{z.ex(t, ed-1)}
		old := z.inLoop
		z.inLoop = true
		s.Body = append([]*Stmt{{Op: SPrint, E: []*Expr{Ref(i), Ref(v)}}}, z.body()...)
		if z.p(50, "rm") {
			s.Body = append(s.Body, &Stmt{Op: SPrint, E: []*Expr{Ref(v), z.ex(et, 2)}})
		}
		z.inLoop = old
		return []*Stmt{s}
	default: // arguments of a function of several parameters
		f := &Func{Name: fmt.Sprintf("args%d", z.tmp)}
		z.tmp++
		call := &Expr{Op: ECall, F: f, T: TVoid}
		pr := &Stmt{Op: SPrint, E: []*Expr{StrLit("args")}}
		for i, n := 0, z.n(2, 4, "narg"); i < n; i++ {
			t := Pick(z.T, []Type{TInt, TStr, TBool, sInt, sStr}, "pt")
			p := z.P.NewVar(Var{Name: fmt.Sprintf("a%d", i), T: t, Param: true})
			f.Params = append(f.Params, p)
			if t.Slice {
				call.A = append(call.A, z.keep(t, ed))
				pr.E = append(pr.E, &Expr{Op: EIndex, T: t.Elem(), A: []*Expr{Ref(p), IntLit(1)}})
			} else {
				call.A = append(call.A, z.ex(t, ed))
				pr.E = append(pr.E, Ref(p))
			}
		}
		f.Body = []*Stmt{pr}
		// Functions stand at top level, before the statement.
		z.P.Main.Items = append(z.P.Main.Items, &Stmt{Op: SFunc, F: f})
		return []*Stmt{{Op: SExpr, E: []*Expr{call}}}
	}
}
