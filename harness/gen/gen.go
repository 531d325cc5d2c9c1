// Package gen generates well-typed, terminating TypeShell programs.
package gen

import (
	"fmt"
	"strings"

	. "tshverif/lang"

	"pgregory.net/rapid"
)

// Cfg selects what a generated program may contain.
type Cfg struct {
	Bits      int
	MaxFuncs  int
	MinFuncs  int
	MaxTop    int // top-level statements
	MinTop    int
	CallAll   bool // call every function at the end of the program
	MaxBlock  int
	Depth     int // statement nesting
	ExprDepth int
	Slices    bool
	Strings   bool // subscripts, len, range on strings
	Panic     bool
	Switch    bool
	Globals   bool   // functions use globals
	Trace     bool   // many traced calls in operand positions
	ManyParms bool   // occasionally more than nine parameters
	Chars     string // string literal alphabet
	Words     []string
	RawLits   bool
	VarNames  []string
	FuncNames []string
	StrOrder  bool // < <= > >= on strings
	SliceParm bool
	Copy      bool
	SmallInts bool
	Grow      bool
	NoCallIn  bool
	TypedErr  bool // use the error type as well
	Multi     bool // multi-value definitions and assignments
	BigSlices bool
	Files     []string // paths for write/read/exists
	Input     bool
	Apps      bool // unevaluable command calls (only for static checks)
	IO        bool // static checks: sprinkle input/read/write/exists/app calls
}

var defaultVars = []string{"a", "b", "c", "i", "j", "n", "s", "t", "x", "y", "tmp", "val", "count"}
var defaultFuncs = []string{"f", "g", "h", "run", "calc", "step", "next"}

type G struct {
	*rapid.T
	C     Cfg
	P     *Program
	funcs []*Func // callable so far

	scopes  [][]*Var // visible variables, innermost last
	fn      *Func    // function being generated (nil at top level)
	loops   int
	mult    int // product of the trip counts around the current point
	fresh   int
	fnNames map[string]bool
	inPure  int // >0: expression must not call functions
	ids     int
	mod     *Module
	noTop   bool
	sw      int // switch nesting since the innermost loop
}

func New(t *rapid.T, c Cfg) *G {
	if c.Bits == 0 {
		c.Bits = 64
	}
	if c.MaxTop == 0 {
		c.MaxTop = 8
	}
	if c.MaxBlock == 0 {
		c.MaxBlock = 4
	}
	if c.Depth == 0 {
		c.Depth = 3
	}
	if c.ExprDepth == 0 {
		c.ExprDepth = 3
	}
	if c.Chars == "" {
		c.Chars = "abcXYZ019 _.:-"
	}
	if c.VarNames == nil {
		c.VarNames = defaultVars
	}
	if c.FuncNames == nil {
		c.FuncNames = defaultFuncs
	}
	return &G{T: t, C: c, P: &Program{}, mult: 1, fnNames: map[string]bool{}, scopes: [][]*Var{nil}}
}

// small drawing helpers -----------------------------------------------------

func (g *G) n(lo, hi int, l string) int {
	if hi <= lo {
		return lo
	}
	return lo + Uniform(g.T, hi-lo+1, l)
}

var coin = rapid.Bool()

// Uniform draws from [0,n) without rapid's bias towards small numbers, which
// would leave the later alternatives of every choice almost unused.
func Uniform(t *rapid.T, n int, l string) int {
	if n <= 1 {
		return 0
	}
	v := 0
	for w := 1; w < 4*n && w < 1<<30; w *= 2 {
		v *= 2
		if coin.Draw(t, l) {
			v++
		}
	}
	return v % n
}

// Pick draws an element of xs uniformly.
func Pick[T any](t *rapid.T, xs []T, l string) T { return xs[Uniform(t, len(xs), l)] }

func (g *G) p(pct int, l string) bool { return g.n(0, 99, l) >= 100-pct }

func (g *G) pick(l string, weights ...int) int {
	sum := 0
	for _, w := range weights {
		sum += w
	}
	k := g.n(0, sum-1, l)
	for i, w := range weights {
		if k < w {
			return i
		}
		k -= w
	}
	return 0
}

// names ---------------------------------------------------------------------

func (g *G) visible() []*Var {
	var r []*Var
	for _, s := range g.scopes {
		r = append(r, s...)
	}
	return r
}

func (g *G) nameFree(n string, also []*Var) bool {
	for _, v := range g.visible() {
		if v.Name == n {
			return false
		}
	}
	for _, v := range also {
		if v.Name == n {
			return false
		}
	}
	return !g.fnNames[n]
}

func (g *G) newName(also ...*Var) string {
	k := g.n(0, len(g.C.VarNames)-1, "name")
	for i := range g.C.VarNames {
		n := g.C.VarNames[(k+i)%len(g.C.VarNames)]
		if g.nameFree(n, also) {
			return n
		}
	}
	for {
		g.fresh++
		n := fmt.Sprintf("v%d", g.fresh)
		if g.nameFree(n, also) {
			return n
		}
	}
}

func (g *G) newVar(t Type, also ...*Var) *Var {
	v := g.P.NewVar(Var{Name: g.newName(also...), T: t, Owner: g.fn})
	v.Global = g.fn == nil && len(g.scopes) == 1
	return v
}

func (g *G) declare(vs ...*Var) {
	k := len(g.scopes) - 1
	g.scopes[k] = append(g.scopes[k], vs...)
}

func (g *G) push() { g.scopes = append(g.scopes, nil) }
func (g *G) pop()  { g.scopes = g.scopes[:len(g.scopes)-1] }

func (g *G) vars(f func(*Var) bool) []*Var {
	var r []*Var
	for _, v := range g.visible() {
		if f(v) {
			r = append(r, v)
		}
	}
	return r
}

func (g *G) pickVar(l string, f func(*Var) bool) *Var {
	vs := g.vars(f)
	if len(vs) == 0 {
		return nil
	}
	// Prefer recent variables a little: they are the interesting aliases.
	return vs[len(vs)-1-g.n(0, len(vs)-1, l)]
}

// types ---------------------------------------------------------------------

func (g *G) scalar() Type {
	switch g.pick("type", 5, 3, 4) {
	case 0:
		return TInt
	case 1:
		return TBool
	}
	if g.C.TypedErr && g.p(15, "err") {
		return TErr
	}
	return TStr
}

func (g *G) anyType() Type {
	t := g.scalar()
	if g.C.Slices && g.p(30, "slice") {
		t.Slice = true
	}
	return t
}

// literals ------------------------------------------------------------------

func Lit(t Type, i int64, s string) *Expr { return &Expr{Op: ELit, T: t, I: i, S: s, Min: len(s)} }
func IntLit(i int64) *Expr                { return Lit(TInt, i, "") }
func StrLit(s string) *Expr               { return Lit(TStr, 0, s) }
func Ref(v *Var) *Expr                    { return &Expr{Op: EVar, T: v.T, V: v, Min: v.MinLen} }
func Bin(op string, a, b *Expr) *Expr {
	return &Expr{Op: EBin, Sym: op, T: a.T, A: []*Expr{a, b}, Min: a.Min + b.Min}
}
func Cmp(op string, a, b *Expr) *Expr {
	return &Expr{Op: ECmp, Sym: op, T: TBool, A: []*Expr{a, b}}
}
func Log(op string, a, b *Expr) *Expr {
	return &Expr{Op: ELog, Sym: op, T: TBool, A: []*Expr{a, b}}
}
func Group(a *Expr) *Expr { return &Expr{Op: EGroup, T: a.T, A: []*Expr{a}, Min: a.Min} }

func (g *G) intLit() *Expr {
	var v int64
	switch g.pick("lit", 10, 4, 2, 1) {
	case 0:
		v = int64(g.n(0, 9, "int"))
	case 1:
		v = int64(g.n(-20, 120, "int"))
	case 2:
		v = int64(g.n(-100000, 1000000, "int"))
	case 3:
		if g.C.SmallInts {
			v = int64(g.n(0, 3, "int"))
		} else if g.C.Bits == 32 {
			v = Pick(g.T, []int64{2147483647, -2147483647, 65536, 65535, -65536, 1000000007, 46341, 46340}, "int")
		} else {
			v = Pick(g.T, []int64{9223372036854775807, -9223372036854775807, -9223372036854775808, 4294967296, 2147483648, -2147483649, 1000000007, 3037000500}, "int")
		}
	}
	return IntLit(v)
}

func (g *G) strVal(minLen int) string {
	if len(g.C.Words) > 0 && g.p(30, "word") {
		w := Pick(g.T, g.C.Words, "word")
		if len(w) >= minLen {
			return w
		}
	}
	n := minLen + g.pick("len", 3, 4, 4, 3, 2, 1, 1, 1)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteByte(g.C.Chars[g.n(0, len(g.C.Chars)-1, "ch")])
	}
	return b.String()
}

func (g *G) strLit(minLen int) *Expr {
	e := StrLit(g.strVal(minLen))
	if g.C.RawLits {
		e.RawS = g.p(20, "raw")
	}
	return e
}

// expressions ---------------------------------------------------------------

func prec(e *Expr) int {
	switch e.Op {
	case ELog:
		if e.Sym == "||" {
			return 1
		}
		return 2
	case ECmp:
		return 3
	case EBin:
		if e.Sym == "+" || e.Sym == "-" {
			return 4
		}
		return 5
	}
	return 6
}

func at(min int, e *Expr) *Expr {
	if prec(e) < min {
		return Group(e)
	}
	return e
}

// Expr generates an expression of type t whose string/slice value has at
// least min elements.
func (g *G) Expr(t Type, d, min int) *Expr {
	e := g.expr0(t, d, min)
	if d > 0 && g.p(6, "grp") {
		e = Group(e)
	}
	return e
}

func (g *G) expr0(t Type, d, min int) *Expr {
	if t.Slice {
		return g.sliceExpr(t, d, min)
	}
	if d <= 0 {
		return g.leaf(t, min)
	}
	if g.inPure == 0 {
		callW := 12
		if g.C.Trace {
			callW = 45
		}
		if len(g.funcs) > 0 && g.p(callW, "call?") {
			if e := g.callFor(t, d-1, min); e != nil {
				return e
			}
		}
	}
	if g.C.IO && g.inPure == 0 && min == 0 && g.p(12, "io?") {
		if e := g.ioExpr(t, d); e != nil {
			return e
		}
	}
	switch t.K {
	case KInt:
		return g.intExpr(d)
	case KBool:
		return g.boolExpr(d)
	}
	return g.strExpr(t, d, min)
}

var ioPaths = []string{"f1.txt", "f 2.txt", "d/x", "nope", "*", "-n"}

func (g *G) path(d int) *Expr {
	if g.p(70, "litpath") {
		return StrLit(Pick(g.T, ioPaths, "path"))
	}
	return g.Expr(TStr, d-1, 0)
}

// ioExpr generates an input, read or exists call.
func (g *G) ioExpr(t Type, d int) *Expr {
	switch t.K {
	case KBool:
		return &Expr{Op: EExists, T: TBool, A: []*Expr{g.path(d)}}
	case KStr, KErr:
		if g.p(50, "read") {
			return &Expr{Op: ERead, T: TStr, A: []*Expr{g.path(d)}}
		}
		e := &Expr{Op: EInput, T: TStr}
		if g.p(60, "prompt") {
			e.A = []*Expr{g.Expr(TStr, d-1, 0)}
		}
		return e
	}
	return nil
}

// ioApps do nothing harmful whatever their arguments are.
var ioApps = []string{"pwd", "echo", "cat", "id", "wc"}

func (g *G) appExpr(d int) *Expr {
	e := &Expr{Op: EApp, T: TStr, S: Pick(g.T, ioApps, "app")}
	if g.p(30, "strname") {
		n := Pick(g.T, []string{"/bin/echo", "no/such prog", "/bin/true", "./x"}, "app")
		e.Prog = &n
	}
	for i := g.pick("nargs", 3, 3, 2, 1); i > 0; i-- {
		e.A = append(e.A, g.Expr(TStr, d-1, 0))
	}
	if g.p(30, "pipe") {
		e.Next = g.appExpr(d)
	}
	return e
}

// ioStmt generates a write or a command call.
func (g *G) ioStmt(d int) *Stmt {
	switch g.pick("io", 4, 2, 3) {
	case 0:
		s := &Stmt{Op: SWrite, E: []*Expr{g.path(d), g.Expr(TStr, d-1, 0)}}
		if g.p(50, "append") {
			s.E = append(s.E, g.Expr(TBool, d-1, 0))
		}
		return s
	case 1:
		return &Stmt{Op: SExpr, E: []*Expr{g.appExpr(d)}}
	}
	e := g.appExpr(d)
	s := &Stmt{Op: SShort, E: []*Expr{e}}
	for _, t := range []Type{TStr, TStr, TInt} {
		s.Vars = append(s.Vars, g.newVar(t, s.Vars...))
	}
	g.declare(s.Vars...)
	return s
}

func (g *G) leaf(t Type, min int) *Expr {
	if g.p(65, "var") {
		if v := g.pickVar("v", func(v *Var) bool { return v.T.Same(t) && v.MinLen >= min }); v != nil {
			return Ref(v)
		}
	}
	switch t.K {
	case KInt:
		return g.intLit()
	case KBool:
		return Lit(TBool, int64(g.n(0, 1, "b")), "")
	}
	if min == 0 && g.C.TypedErr && g.p(4, "nil") {
		return &Expr{Op: ENil, T: TStr}
	}
	return g.strLit(min)
}

func (g *G) nonZero(d int) *Expr {
	if d <= 0 || g.p(60, "nz") {
		v := int64(g.n(1, 9, "div"))
		if g.p(25, "neg") {
			v = -v
		}
		return IntLit(v)
	}
	return Group(Bin("+", Bin("*", at(5, g.Expr(TInt, d-1, 0)), IntLit(2)), IntLit(1)))
}

func (g *G) intExpr(d int) *Expr {
	w := 0
	if g.C.Strings || g.C.Slices {
		w = 4
	}
	switch g.pick("int", 3, 4, 3, 3, 3, w, w) {
	case 0:
		return g.leaf(TInt, 0)
	case 1:
		return Bin("+", at(4, g.Expr(TInt, d-1, 0)), at(5, g.Expr(TInt, d-1, 0)))
	case 2:
		return Bin("-", at(4, g.Expr(TInt, d-1, 0)), at(5, g.Expr(TInt, d-1, 0)))
	case 3:
		return Bin("*", at(5, g.Expr(TInt, d-1, 0)), at(6, g.Expr(TInt, d-1, 0)))
	case 4:
		op := Pick(g.T, []string{"/", "%"}, "op")
		return Bin(op, at(5, g.Expr(TInt, d-1, 0)), g.nonZero(d-1))
	case 5:
		return g.lenExpr(d)
	default:
		if e := g.indexSlice(TInt, d); e != nil {
			return e
		}
		return g.leaf(TInt, 0)
	}
}

func (g *G) lenExpr(d int) *Expr {
	t := TStr
	if g.C.Slices && (!g.C.Strings || g.p(60, "lens")) {
		t = SliceOf(g.scalar().K)
		if v := g.pickVar("lv", func(v *Var) bool { return v.T.Slice }); v != nil {
			return &Expr{Op: ELen, T: TInt, A: []*Expr{Ref(v)}}
		}
	}
	return &Expr{Op: ELen, T: TInt, A: []*Expr{g.Expr(t, d-1, 0)}}
}

// index generates an int expression with a value in [0,n).
func (g *G) index(n, d int) *Expr {
	if d <= 0 || g.p(65, "ilit") {
		return IntLit(int64(g.n(0, n-1, "idx")))
	}
	if n == 1 && g.p(50, "i0") {
		return IntLit(0)
	}
	k := IntLit(int64(n))
	return Bin("%", Group(Bin("+", Bin("%", at(5, g.Expr(TInt, d-1, 0)), k), k)), k)
}

func (g *G) indexSlice(elem Type, d int) *Expr {
	if !g.C.Slices {
		return nil
	}
	v := g.pickVar("sv", func(v *Var) bool { return v.T.Slice && v.T.Elem().Same(elem) && v.MinLen > 0 })
	if v == nil {
		return nil
	}
	return &Expr{Op: EIndex, T: elem, A: []*Expr{Ref(v), g.index(v.MinLen, d-1)}}
}

func (g *G) boolExpr(d int) *Expr {
	w := 0
	if g.C.Slices {
		w = 2
	}
	switch g.pick("bool", 3, 3, 5, 2, 2, 4, w) {
	case 0:
		return g.leaf(TBool, 0)
	case 1:
		e := g.Expr(TBool, d-1, 0)
		return &Expr{Op: ENot, T: TBool, A: []*Expr{at(6, e)}}
	case 2:
		op := Pick(g.T, []string{"==", "!=", "<", "<=", ">", ">="}, "cmp")
		return Cmp(op, at(3, g.Expr(TInt, d-1, 0)), at(4, g.Expr(TInt, d-1, 0)))
	case 3:
		ops := []string{"==", "!="}
		if g.C.StrOrder {
			ops = append(ops, "<", "<=", ">", ">=")
		}
		op := rapid.SampledFrom(ops).Draw(g.T, "cmp")
		a := g.Expr(TStr, d-1, 0)
		b := g.Expr(TStr, d-1, 0)
		if g.p(25, "same") && !HasCall(a) {
			b = a
		}
		return Cmp(op, at(4, a), at(4, b))
	case 4:
		op := Pick(g.T, []string{"==", "!="}, "cmp")
		return Cmp(op, at(3, g.Expr(TBool, d-1, 0)), at(4, g.Expr(TBool, d-1, 0)))
	case 5:
		if g.p(50, "and") {
			return Log("&&", at(2, g.Expr(TBool, d-1, 0)), at(3, g.Expr(TBool, d-1, 0)))
		}
		return Log("||", at(1, g.Expr(TBool, d-1, 0)), at(2, g.Expr(TBool, d-1, 0)))
	default:
		if e := g.indexSlice(TBool, d); e != nil {
			return e
		}
		return g.leaf(TBool, 0)
	}
}

func (g *G) strExpr(t Type, d, min int) *Expr {
	ws, wl, wf := 0, 0, 0
	if g.C.Strings {
		ws = 5
	}
	if g.C.Slices {
		wl = 3
	}
	if len(g.C.Files) > 0 {
		wf = 1
	}
	switch g.pick("str", 5, 5, 2, ws, wl, wf) {
	case 1:
		k := 0
		if min > 0 {
			k = g.n(0, min, "split")
		}
		return Bin("+", at(4, g.Expr(TStr, d-1, k)), at(5, g.Expr(TStr, d-1, min-k)))
	case 2:
		if min <= 1 {
			e := g.Expr(TInt, d-1, 0)
			return &Expr{Op: EItoa, T: TStr, A: []*Expr{e}, Min: 1}
		}
	case 3:
		if e := g.substr(d, min); e != nil {
			return e
		}
	case 4:
		if min == 0 {
			if e := g.indexSlice(TStr, d); e != nil {
				return e
			}
		}
	}
	return g.leaf(TStr, min)
}

func (g *G) substr(d, min int) *Expr {
	v := g.pickVar("ssv", func(v *Var) bool { return v.T.Same(TStr) && v.MinLen >= min && (v.MinLen > 0 || min == 0) })
	if v == nil {
		return nil
	}
	r := Ref(v)
	m := v.MinLen
	if m > 0 && min <= 1 && g.p(35, "s[i]") {
		return &Expr{Op: EIndex, T: TStr, A: []*Expr{r, g.index(m, d-1)}, Min: 1}
	}
	lo, hi := 0, m
	if m > 0 {
		lo = g.n(0, m-min, "lo")
		hi = g.n(lo+min, m, "hi")
	}
	e := &Expr{Op: ESub, T: TStr, A: []*Expr{r, nil, nil}}
	mk := func(k int) *Expr {
		if d > 1 && g.p(25, "dyn") {
			// k + 0*(...) keeps the value but evaluates something.
			return Bin("+", IntLit(int64(k)), Bin("*", at(5, g.Expr(TInt, d-2, 0)), IntLit(0)))
		}
		return IntLit(int64(k))
	}
	switch g.pick("sub", 3, 2, 2, 1) {
	case 0:
		e.A[1], e.A[2] = mk(lo), mk(hi)
		e.Min = hi - lo
	case 1:
		e.A[1] = mk(lo)
		e.Min = m - lo
	case 2:
		e.A[2] = mk(hi)
		e.Min = hi
	case 3:
		e.Min = m
	}
	if e.Min < min {
		e.A[1], e.A[2] = nil, nil
		e.Min = m
	}
	return e
}

func (g *G) sliceExpr(t Type, d, min int) *Expr {
	if g.p(60, "svar") {
		if v := g.pickVar("v", func(v *Var) bool { return v.T.Same(t) && v.MinLen >= min }); v != nil {
			return Ref(v)
		}
	}
	if d > 0 && g.inPure == 0 && g.p(30, "scall") {
		if e := g.callFor(t, d-1, min); e != nil {
			return e
		}
	}
	n := min + g.pick("slen", 3, 3, 2, 1)
	if g.C.BigSlices && g.p(12, "big") {
		n = min + g.n(9, 13, "slen")
	}
	e := &Expr{Op: ESliceLit, T: t, Min: n}
	for i := 0; i < n; i++ {
		e.A = append(e.A, g.Expr(t.Elem(), d-1, 0))
	}
	return e
}

// callFor calls a function whose single result has type t.
func (g *G) callFor(t Type, d, min int) *Expr {
	var fs []*Func
	for _, f := range g.funcs {
		if len(f.Rets) == 1 && f.Rets[0].Same(t) && f.RetMin[0] >= min && f.Cost*g.mult <= 400 {
			fs = append(fs, f)
		}
	}
	if len(fs) == 0 {
		return nil
	}
	return g.call(fs[len(fs)-1-g.n(0, len(fs)-1, "fn")], d)
}

func (g *G) call(f *Func, d int) *Expr {
	e := &Expr{Op: ECall, F: f, T: TVoid}
	if f.Mod != nil && f.Mod != g.mod {
		var as []string
		for _, im := range g.mod.Imports {
			if im.Mod == f.Mod {
				as = append(as, im.Alias)
			}
		}
		e.Alias = Pick(g.T, as, "alias")
	}
	if len(f.Rets) == 1 {
		e.T = f.Rets[0]
		e.Min = f.RetMin[0]
	}
	for _, p := range f.Params {
		e.A = append(e.A, g.Expr(p.T, d, p.MinLen))
	}
	if g.fn != nil {
		g.fn.Cost += f.Cost * g.mult
	}
	return e
}

// statements ----------------------------------------------------------------

func (g *G) cost() {
	if g.fn != nil {
		g.fn.Cost += g.mult
	}
}

func (g *G) block(d int) []*Stmt {
	g.push()
	defer g.pop()
	return g.stmts(g.n(0, g.C.MaxBlock, "blk"), d)
}

func (g *G) stmts(n, d int) []*Stmt {
	var r []*Stmt
	for i := 0; i < n; i++ {
		r = append(r, g.Stmt(d)...)
	}
	return r
}

func (g *G) assignable(v *Var) bool {
	if v.Locked {
		return false
	}
	return !(v.Global && g.fn != nil && !g.C.Globals)
}

// initFor generates an initial value for a fresh variable and records what
// the variable may rely on.
func (g *G) initFor(v *Var, d int) *Expr {
	if v.T.Slice || v.T.Same(TStr) {
		v.MinLen = g.pick("minlen", 3, 2, 3, 1)
	}
	return g.Expr(v.T, d, v.MinLen)
}

// Stmt generates one statement (occasionally preceded by a helper statement).
func (g *G) Stmt(d int) []*Stmt {
	g.cost()
	ed := g.C.ExprDepth
	if g.C.IO && g.p(15, "iostmt") {
		return []*Stmt{g.ioStmt(ed)}
	}
	wSlice, wCopy, wMulti, wPanic, wSwitch, wBrk, wCall, wFor := 0, 0, 0, 0, 0, 0, 0, 0
	if g.C.BigSlices && g.fn == nil && g.loops == 0 && d == g.C.Depth && !g.P.Big && g.p(1, "bigstmt") && g.p(60, "bigstmt2") {
		return g.bigStmts(ed)
	}
	if g.C.Switch && g.loops == 0 && d == g.C.Depth && g.mult == 1 && g.p(2, "jumps") {
		return []*Stmt{g.jumps()}
	}
	if g.C.Slices {
		wSlice = 10
		if g.C.Copy {
			wCopy = 4
		}
	}
	if g.C.Multi {
		wMulti = 6
	}
	if g.C.Panic {
		wPanic = 1
	}
	if g.loops > 0 {
		wBrk = 7
	}
	if len(g.funcs) > 0 {
		wCall = 8
	}
	wIf := 0
	if d > 0 {
		wIf = 9
		if g.C.Switch {
			wSwitch = 5
		}
		if g.mult <= 30 {
			wFor = 8
		}
	}
	if g.fn == nil && g.loops == 0 {
		wPanic = 0
	}
	if wPanic > 0 && d > 1 {
		wPanic = 0
	}
	switch g.pick("stmt", 14, 16, 10, 6, 5, wSlice, wCopy, wMulti, wPanic, wSwitch, wBrk, wCall, wFor, wIf, 3) {
	case 0:
		return []*Stmt{g.printStmt(ed)}
	case 1:
		return []*Stmt{g.defStmt(ed)}
	case 2:
		v := g.pickVar("asg", g.assignable)
		if v == nil {
			return []*Stmt{g.defStmt(ed)}
		}
		return []*Stmt{{Op: SAssign, Vars: []*Var{v}, E: []*Expr{g.Expr(v.T, ed, v.MinLen)}}}
	case 3:
		return []*Stmt{g.compound(ed)}
	case 4:
		v := g.pickVar("inc", func(v *Var) bool { return v.T == TInt && g.assignable(v) })
		if v == nil {
			return []*Stmt{g.printStmt(ed)}
		}
		return []*Stmt{{Op: SIncDec, Vars: []*Var{v}, Sym: Pick(g.T, []string{"++", "--"}, "id")}}
	case 5:
		return []*Stmt{g.sliceAssign(ed)}
	case 6:
		return []*Stmt{g.copyStmt(ed)}
	case 7:
		return []*Stmt{g.multiStmt(ed)}
	case 8:
		return []*Stmt{{Op: SPanic, E: []*Expr{g.Expr(TStr, 1, 0)}}}
	case 9:
		return []*Stmt{g.switchStmt(d, ed)}
	case 10:
		op := SContinue
		if g.n(0, 2, "brk") == 2 {
			op = SBreak
		}
		// Usually conditional, so that what follows is reachable.
		if d > 0 && g.p(80, "cond") {
			return []*Stmt{{Op: SIf, Branches: []*Branch{{Cond: g.Expr(TBool, ed-1, 0), Body: []*Stmt{{Op: op}}}}}}
		}
		return []*Stmt{{Op: op}}
	case 11:
		f := g.funcs[len(g.funcs)-1-g.n(0, len(g.funcs)-1, "fn")]
		if f.Cost*g.mult > 400 {
			return []*Stmt{g.printStmt(ed)}
		}
		return []*Stmt{{Op: SExpr, E: []*Expr{g.call(f, ed-1)}}}
	case 12:
		return g.forStmt(d, ed)
	case 14:
		return []*Stmt{g.unused(ed)}
	default:
		return []*Stmt{g.ifStmt(d, ed)}
	}
}

// unused evaluates an expression and drops its value.
func (g *G) unused(ed int) *Stmt {
	e := g.Expr(g.anyType(), ed, 0)
	// A leading slice element would be read as an assignment, a leading name
	// or sign as part of other statements.
	l := e
	for len(l.A) > 0 && (l.Op == EBin || l.Op == ECmp || l.Op == ELog) {
		l = l.A[0]
	}
	if (l.Op == EIndex && l.A[0].T.Slice) || (l.Op == EVar && l.T.Slice) || l.Op == ESliceLit && l != e {
		e = Group(e)
	}
	return &Stmt{Op: SExpr, E: []*Expr{e}}
}

// bigStmts fills and copies a slice or doubles a string until it is longer
// than any buffer, block or recursion limit somebody may think of.
func (g *G) bigStmts(ed int) []*Stmt {
	g.P.Big = true
	g.mult = 1000
	defer func() { g.mult = 1 }()
	idx := func(v *Var, i int) *Expr {
		return &Expr{Op: EIndex, T: v.T.Elem(), A: []*Expr{Ref(v), IntLit(int64(i))}}
	}
	length := func(v *Var) *Expr { return &Expr{Op: ELen, T: TInt, A: []*Expr{Ref(v)}} }
	n := Pick(g.T, []int{100, 127, 128, 129, 255, 256, 257, 500, 512, 999, 1000, 1001, 1024, 1025, 1300}, "bign")
	if g.C.Bits == 32 {
		n = Pick(g.T, []int{70, 100, 127, 128, 129, 200, 256, 257, 300}, "bign")
	} else if g.C.Strings && g.p(40, "bigstr") {
		v := g.newVar(TStr)
		v.MinLen = 3
		k := g.n(4, 11, "doublings")
		lit := g.strLit(3)
		g.declare(v)
		g.push()
		i := g.newVar(TInt, v)
		i.Global = false
		g.pop()
		total := len(lit.S) << k
		sub := func(a, b *Expr) *Expr {
			return &Expr{Op: ESub, T: TStr, A: []*Expr{Ref(v), a, b}}
		}
		at := g.n(0, total-1, "at")
		to := at + g.n(0, total-at, "to")
		ss := []*Stmt{{Op: SShort, Vars: []*Var{v}, E: []*Expr{lit}},
			{Op: SFor, Parts: true, Init: &Stmt{Op: SShort, Vars: []*Var{i}, E: []*Expr{IntLit(0)}}, Cond: Cmp("<", Ref(i), IntLit(int64(k))),
				Post: &Stmt{Op: SIncDec, Vars: []*Var{i}, Sym: "++"}, Body: []*Stmt{{Op: SCompound, Vars: []*Var{v}, Sym: "+", E: []*Expr{Ref(v)}}}},
			{Op: SPrint, E: []*Expr{{Op: ELen, T: TInt, A: []*Expr{Ref(v)}}, {Op: EIndex, T: TStr, A: []*Expr{Ref(v), IntLit(int64(at))}}}},
			{Op: SPrint, E: []*Expr{{Op: ELen, T: TInt, A: []*Expr{sub(IntLit(int64(at)), nil)}}, sub(IntLit(int64(at)), IntLit(int64(to)))}},
			{Op: SPrint, E: []*Expr{Cmp("==", sub(nil, IntLit(int64(total/2))), sub(IntLit(int64(total/2)), nil))}}}
		if total <= 1500 && g.p(50, "rangebig") {
			w := g.newVar(TInt, v)
			g.declare(w)
			g.push()
			j := g.newVar(TInt, v)
			j.Global = false
			g.declare(j)
			c := g.newVar(TStr, v, j)
			c.Global = false
			g.pop()
			ss = append(ss, &Stmt{Op: SShort, Vars: []*Var{w}, E: []*Expr{IntLit(0)}},
				&Stmt{Op: SForRange, Vars: []*Var{j, c}, E: []*Expr{Ref(v)}, Body: []*Stmt{{Op: SIf, Branches: []*Branch{{Cond: Cmp("==", Ref(c), &Expr{Op: EIndex, T: TStr, A: []*Expr{Ref(v), IntLit(int64(at))}}),
					Body: []*Stmt{{Op: SCompound, Vars: []*Var{w}, Sym: "+", E: []*Expr{Ref(j)}}}}}}}},
				&Stmt{Op: SPrint, E: []*Expr{Ref(w)}})
		}
		return ss
	}
	t := g.anyType()
	t.Slice = true
	if t.K == KErr {
		t.K = KStr
	}
	ev, ew := g.Expr(t, 1, 0), g.Expr(t, 1, 0)
	v := g.newVar(t)
	g.declare(v)
	w := g.newVar(t)
	g.declare(w)
	g.push()
	i := g.newVar(TInt)
	i.Global = false
	g.declare(i)
	val := func() *Expr {
		switch t.K {
		case KInt:
			return Bin("*", Ref(i), IntLit(int64(g.n(-3, 7, "f"))))
		case KBool:
			return Cmp("==", Bin("%", Ref(i), IntLit(3)), IntLit(int64(g.n(0, 2, "r"))))
		}
		return Bin("+", g.strLit(0), &Expr{Op: EItoa, T: TStr, A: []*Expr{Ref(i)}})
	}()
	g.pop()
	ss := []*Stmt{{Op: SShort, Vars: []*Var{v}, E: []*Expr{ev}}, {Op: SShort, Vars: []*Var{w}, E: []*Expr{ew}}}
	if g.p(60, "filled") {
		step := g.n(1, 2, "fill")
		ss = append(ss, &Stmt{Op: SFor, Parts: true, Init: &Stmt{Op: SShort, Vars: []*Var{i}, E: []*Expr{IntLit(0)}}, Cond: Cmp("<", Ref(i), IntLit(int64(n))),
			Post: &Stmt{Op: SCompound, Vars: []*Var{i}, Sym: "+", E: []*Expr{IntLit(int64(step))}},
			Body: []*Stmt{{Op: SSliceAssign, Vars: []*Var{v}, E: []*Expr{Ref(i), val}}}})
	} else {
		ss = append(ss, &Stmt{Op: SSliceAssign, Vars: []*Var{v}, E: []*Expr{IntLit(int64(n - 1)), g.Expr(t.Elem(), 1, 0)}})
	}
	ss = append(ss, &Stmt{Op: SPrint, E: []*Expr{length(v), idx(v, n/2)}})
	if g.C.Copy && g.p(70, "bigcopy") {
		ss = append(ss, &Stmt{Op: SPrint, E: []*Expr{{Op: ECopy, T: TInt, A: []*Expr{Ref(w), Ref(v)}}}})
	} else {
		ss = append(ss, &Stmt{Op: SAssign, Vars: []*Var{w}, E: []*Expr{Ref(v)}}, &Stmt{Op: SSliceAssign, Vars: []*Var{w}, E: []*Expr{length(v), g.Expr(t.Elem(), 1, 0)}})
	}
	ss = append(ss, &Stmt{Op: SPrint, E: []*Expr{length(w), length(v), idx(w, n/2), idx(w, n-2)}})
	return ss
}

func (g *G) printStmt(ed int) *Stmt {
	s := &Stmt{Op: SPrint}
	n := g.pick("args", 1, 10, 6, 2)
	for i := 0; i < n; i++ {
		s.E = append(s.E, g.Expr(g.scalar(), ed, 0))
	}
	return s
}

func (g *G) defStmt(ed int) *Stmt {
	n := 1
	if g.C.Multi {
		n = 1 + g.pick("ndef", 8, 2, 1)
	}
	form := g.pick("def", 6, 3, 2, 2) // :=, var T, var T =, var =
	var vs []*Var
	var es []*Expr
	t := g.anyType()
	for i := 0; i < n; i++ {
		if i > 0 && (form == 0 || form == 3) {
			t = g.anyType()
		}
		v := g.newVar(t, vs...)
		vs = append(vs, v)
	}
	s := &Stmt{Vars: vs}
	if form == 1 {
		s.Op, s.T = SVarDef, t
	} else {
		for _, v := range vs {
			es = append(es, g.initFor(v, ed))
		}
		s.E = es
		s.Op = SVarDef
		if form == 0 {
			s.Op = SShort
		} else if form == 2 {
			s.T = t
		}
	}
	g.declare(vs...)
	return s
}

func (g *G) compound(ed int) *Stmt {
	v := g.pickVar("cmpd", func(v *Var) bool { return (v.T == TInt || v.T.Same(TStr)) && g.assignable(v) })
	if v == nil {
		return g.printStmt(ed)
	}
	s := &Stmt{Op: SCompound, Vars: []*Var{v}, Sym: "+"}
	if v.T == TInt {
		s.Sym = Pick(g.T, []string{"+", "-", "*", "/", "%"}, "cop")
		if s.Sym == "/" || s.Sym == "%" {
			s.E = []*Expr{g.nonZero(ed - 1)}
			return s
		}
	}
	s.E = []*Expr{g.Expr(v.T, ed-1, 0)}
	return s
}

func (g *G) sliceAssign(ed int) *Stmt {
	v := g.pickVar("sasg", func(v *Var) bool {
		return v.T.Slice && !(v.Global && g.fn != nil && !g.C.Globals)
	})
	if v == nil {
		return g.defStmt(ed)
	}
	var idx *Expr
	switch {
	case g.C.Grow && g.p(35, "grow"):
		idx = IntLit(int64(g.n(0, v.MinLen+3, "gi")))
	case g.p(25, "append"):
		idx = &Expr{Op: ELen, T: TInt, A: []*Expr{Ref(v)}}
	case v.MinLen > 0:
		idx = g.index(v.MinLen, ed-1)
	default:
		idx = IntLit(int64(g.n(0, 2, "gi")))
	}
	return &Stmt{Op: SSliceAssign, Vars: []*Var{v}, E: []*Expr{idx, g.Expr(v.T.Elem(), ed-1, 0)}}
}

func (g *G) copyStmt(ed int) *Stmt {
	v := g.pickVar("cdst", func(v *Var) bool { return v.T.Slice })
	if v == nil {
		return g.defStmt(ed)
	}
	e := &Expr{Op: ECopy, T: TInt, A: []*Expr{Ref(v), g.Expr(v.T, ed-1, 0)}}
	if g.p(50, "usecopy") {
		return &Stmt{Op: SPrint, E: []*Expr{e}}
	}
	return &Stmt{Op: SExpr, E: []*Expr{e}}
}

func (g *G) multiStmt(ed int) *Stmt {
	switch g.pick("multi", 4, 3, 3) {
	case 0: // simultaneous assignment, usually of permuted variables
		v := g.pickVar("m", g.assignable)
		if v == nil {
			return g.defStmt(ed)
		}
		vs := []*Var{v}
		most := 3
		if g.p(12, "long") {
			most = 8
		}
		for _, w := range g.vars(g.assignable) {
			if w != v && len(vs) < most && (w.T.Same(v.T) && w.MinLen == v.MinLen || g.p(10, "mix")) {
				vs = append(vs, w)
			}
		}
		if g.p(6, "twice") { // the last value counts
			vs = append(vs, vs[g.n(0, len(vs)-1, "again")])
		}
		s := &Stmt{Op: SAssign, Vars: vs}
		for i, w := range vs {
			x := vs[(i+1)%len(vs)]
			if x.T.Same(w.T) && x.MinLen >= w.MinLen && g.p(60, "swap") {
				s.E = append(s.E, Ref(x))
			} else {
				s.E = append(s.E, g.Expr(w.T, ed-1, w.MinLen))
			}
		}
		return s
	case 1: // a, b := f()
		f := g.multiFunc()
		if f == nil {
			return g.defStmt(ed)
		}
		s := &Stmt{Op: SShort, E: []*Expr{g.call(f, ed-1)}}
		anyNew := false
		for i, t := range f.Rets {
			// := may reuse a visible variable of the same type.
			if anyNew && g.p(25, "reuse") {
				v := g.pickVar("ru", func(v *Var) bool {
					if !g.assignable(v) || !v.T.Same(t) || v.MinLen > f.RetMin[i] {
						return false
					}
					// must live in the current scope
					for _, w := range g.scopes[len(g.scopes)-1] {
						if w == v {
							for _, o := range s.Vars {
								if o == v {
									return false
								}
							}
							return true
						}
					}
					return false
				})
				if v != nil {
					s.Vars = append(s.Vars, v)
					continue
				}
			}
			v := g.newVar(t, s.Vars...)
			v.MinLen = f.RetMin[i]
			s.Vars = append(s.Vars, v)
			anyNew = true
		}
		cur := g.scopes[len(g.scopes)-1]
	next:
		for _, v := range s.Vars {
			for _, w := range cur {
				if w == v {
					continue next
				}
			}
			g.declare(v)
		}
		if g.p(25, "vardef") {
			same := true
			for _, v := range s.Vars {
				same = same && v.T.Same(s.Vars[0].T)
				for _, w := range cur {
					same = same && w != v
				}
			}
			s.Op = SVarDef
			if same && g.p(50, "typed") {
				s.T = s.Vars[0].T
			}
			for _, v := range s.Vars {
				for _, w := range cur {
					if w == v {
						s.Op, s.T = SShort, TVoid
					}
				}
			}
		}
		return s
	default: // a, b = f()
		f := g.multiFunc()
		if f == nil {
			return g.defStmt(ed)
		}
		s := &Stmt{Op: SAssign, E: []*Expr{g.call(f, ed-1)}}
		twice := g.p(20, "twice") // a variable may get several results, the last one counts
		for i, t := range f.Rets {
			v := g.pickVar("ma", func(v *Var) bool {
				if !g.assignable(v) || !v.T.Same(t) || v.MinLen > f.RetMin[i] {
					return false
				}
				for _, o := range s.Vars {
					if o == v && !twice {
						return false
					}
				}
				return true
			})
			if v == nil {
				return &Stmt{Op: SExpr, E: s.E}
			}
			s.Vars = append(s.Vars, v)
		}
		return s
	}
}

func (g *G) multiFunc() *Func {
	var fs []*Func
	for _, f := range g.funcs {
		if len(f.Rets) > 1 && f.Cost*g.mult <= 400 {
			fs = append(fs, f)
		}
	}
	if len(fs) == 0 {
		return nil
	}
	return fs[len(fs)-1-g.n(0, len(fs)-1, "mfn")]
}

// chainConds generates conditions several of which hold at the same time.
func (g *G) chainConds(n, ed int) (r []*Expr) {
	v := g.pickVar("chain", func(v *Var) bool { return v.T == TInt })
	for i := 0; i < n; i++ {
		switch g.pick("cc", 3, 5, 2) {
		case 0:
			r = append(r, Lit(TBool, int64(g.n(0, 1, "cb")), ""))
		case 1:
			if v != nil {
				r = append(r, Cmp(Pick(g.T, []string{"<", ">", "<=", ">=", "!=", "=="}, "cop"), Ref(v), IntLit(int64(g.n(-3, 9, "ci")))))
				break
			}
			fallthrough
		default:
			r = append(r, g.Expr(TBool, ed-1, 0))
		}
	}
	return
}

func (g *G) ifStmt(d, ed int) *Stmt {
	s := &Stmt{Op: SIf}
	n := 1 + g.pick("elifs", 5, 3, 2)
	if g.p(20, "chain") {
		for _, c := range g.chainConds(g.n(2, 6, "chainlen"), ed) {
			s.Branches = append(s.Branches, &Branch{Cond: c})
		}
		n = 0
	}
	for i := 0; i < n; i++ {
		s.Branches = append(s.Branches, &Branch{Cond: g.Expr(TBool, ed-1, 0)})
	}
	for _, b := range s.Branches {
		b.Body = g.block(d - 1)
	}
	if g.p(50, "else") {
		s.Branches = append(s.Branches, &Branch{Body: g.block(d - 1)})
	}
	return s
}

func (g *G) switchStmt(d, ed int) *Stmt {
	s := &Stmt{Op: SSwitch}
	t := TBool
	if g.p(75, "tag") {
		t = g.scalar()
		s.Tag = g.Expr(t, ed-1, 0)
	}
	n := g.pick("cases", 1, 2, 4, 3, 1, 1)
	var overlap []*Expr
	if t == TBool && s.Tag == nil && g.p(40, "overlap") {
		overlap = g.chainConds(n, ed)
	}
	lits := map[int64]bool{}
	for i := 0; i < n; i++ {
		c := g.Expr(t, ed-1, 0)
		if overlap != nil {
			c = overlap[i]
		}
		if s.Tag != nil && (i == n-1 || g.p(15, "hit1")) && g.p(40, "hit") && !HasCall(s.Tag) {
			c = s.Tag
		}
		if c.Op == ELit && t == TBool {
			if lits[c.I] {
				continue
			}
			lits[c.I] = true
		}
		s.Branches = append(s.Branches, &Branch{Cond: c})
	}
	if g.p(50, "default") || len(s.Branches) == 0 {
		k := g.n(0, len(s.Branches), "defpos")
		bs := append([]*Branch{}, s.Branches[:k]...)
		bs = append(bs, &Branch{Default: true})
		s.Branches = append(bs, s.Branches[k:]...)
	}
	g.sw++
	for _, b := range s.Branches {
		b.Body = g.block(d - 1)
		if g.loops > 0 && g.p(25, "swbrk") {
			brk := &Stmt{Op: SBreak}
			if g.p(60, "swcond") {
				brk = &Stmt{Op: SIf, Branches: []*Branch{{Cond: g.Expr(TBool, ed-1, 0), Body: []*Stmt{brk}}}}
			}
			k := g.n(0, len(b.Body), "swpos")
			b.Body = append(b.Body[:k:k], append([]*Stmt{brk}, b.Body[k:]...)...)
		}
	}
	g.sw--
	return s
}

func (g *G) loopBody(d, trips int) []*Stmt {
	sw := g.sw
	g.sw = 0
	g.loops++
	g.mult *= max(trips, 1)
	b := g.block(d - 1)
	g.mult /= max(trips, 1)
	g.loops--
	g.sw = sw
	return b
}

// jumps is a loop around a random tree of ifs, switches and loops with jumps
// at its leaves.
func (g *G) jumps() *Stmt {
	var vars []*Var
	label := 0
	mark := func() *Stmt {
		label++
		e := []*Expr{IntLit(int64(label))}
		for _, v := range vars {
			e = append(e, Ref(v))
		}
		return &Stmt{Op: SPrint, E: e}
	}
	cond := func() *Expr {
		v := Pick(g.T, vars, "jv")
		switch g.n(0, 4, "jc") {
		case 0:
			return Cmp("!=", Ref(v), IntLit(int64(g.n(0, 2, "jk"))))
		case 1:
			return Cmp("==", Bin("%", Group(Bin("+", Ref(v), Ref(vars[0]))), IntLit(2)), IntLit(int64(g.n(0, 1, "jk"))))
		case 2:
			return Cmp(Pick(g.T, []string{"<", ">=", ">"}, "jop"), Ref(v), IntLit(int64(g.n(0, 2, "jk"))))
		}
		return Cmp("==", Ref(v), IntLit(int64(g.n(0, 2, "jk"))))
	}
	var nest func(d, loops int) []*Stmt
	var loop func(d, loops int) *Stmt
	leaf := func() *Stmt {
		j := &Stmt{Op: SBreak}
		if g.p(60, "continue") {
			j.Op = SContinue
		}
		if g.fn != nil && len(g.fn.Rets) == 0 && g.p(8, "ret") {
			j.Op = SReturn
		}
		return j
	}
	nest = func(d, loops int) []*Stmt {
		var ss []*Stmt
		if g.p(50, "before") {
			ss = append(ss, mark())
		}
		for n := g.n(1, 2, "parts"); n > 0; n-- {
			k := g.n(0, 9, "jkind")
			switch {
			case d <= 0 || k < 2:
				ss = append(ss, &Stmt{Op: SIf, Branches: []*Branch{{Cond: cond(), Body: []*Stmt{leaf()}}}})
			case k < 4:
				s := &Stmt{Op: SIf}
				for m := g.n(1, 3, "jbr"); m > 0; m-- {
					s.Branches = append(s.Branches, &Branch{Cond: cond(), Body: nest(d-1, loops)})
				}
				if g.p(40, "jelse") {
					s.Branches = append(s.Branches, &Branch{Body: nest(d-2, loops)})
				}
				ss = append(ss, s)
			case k < 8 || loops >= 3:
				s := &Stmt{Op: SSwitch}
				if g.p(50, "jtag") {
					s.Tag = Ref(Pick(g.T, vars, "jtv"))
				}
				for m := g.n(1, 3, "jcases"); m > 0; m-- {
					c := cond()
					if s.Tag != nil {
						c = IntLit(int64(m))
						if g.p(30, "jcv") {
							c = Ref(Pick(g.T, vars, "jcvv"))
						}
					}
					s.Branches = append(s.Branches, &Branch{Cond: c, Body: nest(d-1, loops)})
				}
				if g.p(40, "jdef") {
					s.Branches = append(s.Branches, &Branch{Default: true, Body: nest(d-2, loops)})
				}
				ss = append(ss, s)
			default:
				ss = append(ss, loop(d-1, loops+1))
			}
		}
		if g.p(10, "plain") {
			return append(ss, leaf())
		}
		if g.p(70, "after") {
			ss = append(ss, mark())
		}
		return ss
	}
	loop = func(d, loops int) *Stmt {
		g.push()
		defer g.pop()
		v := g.newVar(TInt)
		v.Global, v.Locked = false, true
		g.declare(v)
		vars = append(vars, v)
		defer func() { vars = vars[:len(vars)-1] }()
		s := &Stmt{Op: SFor, Parts: true, Init: &Stmt{Op: SShort, Vars: []*Var{v}, E: []*Expr{IntLit(0)}},
			Cond: Cmp("<", Ref(v), IntLit(int64(g.n(2, 3, "jtrips")))), Post: &Stmt{Op: SIncDec, Vars: []*Var{v}, Sym: "++"}}
		s.Body = nest(d, loops)
		return s
	}
	g.mult *= 27
	s := loop(g.n(2, 5, "jdepth"), 1)
	g.mult /= 27
	return s
}

func (g *G) forStmt(d, ed int) []*Stmt {
	wr := 0
	if g.C.Strings || g.C.Slices {
		wr = 6
	}
	trips := g.n(0, 4, "trips")
	switch g.pick("for", 6, 3, 2, wr) {
	case 0: // three-part
		s := &Stmt{Op: SFor, Parts: true}
		g.push()
		defer g.pop()
		v := g.newVar(TInt)
		v.Global = false
		start := g.n(-2, 3, "start")
		stepUp := g.p(75, "up")
		step := g.n(1, 2, "step")
		lim := start + trips*step
		op := "<"
		if !stepUp {
			lim = start - trips*step
			op = ">"
		}
		if g.p(30, "eq") {
			op += "="
		}
		v.Locked = true
		var pre []*Stmt
		init := &Stmt{Op: SShort, Vars: []*Var{v}, E: []*Expr{IntLit(int64(start))}}
		if g.p(25, "varinit") {
			init = &Stmt{Op: SVarDef, Vars: []*Var{v}, E: init.E, T: TInt}
		}
		two := g.C.Multi && g.p(15, "two")
		if g.p(15, "outer") && !two {
			// counter defined outside, assigned in the header or before it
			g.pop()
			v.Global = g.fn == nil && len(g.scopes) == 1
			g.declare(v)
			pre = append(pre, &Stmt{Op: SShort, Vars: []*Var{v}, E: []*Expr{IntLit(int64(start))}})
			g.push()
			init = nil
			if g.p(50, "reassign") {
				init = &Stmt{Op: SAssign, Vars: []*Var{v}, E: []*Expr{IntLit(int64(start))}}
			}
		} else {
			var we *Expr
			if two {
				we = g.Expr(TInt, ed-1, 0)
			}
			g.declare(v)
			if two {
				w := g.newVar(TInt, v)
				w.Global = false
				g.declare(w)
				init = &Stmt{Op: SShort, Vars: []*Var{v, w}, E: []*Expr{IntLit(int64(start)), we}}
			}
		}
		s.Init = init
		cond := Cmp(op, Ref(v), IntLit(int64(lim)))
		if g.p(20, "cond2") {
			cond = Log("&&", cond, at(3, g.Expr(TBool, ed-1, 0)))
		} else if g.p(10, "flip") {
			fl := map[string]string{"<": ">", "<=": ">=", ">": "<", ">=": "<="}
			cond = Cmp(fl[op], IntLit(int64(lim)), Ref(v))
		}
		s.Cond = cond
		sym := "+"
		if !stepUp {
			sym = "-"
		}
		switch {
		case step == 1 && g.p(70, "++"):
			s.Post = &Stmt{Op: SIncDec, Vars: []*Var{v}, Sym: sym + sym}
		case g.p(50, "op="):
			s.Post = &Stmt{Op: SCompound, Vars: []*Var{v}, Sym: sym, E: []*Expr{IntLit(int64(step))}}
		default:
			s.Post = &Stmt{Op: SAssign, Vars: []*Var{v}, E: []*Expr{Bin(sym, Ref(v), IntLit(int64(step)))}}
		}
		s.Body = g.loopBody(d, trips+1)
		if g.p(12, "noPost") {
			// move the step to the front of the body; the post part is empty
			s.Body = append([]*Stmt{s.Post}, s.Body...)
			s.Post = nil
		} else if g.p(10, "skip") {
			// additional forward step inside the body
			s.Body = append(s.Body, &Stmt{Op: SCompound, Vars: []*Var{v}, Sym: sym, E: []*Expr{IntLit(1)}})
		}
		return append(pre, s)
	case 1, 2: // for cond / for { if ... break }
		v := g.newVar(TInt)
		g.declare(v)
		v.Locked = true
		pre := &Stmt{Op: SShort, Vars: []*Var{v}, E: []*Expr{IntLit(0)}}
		step := &Stmt{Op: SIncDec, Vars: []*Var{v}, Sym: "++"}
		s := &Stmt{Op: SFor}
		if g.p(60, "condform") {
			cond := Cmp("<", Ref(v), IntLit(int64(trips)))
			if g.p(40, "cond2") {
				cond = Log("&&", cond, at(3, g.Expr(TBool, ed-1, 0)))
			}
			s.Cond = cond
			s.Body = append([]*Stmt{step}, g.loopBody(d, trips+1)...)
		} else {
			s.Parts = g.p(20, ";;")
			brk := &Stmt{Op: SIf, Branches: []*Branch{{Cond: Cmp(">=", Ref(v), IntLit(int64(trips))), Body: []*Stmt{{Op: SBreak}}}}}
			s.Body = append([]*Stmt{brk, step}, g.loopBody(d, trips+1)...)
		}
		return []*Stmt{pre, s}
	default:
		return []*Stmt{g.rangeStmt(d, ed)}
	}
}

func (g *G) rangeStmt(d, ed int) *Stmt {
	t := TStr
	if g.C.Slices && (!g.C.Strings || g.p(60, "rslice")) {
		t = SliceOf(g.scalar().K)
		if g.p(80, "rvar") {
			if v := g.pickVar("rv", func(v *Var) bool { return v.T.Slice }); v != nil {
				t = v.T
			}
		}
	}
	e := g.Expr(t, ed-1, 0)
	s := &Stmt{Op: SForRange, E: []*Expr{e}}
	g.push()
	defer g.pop()
	i := g.newVar(TInt)
	i.Global = false
	s.Vars = []*Var{i}
	if g.p(75, "rval") {
		et := TStr
		if t.Slice {
			et = t.Elem()
		}
		v := g.newVar(et, i)
		v.Global = false
		if !t.Slice {
			v.MinLen = 1
		}
		s.Vars = append(s.Vars, v)
	}
	g.declare(s.Vars...)
	s.Body = g.loopBody(d, 5)
	return s
}

// functions -----------------------------------------------------------------

func (g *G) fnName() string {
	k := g.n(0, len(g.C.FuncNames)-1, "fname")
	for i := range g.C.FuncNames {
		n := g.C.FuncNames[(k+i)%len(g.C.FuncNames)]
		if !g.fnNames[n] && g.fnFree(n) {
			return n
		}
	}
	for {
		g.fresh++
		n := fmt.Sprintf("fn%d", g.fresh)
		if !g.fnNames[n] && g.fnFree(n) {
			return n
		}
	}
}

func (g *G) fnFree(n string) bool {
	for _, v := range g.visible() {
		if v.Name == n {
			return false
		}
	}
	return true
}

// FuncDef generates a function definition and makes it callable.
func (g *G) FuncDef() *Stmt {
	f := &Func{Name: g.fnName(), Mod: g.mod}
	g.fnNames[f.Name] = true
	outer := g.scopes
	var globals []*Var
	for _, v := range g.visible() {
		if v.Global {
			globals = append(globals, v)
		}
	}
	g.scopes = [][]*Var{globals, nil}
	g.fn = f
	f.Cost = 1
	np := g.pick("params", 3, 5, 4, 2, 1)
	if g.C.ManyParms && g.p(8, "many") {
		np = g.n(9, 14, "params")
	}
	for i := 0; i < np; i++ {
		v := g.newVar(g.anyType(), f.Params...)
		v.Param = true
		v.Global = false
		if v.T.Slice || v.T.Same(TStr) {
			v.MinLen = g.pick("pmin", 5, 1, 1)
		}
		f.Params = append(f.Params, v)
	}
	f.NoParen = np == 0 && g.p(20, "noparen")
	g.declare(f.Params...)
	nr := g.pick("rets", 3, 8, 3, 1)
	if g.C.ManyParms && g.p(6, "manyrets") {
		nr = g.n(4, 14, "rets")
	}
	f.NoParen = f.NoParen && nr < 2
	for i := 0; i < nr; i++ {
		t := g.anyType()
		f.Rets = append(f.Rets, t)
		m := 0
		if t.Slice || t.Same(TStr) {
			m = g.pick("rmin", 4, 1, 1)
		}
		f.RetMin = append(f.RetMin, m)
	}
	if g.C.Trace && g.p(85, "trace") && !g.C.IO {
		args := []*Expr{StrLit(f.Name)}
		for _, p := range f.Params {
			if !p.T.Slice && len(args) < 4 {
				args = append(args, Ref(p))
			}
		}
		f.Body = append(f.Body, &Stmt{Op: SPrint, E: args})
		if v := g.pickVar("gl", func(v *Var) bool { return v.Global && v.T == TInt && g.assignable(v) }); v != nil && g.C.Globals {
			f.Body = append(f.Body, &Stmt{Op: SCompound, Vars: []*Var{v}, Sym: "+", E: []*Expr{IntLit(int64(g.n(1, 5, "d")))}})
		}
		if v := g.pickVar("gl2", func(v *Var) bool { return v.Global && v.T != TInt && g.assignable(v) }); v != nil && g.C.Globals && g.p(40, "othergl") {
			f.Body = append(f.Body, &Stmt{Op: SAssign, Vars: []*Var{v}, E: []*Expr{g.Expr(v.T, 1, v.MinLen)}})
		}
	}
	f.Body = append(f.Body, g.stmts(g.n(0, g.C.MaxBlock, "fbody"), g.C.Depth-1)...)
	if nr > 0 {
		// Early returns at any depth.
		for g.p(30, "early") {
			body := []*Stmt{g.ret(f)}
			if g.p(40, "pre") {
				g.push()
				body = append(g.stmts(1, 0), g.ret(f))
				g.pop()
			}
			st := &Stmt{Op: SIf, Branches: []*Branch{{Cond: g.Expr(TBool, 2, 0), Body: body}}}
			f.Body = append(f.Body, st)
		}
		f.Body = append(f.Body, g.ret(f))
	}
	g.fn = nil
	g.scopes = outer
	g.funcs = append(g.funcs, f)
	return &Stmt{Op: SFunc, F: f}
}

func (g *G) ret(f *Func) *Stmt {
	s := &Stmt{Op: SReturn}
	for i, t := range f.Rets {
		s.E = append(s.E, g.Expr(t, g.C.ExprDepth-1, f.RetMin[i]))
	}
	return s
}

// Dump prints every printable visible variable.
func (g *G) Dump() []*Stmt {
	var r []*Stmt
	for _, v := range g.visible() {
		if !v.T.Slice {
			r = append(r, &Stmt{Op: SPrint, E: []*Expr{StrLit(v.Name), Ref(v)}})
			continue
		}
		r = append(r, &Stmt{Op: SPrint, E: []*Expr{StrLit("len " + v.Name), {Op: ELen, T: TInt, A: []*Expr{Ref(v)}}}})
		g.push()
		i := g.newVar(TInt)
		i.Global = false
		w := g.newVar(v.T.Elem(), i)
		w.Global = false
		g.pop()
		r = append(r, &Stmt{Op: SForRange, Vars: []*Var{i, w}, E: []*Expr{Ref(v)}, Body: []*Stmt{{Op: SPrint, E: []*Expr{Ref(i), Ref(w)}}}})
	}
	return r
}

// Program generates a complete single-file program.
func (g *G) Program() *Program {
	m := &Module{File: "main.tsh"}
	g.mod = m
	g.P.Main = m
	g.P.Mods = []*Module{m}
	g.body(m)
	return g.P
}

func (g *G) body(m *Module) {
	nf := g.n(g.C.MinFuncs, g.C.MaxFuncs, "nfuncs")
	top := g.n(max(1, g.C.MinTop), g.C.MaxTop, "ntop")
	if g.noTop {
		top = 0
		nf++
	}
	for i := 0; i < top || nf > 0; i++ {
		if nf > 0 && (g.p(60, "func") || i >= top) {
			m.Items = append(m.Items, g.FuncDef())
			nf--
		}
		if i < top {
			m.Items = append(m.Items, g.Stmt(g.C.Depth)...)
		}
	}
	if g.C.CallAll {
		for _, f := range g.funcs {
			if f.Cost > 400 {
				continue
			}
			e := g.call(f, g.C.ExprDepth-1)
			if len(f.Rets) == 1 && !f.Rets[0].Slice {
				m.Items = append(m.Items, &Stmt{Op: SPrint, E: []*Expr{e}})
			} else {
				m.Items = append(m.Items, &Stmt{Op: SExpr, E: []*Expr{e}})
			}
		}
	}
	if g.noTop {
		return
	}
	m.Items = append(m.Items, g.Dump()...)
	if g.C.Panic && g.p(10, "endpanic") {
		m.Items = append(m.Items, &Stmt{Op: SPanic, E: []*Expr{g.Expr(TStr, 1, 0)}})
	}
}
