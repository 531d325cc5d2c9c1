// Package lang holds an independent model of the TypeShell language: abstract
// syntax, a printer to tokens and text, and a reference interpreter.
package lang

type Kind uint8

const (
	KVoid Kind = iota
	KBool
	KInt
	KStr
	KErr
)

type Type struct {
	K     Kind
	Slice bool
}

var (
	TBool = Type{K: KBool}
	TInt  = Type{K: KInt}
	TStr  = Type{K: KStr}
	TErr  = Type{K: KErr}
	TVoid = Type{}
)

func SliceOf(k Kind) Type { return Type{K: k, Slice: true} }

// Norm maps error to string: the README says error is just a string type.
func (t Type) Norm() Type {
	if t.K == KErr {
		t.K = KStr
	}
	return t
}

func (t Type) Same(u Type) bool { return t.Norm() == u.Norm() }
func (t Type) Elem() Type       { return Type{K: t.K} }

func (t Type) String() string {
	s := map[Kind]string{KVoid: "void", KBool: "bool", KInt: "int", KStr: "string", KErr: "error"}[t.K]
	if t.Slice {
		return "[]" + s
	}
	return s
}

// Var is a variable. Identity is the pointer; Name is only its spelling.
type Var struct {
	Name   string
	T      Type
	Global bool
	Param  bool
	ID     int
	// Generator-side facts.
	MinLen   int  // every value the variable ever holds has at least this length
	Locked   bool // loop counter: the generator must not assign it
	Owner    *Func
	Mod      *Module
	Reserved bool // spelling is fixed
}

type Func struct {
	Name    string
	Params  []*Var
	Rets    []Type
	RetMin  []int // minimum length of returned strings/slices
	Body    []*Stmt
	NoParen bool // printed without parameter brackets
	Mod     *Module
	Cost    int
	Pure    bool // no output, no global effect
}

type EOp uint8

const (
	ELit EOp = iota
	EVar
	ENot
	EBin // + - * / % (int), + (string)
	ECmp
	ELog
	EGroup
	ECall
	ELen
	EItoa
	EInput
	ECopy
	ERead
	EExists
	EIndex // slice or string subscript
	ESub   // string range subscript; A[1] or A[2] may be nil
	ESliceLit
	EApp  // @prog(args) | ...
	ENil  // nil
	ERaw  // raw tokens (negative tests)
	EWrap // unused
)

type Expr struct {
	Op    EOp
	Sym   string
	T     Type
	A     []*Expr
	V     *Var
	F     *Func
	Alias string // module alias used at the call site
	I     int64
	S     string
	RawS  bool    // print the string as a raw (backquoted) literal
	Next  *Expr   // pipe
	Toks  []Tok   // ERaw
	Min   int     // generator: minimum length of a string/slice value
	Prog  *string // EApp program name given as string literal (else identifier S)
}

type SOp uint8

const (
	SVarDef      SOp = iota // var a, b T [= E...]   (T may be void: var a = E)
	SShort                  // a, b := E...
	SAssign                 // a, b = E...
	SCompound               // a op= E
	SIncDec                 // a++ / a--
	SSliceAssign            // V[E0] = E1
	SIf
	SSwitch
	SFor      // three part / condition / endless
	SForRange // for i[, v] := range E
	SBreak
	SContinue
	SReturn
	SExpr
	SPrint
	SPanic
	SWrite
	SFunc
	SRaw
	SBlank // blank line
	SComment
)

type Branch struct {
	Cond    *Expr // nil: else / default
	Body    []*Stmt
	Default bool
}

type Stmt struct {
	Op       SOp
	Vars     []*Var
	T        Type
	E        []*Expr
	Sym      string
	Branches []*Branch
	Tag      *Expr // switch tag
	Init     *Stmt
	Cond     *Expr
	Post     *Stmt
	Parts    bool // three-part for header even if parts are empty
	Body     []*Stmt
	F        *Func
	Toks     []Tok
	S        string
}

type Import struct {
	Alias string
	Path  string // as written
	Mod   *Module
}

type Module struct {
	File      string // path relative to the program directory
	Imports   []Import
	Group     bool // import ( ... )
	Items     []*Stmt
	Seq       int
	Trailing  string // literal text appended (hash tuning)
	NoFinalNL bool
}

type Program struct {
	Main *Module
	Mods []*Module
	Big  bool // contains long slices or strings: needs larger limits
	nvar int
}

func (p *Program) NewVar(v Var) *Var {
	v.ID = p.nvar
	p.nvar++
	return &v
}

func (p *Program) NumVars() int { return p.nvar }

// WalkExpr visits e and its sub-expressions.
func WalkExpr(e *Expr, f func(*Expr)) {
	if e == nil {
		return
	}
	f(e)
	for _, a := range e.A {
		WalkExpr(a, f)
	}
	WalkExpr(e.Next, f)
}

// WalkStmts visits statements (including nested ones) and their expressions.
func WalkStmts(ss []*Stmt, sf func(*Stmt), ef func(*Expr)) {
	for _, s := range ss {
		WalkStmt(s, sf, ef)
	}
}

func WalkStmt(s *Stmt, sf func(*Stmt), ef func(*Expr)) {
	if s == nil {
		return
	}
	if sf != nil {
		sf(s)
	}
	we := func(e *Expr) {
		if ef != nil {
			WalkExpr(e, ef)
		}
	}
	for _, e := range s.E {
		we(e)
	}
	we(s.Tag)
	we(s.Cond)
	WalkStmt(s.Init, sf, ef)
	WalkStmt(s.Post, sf, ef)
	for _, b := range s.Branches {
		we(b.Cond)
		WalkStmts(b.Body, sf, ef)
	}
	WalkStmts(s.Body, sf, ef)
	if s.Op == SFunc {
		WalkStmts(s.F.Body, sf, ef)
	}
}

// HasCall reports whether evaluating e calls a user function.
func HasCall(e *Expr) bool {
	r := false
	WalkExpr(e, func(x *Expr) {
		if x.Op == ECall {
			r = true
		}
	})
	return r
}
