package lang

import (
	"fmt"
	"strconv"
	"strings"
)

type TokKind uint8

const (
	TkWord TokKind = iota // identifier, keyword, number
	TkStr
	TkOp
	TkNL
)

type Tok struct {
	K TokKind
	S string
}

type printer struct{ t []Tok }

func (p *printer) w(s ...string) {
	for _, x := range s {
		p.t = append(p.t, Tok{TkWord, x})
	}
}
func (p *printer) o(s ...string) {
	for _, x := range s {
		p.t = append(p.t, Tok{TkOp, x})
	}
}
func (p *printer) nl() { p.t = append(p.t, Tok{TkNL, "\n"}) }

// QuoteTsh renders a string literal using only the escapes every version of
// the lexer is expected to understand.
func QuoteTsh(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		switch c := s[i]; c {
		case '"':
			b.WriteString(`\"`)
		case '\\':
			b.WriteString(`\\`)
		case '\n':
			b.WriteString(`\n`)
		case '\t':
			b.WriteString(`\t`)
		case '\r':
			b.WriteString(`\r`)
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (p *printer) str(s string, raw bool) {
	if raw && !strings.ContainsAny(s, "`\r") {
		p.t = append(p.t, Tok{TkStr, "`" + s + "`"})
		return
	}
	p.t = append(p.t, Tok{TkStr, QuoteTsh(s)})
}

func (p *printer) typ(t Type) {
	if t.Slice {
		p.o("[", "]")
	}
	p.w(Type{K: t.K}.String())
}

func (p *printer) list(es []*Expr) {
	for i, e := range es {
		if i > 0 {
			p.o(",")
		}
		p.expr(e)
	}
}

func (p *printer) call(name string, es []*Expr) {
	p.w(name)
	p.o("(")
	p.list(es)
	p.o(")")
}

func (p *printer) expr(e *Expr) {
	switch e.Op {
	case ELit:
		switch {
		case e.T.K == KBool:
			p.w(strconv.FormatBool(e.I != 0))
		case e.T.K == KInt:
			p.w(strconv.FormatInt(e.I, 10))
		default:
			p.str(e.S, e.RawS)
		}
	case ENil:
		p.w("nil")
	case EVar:
		p.w(e.V.Name)
	case ENot:
		p.o("!")
		p.expr(e.A[0])
	case EBin, ECmp, ELog:
		p.expr(e.A[0])
		p.o(e.Sym)
		p.expr(e.A[1])
	case EGroup:
		p.o("(")
		p.expr(e.A[0])
		p.o(")")
	case ECall:
		if e.Alias != "" {
			p.w(e.Alias)
			p.o(".")
		}
		if e.F != nil {
			p.call(e.F.Name, e.A)
		} else {
			p.call(e.S, e.A)
		}
	case ELen:
		p.call("len", e.A)
	case EItoa:
		p.call("itoa", e.A)
	case EInput:
		p.call("input", e.A)
	case ECopy:
		p.call("copy", e.A)
	case ERead:
		p.call("read", e.A)
	case EExists:
		p.call("exists", e.A)
	case EIndex:
		p.expr(e.A[0])
		p.o("[")
		p.expr(e.A[1])
		p.o("]")
	case ESub:
		p.expr(e.A[0])
		p.o("[")
		if e.A[1] != nil {
			p.expr(e.A[1])
		}
		p.o(":")
		if e.A[2] != nil {
			p.expr(e.A[2])
		}
		p.o("]")
	case ESliceLit:
		p.typ(e.T)
		p.o("{")
		p.list(e.A)
		p.o("}")
	case EApp:
		p.o("@")
		if e.Prog != nil {
			p.str(*e.Prog, e.RawS)
		} else {
			p.w(e.S)
		}
		p.o("(")
		p.list(e.A)
		p.o(")")
		if e.Next != nil {
			p.o("|")
			p.expr(e.Next)
		}
	case ERaw:
		p.t = append(p.t, e.Toks...)
	default:
		panic(fmt.Sprint("print: expr op ", e.Op))
	}
}

func (p *printer) names(vs []*Var) {
	for i, v := range vs {
		if i > 0 {
			p.o(",")
		}
		p.w(v.Name)
	}
}

func (p *printer) block(ss []*Stmt) {
	p.o("{")
	p.nl()
	p.stmts(ss)
	p.o("}")
}

func (p *printer) stmts(ss []*Stmt) {
	for _, s := range ss {
		p.stmt(s)
		p.nl()
	}
}

func (p *printer) stmt(s *Stmt) {
	switch s.Op {
	case SVarDef:
		p.w("var")
		p.names(s.Vars)
		if s.T.K != KVoid {
			p.typ(s.T)
		}
		if len(s.E) > 0 {
			p.o("=")
			p.list(s.E)
		}
	case SShort:
		p.names(s.Vars)
		p.o(":=")
		p.list(s.E)
	case SAssign:
		p.names(s.Vars)
		p.o("=")
		p.list(s.E)
	case SCompound:
		p.names(s.Vars)
		p.o(s.Sym + "=")
		p.expr(s.E[0])
	case SIncDec:
		p.names(s.Vars)
		p.o(s.Sym)
	case SSliceAssign:
		p.names(s.Vars)
		p.o("[")
		p.expr(s.E[0])
		p.o("]", "=")
		p.expr(s.E[1])
	case SIf:
		for i, b := range s.Branches {
			if i > 0 {
				p.w("else")
			}
			if b.Cond != nil {
				p.w("if")
				p.expr(b.Cond)
			}
			p.block(b.Body)
		}
	case SSwitch:
		p.w("switch")
		if s.Tag != nil {
			p.expr(s.Tag)
		}
		p.o("{")
		p.nl()
		for _, b := range s.Branches {
			if b.Default {
				p.w("default")
			} else {
				p.w("case")
				p.expr(b.Cond)
			}
			p.o(":")
			p.nl()
			p.stmts(b.Body)
		}
		p.o("}")
	case SFor:
		p.w("for")
		if s.Parts || s.Init != nil || s.Post != nil {
			if s.Init != nil {
				p.stmt(s.Init)
			}
			p.o(";")
			if s.Cond != nil {
				p.expr(s.Cond)
			}
			p.o(";")
			if s.Post != nil {
				p.stmt(s.Post)
			}
		} else if s.Cond != nil {
			p.expr(s.Cond)
		}
		p.block(s.Body)
	case SForRange:
		p.w("for")
		p.names(s.Vars)
		p.o(":=")
		p.w("range")
		p.expr(s.E[0])
		p.block(s.Body)
	case SBreak:
		p.w("break")
	case SContinue:
		p.w("continue")
	case SReturn:
		p.w("return")
		p.list(s.E)
	case SExpr:
		p.expr(s.E[0])
	case SPrint:
		p.call("print", s.E)
	case SPanic:
		p.call("panic", s.E)
	case SWrite:
		p.call("write", s.E)
	case SFunc:
		p.w("func", s.F.Name)
		if !s.F.NoParen || len(s.F.Params) > 0 {
			p.o("(")
			for i, v := range s.F.Params {
				if i > 0 {
					p.o(",")
				}
				p.w(v.Name)
				p.typ(v.T)
			}
			p.o(")")
		}
		if len(s.F.Rets) == 1 {
			p.typ(s.F.Rets[0])
		} else if len(s.F.Rets) > 1 {
			p.o("(")
			for i, t := range s.F.Rets {
				if i > 0 {
					p.o(",")
				}
				p.typ(t)
			}
			p.o(")")
		}
		p.block(s.F.Body)
	case SRaw:
		p.t = append(p.t, s.Toks...)
	case SBlank:
	case SComment:
		p.t = append(p.t, Tok{TkOp, "//" + s.S})
	default:
		panic(fmt.Sprint("print: stmt op ", s.Op))
	}
}

// Tokens returns the token sequence of a module.
func (m *Module) Tokens() []Tok {
	p := &printer{}
	if len(m.Imports) > 0 {
		p.w("import")
		if m.Group || len(m.Imports) > 1 {
			p.o("(")
			p.nl()
		}
		for _, im := range m.Imports {
			if im.Alias != "" {
				p.w(im.Alias)
			}
			p.str(im.Path, false)
			p.nl()
		}
		if m.Group || len(m.Imports) > 1 {
			p.o(")")
			p.nl()
		}
	}
	p.stmts(m.Items)
	return p.t
}

func StmtTokens(ss []*Stmt) []Tok {
	p := &printer{}
	p.stmts(ss)
	return p.t
}

func ExprTokens(e *Expr) []Tok {
	p := &printer{}
	p.expr(e)
	return p.t
}

// Text renders tokens in the canonical layout.
func Text(ts []Tok) string {
	var b strings.Builder
	depth := 0
	start := true
	var prev Tok
	for _, t := range ts {
		if t.K == TkNL {
			b.WriteByte('\n')
			start = true
			prev = t
			continue
		}
		if t.K == TkOp && t.S == "}" && depth > 0 {
			depth--
		}
		if start {
			for i := 0; i < depth; i++ {
				b.WriteString("    ")
			}
		} else if spaced(prev, t) {
			b.WriteByte(' ')
		}
		b.WriteString(t.S)
		if t.K == TkOp && t.S == "{" {
			depth++
		}
		start = false
		prev = t
	}
	return b.String()
}

func spaced(a, b Tok) bool {
	if b.K == TkOp {
		switch b.S {
		case ",", ")", "]", ":", ";", ".", "(", "[", "++", "--":
			if (b.S == "(" || b.S == "[") && a.K == TkOp && a.S != ")" && a.S != "]" && a.S != "(" && a.S != "[" && a.S != "!" {
				return true
			}
			if a.K == TkWord && (b.S == "(" || b.S == "[" || b.S == ";") {
				switch a.S {
				case "return", "if", "for", "case", "switch", "range", "import":
					return true
				}
			}
			return false
		}
	}
	if a.K == TkOp {
		switch a.S {
		case "(", "[", ".", "!", "@", "]":
			return a.S == "]" && !(b.K == TkWord)
		}
	}
	return true
}

// Source renders a module as text.
func (m *Module) Source() string {
	s := Text(m.Tokens())
	if m.NoFinalNL {
		s = strings.TrimSuffix(s, "\n")
	}
	return s + m.Trailing
}
