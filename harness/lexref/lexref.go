// Package lexref is an independent description of TypeShell's token grammar.
package lexref

import (
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/monstermichl/typeshell/lexer"
)

// Tok is an expected token. Col counts bytes, RuneCol characters.
type Tok struct {
	Type    lexer.TokenType
	Value   string
	Row     int
	Col     int
	RuneCol int
}

var Words = map[string]lexer.TokenType{
	"import": lexer.IMPORT, "var": lexer.VAR_DEFINITION, "func": lexer.FUNCTION_DEFINITION, "return": lexer.RETURN,
	"if": lexer.IF, "else": lexer.ELSE, "switch": lexer.SWITCH, "case": lexer.CASE, "default": lexer.DEFAULT,
	"for": lexer.FOR, "range": lexer.RANGE, "break": lexer.BREAK, "continue": lexer.CONTINUE, "nil": lexer.NIL_LITERAL,
	"len": lexer.LEN, "print": lexer.PRINT, "input": lexer.INPUT, "copy": lexer.COPY, "itoa": lexer.ITOA,
	"exists": lexer.EXISTS, "read": lexer.READ, "write": lexer.WRITE, "panic": lexer.PANIC,
	"bool": lexer.DATA_TYPE, "int": lexer.DATA_TYPE, "string": lexer.DATA_TYPE, "error": lexer.DATA_TYPE,
	"true": lexer.BOOL_LITERAL, "false": lexer.BOOL_LITERAL,
}

var Ops = map[string]lexer.TokenType{
	"(": lexer.OPENING_ROUND_BRACKET, ")": lexer.CLOSING_ROUND_BRACKET, "[": lexer.OPENING_SQUARE_BRACKET,
	"]": lexer.CLOSING_SQUARE_BRACKET, "{": lexer.OPENING_CURLY_BRACKET, "}": lexer.CLOSING_CURLY_BRACKET,
	"==": lexer.COMPARE_OPERATOR, "!=": lexer.COMPARE_OPERATOR, "<=": lexer.COMPARE_OPERATOR, ">=": lexer.COMPARE_OPERATOR,
	"<": lexer.COMPARE_OPERATOR, ">": lexer.COMPARE_OPERATOR, "&&": lexer.LOGICAL_OPERATOR, "||": lexer.LOGICAL_OPERATOR,
	"+=": lexer.COMPOUND_ASSIGN_OPERATOR, "-=": lexer.COMPOUND_ASSIGN_OPERATOR, "*=": lexer.COMPOUND_ASSIGN_OPERATOR,
	"/=": lexer.COMPOUND_ASSIGN_OPERATOR, "%=": lexer.COMPOUND_ASSIGN_OPERATOR, "=": lexer.ASSIGN_OPERATOR,
	":=": lexer.SHORT_INIT_OPERATOR, "++": lexer.INCREMENT_OPERATOR, "--": lexer.DECREMENT_OPERATOR, "!": lexer.UNARY_OPERATOR,
	"+": lexer.BINARY_OPERATOR, "-": lexer.BINARY_OPERATOR, "*": lexer.BINARY_OPERATOR, "/": lexer.BINARY_OPERATOR, "%": lexer.BINARY_OPERATOR,
	",": lexer.COMMA, ":": lexer.COLON, ";": lexer.SEMICOLON, ".": lexer.DOT, "@": lexer.AT, "|": lexer.PIPE, "\n": lexer.NEWLINE,
}

// Result of Lex.
type Result struct {
	Toks      []Tok
	Err       bool
	Ambiguous string // the grammar does not say
}

func wordStart(c byte) bool {
	return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}
func digit(c byte) bool { return c >= '0' && c <= '9' }

// Lex splits source. Numbers never include a sign here; see Normalise.
func Lex(src string) (r Result) {
	src = strings.ReplaceAll(src, "\r\n", "\n")
	row, lineStart := 1, 0
	i := 0
	emit := func(t lexer.TokenType, v string, at int) {
		r.Toks = append(r.Toks, Tok{t, v, row, at - lineStart + 1, utf8.RuneCountInString(src[lineStart:at]) + 1})
	}
	advance := func(from, to int) {
		for k := from; k < to; k++ {
			if src[k] == '\n' {
				row++
				lineStart = k + 1
			}
		}
		i = to
	}
	for i < len(src) {
		c := src[i]
		rest := src[i:]
		switch {
		case c == ' ' || c == '\t':
			i++
		case strings.HasPrefix(rest, "//"):
			j := strings.IndexByte(rest, '\n')
			if j < 0 {
				j = len(rest)
			}
			i += j
		case strings.HasPrefix(rest, "/*"):
			j := strings.Index(rest[2:], "*/")
			if j < 0 {
				r.Err = true
				return
			}
			advance(i, i+2+j+2)
		case c == '`':
			j := strings.IndexByte(rest[1:], '`')
			if j < 0 {
				r.Err = true
				return
			}
			v, err := strconv.Unquote(rest[:j+2])
			if err != nil {
				r.Ambiguous = "raw string"
				return
			}
			emit(lexer.STRING_LITERAL, v, i)
			advance(i, i+j+2)
		case c == '"':
			j := 1
			for j < len(rest) && rest[j] != '"' {
				if rest[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(rest) {
				if strings.Contains(rest, "\n") {
					// Go ends the literal (with an error) at the line end.
				}
				r.Err = true
				return
			}
			lit := rest[:j+1]
			if strings.Contains(lit, "\n") {
				r.Ambiguous = "line break in an interpreted string"
				return
			}
			v, err := strconv.Unquote(lit)
			if err != nil {
				r.Err = true
				return
			}
			emit(lexer.STRING_LITERAL, v, i)
			advance(i, i+j+1)
		case digit(c):
			j := 0
			for j < len(rest) && digit(rest[j]) {
				j++
			}
			if j+1 < len(rest) && rest[j] == '.' && digit(rest[j+1]) {
				r.Ambiguous = "fraction"
				return
			}
			emit(lexer.NUMBER_LITERAL, rest[:j], i)
			i += j
		case wordStart(c):
			j := 0
			for j < len(rest) && (wordStart(rest[j]) || digit(rest[j])) {
				j++
			}
			t, ok := Words[rest[:j]]
			if !ok {
				t = lexer.IDENTIFIER
			}
			emit(t, rest[:j], i)
			i += j
		default:
			n := 2
			if len(rest) < 2 {
				n = 1
			}
			for ; n > 0; n-- {
				if t, ok := Ops[rest[:n]]; ok {
					emit(t, rest[:n], i)
					advance(i, i+n)
					break
				}
			}
			if n == 0 {
				if c == '\r' {
					r.Ambiguous = "carriage return"
					return
				}
				r.Err = true
				return
			}
		}
	}
	return
}

// Normalise splits signed numbers and strips leading zeros, so that it does
// not matter whether a minus belongs to the number's token.
func Normalise(ts []Tok) []Tok {
	var r []Tok
	for _, t := range ts {
		if t.Type == lexer.NUMBER_LITERAL {
			if strings.HasPrefix(t.Value, "-") {
				r = append(r, Tok{lexer.BINARY_OPERATOR, "-", t.Row, t.Col, t.RuneCol})
				t.Value, t.Col, t.RuneCol = t.Value[1:], t.Col+1, t.RuneCol+1
			}
			if v := strings.TrimLeft(t.Value, "0"); v != t.Value {
				if v == "" {
					v = "0"
				}
				t.Value = v
			}
		}
		r = append(r, t)
	}
	return r
}
