package lexref

import (
	"strings"

	"github.com/monstermichl/typeshell/lexer"
)

// Piece is a token with its source text.
type Piece struct {
	Tok
	Text string
}

// Pieces splits src (line ends are read as LF) into tokens with their text.
func Pieces(src string) ([]Piece, bool) {
	src = strings.ReplaceAll(src, "\r\n", "\n")
	r := Lex(src)
	if r.Err || r.Ambiguous != "" {
		return nil, false
	}
	starts := []int{0}
	for i := 0; i < len(src); i++ {
		if src[i] == '\n' {
			starts = append(starts, i+1)
		}
	}
	var ps []Piece
	for _, t := range r.Toks {
		at := starts[t.Row-1] + t.Col - 1
		n := len(t.Value)
		if t.Type == lexer.STRING_LITERAL {
			n = 1
			for q := src[at]; src[at+n] != q; n++ {
				if q == '"' && src[at+n] == '\\' {
					n++
				}
			}
			n++
		}
		ps = append(ps, Piece{t, src[at : at+n]})
	}
	return ps, true
}

// EndsOperand: a minus behind such a token is an operator.
func EndsOperand(t lexer.TokenType) bool {
	switch t {
	case lexer.IDENTIFIER, lexer.BOOL_LITERAL, lexer.NUMBER_LITERAL, lexer.STRING_LITERAL, lexer.NIL_LITERAL,
		lexer.CLOSING_ROUND_BRACKET, lexer.CLOSING_SQUARE_BRACKET:
		return true
	}
	return false
}

// Fuse reports whether the texts of a and b, written without a blank, would
// be read differently.
func Fuse(a, b Piece) bool {
	if a.Text == "." && b.Type == lexer.NUMBER_LITERAL || a.Type == lexer.NUMBER_LITERAL && b.Text == "." {
		return true
	}
	r := Lex(a.Text + b.Text)
	return r.Err || r.Ambiguous != "" || len(r.Toks) != 2 || r.Toks[0].Type != a.Type || r.Toks[0].Value != a.Value ||
		r.Toks[1].Type != b.Type || r.Toks[1].Value != b.Value
}
