package checks

import (
	"fmt"
	"strconv"
	"strings"
	"testing"

	"tshverif/gen"
	"tshverif/h"
	"tshverif/lexref"

	"github.com/monstermichl/typeshell/lexer"
	"pgregory.net/rapid"
)

// LexCase: a source text and the tokens it consists of.
type LexCase struct {
	Source h.Text
	Want   []WantTok
	Err    bool
}

type WantTok struct {
	Type    int
	Value   h.Text
	Row     int
	Col     int
	RuneCol int
}

var lexKind = h.NewKind("lex", checkLex)

func checkLex(c LexCase) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("Tokenize panicked: %v\n--- source\n%q", r, string(c.Source))
		}
	}()
	got, err := lexer.Tokenize(string(c.Source))
	src := fmt.Sprintf("\n--- source\n%q", string(c.Source))
	if c.Err {
		if err == nil {
			return "no error for a text with an unterminated string, unknown character or invalid escape" + src
		}
		return ""
	}
	if err != nil {
		return "unexpected error: " + err.Error() + src
	}
	if len(got) == 0 || got[len(got)-1].Type() != lexer.EOF {
		return "no end-of-file token at the end" + src
	}
	var g, w []lexref.Tok
	for _, t := range got[:len(got)-1] {
		g = append(g, lexref.Tok{Type: t.Type(), Value: t.Value(), Row: t.Row(), Col: t.Column()})
	}
	for _, t := range c.Want {
		w = append(w, lexref.Tok{Type: lexer.TokenType(t.Type), Value: string(t.Value), Row: t.Row, Col: t.Col, RuneCol: t.RuneCol})
	}
	g, w = lexref.Normalise(g), lexref.Normalise(w)
	byteOK, runeOK := true, true
	for i := 0; i < len(g) || i < len(w); i++ {
		if i >= len(g) {
			return fmt.Sprintf("token %d missing: %+v%s", i, w[i], src)
		}
		if i >= len(w) {
			return fmt.Sprintf("token %d is too much: %+v%s", i, g[i], src)
		}
		a, b := g[i], w[i]
		if a.Type != b.Type || a.Value != b.Value || a.Row != b.Row {
			return fmt.Sprintf("token %d: got %+v, want %+v%s", i, a, b, src)
		}
		if a.Col != b.Col {
			byteOK = false
		}
		if a.Col != b.RuneCol {
			runeOK = false
		}
		if !byteOK && !runeOK {
			return fmt.Sprintf("token %d: column %d, want %d: %+v%s", i, a.Col, b.Col, b, src)
		}
	}
	return ""
}

func toWant(ts []lexref.Tok) (r []WantTok) {
	for _, t := range ts {
		r = append(r, WantTok{int(t.Type), h.Text(t.Value), t.Row, t.Col, t.RuneCol})
	}
	return
}

var lexWords, lexOps = func() (w, o []string) {
	for k := range lexref.Words {
		w = append(w, k)
	}
	for k := range lexref.Ops {
		if k != "\n" {
			o = append(o, k)
		}
	}
	sortStrings(w)
	sortStrings(o)
	return
}()

func lexIdent(t *rapid.T) string {
	const first = "abcxyzTFN_"
	const more = "abcxyzTF_0189"
	switch gen.Uniform(t, 4, "ident") {
	case 0: // keyword with something attached
		w := gen.Pick(t, lexWords, "kw")
		switch gen.Uniform(t, 4, "att") {
		case 0:
			w = w + string(more[gen.Uniform(t, len(more), "c")])
		case 1:
			w = string(first[gen.Uniform(t, len(first), "c")]) + w
		case 2:
			w = w + gen.Pick(t, lexWords, "kw2")
		default:
			w = strings.ToUpper(w[:1]) + w[1:]
		}
		if _, ok := lexref.Words[w]; ok {
			w += "_"
		}
		return w
	case 1:
		w := gen.Pick(t, lexWords, "kw")
		k := gen.Uniform(t, len(w)-1, "cut") + 1
		if _, ok := lexref.Words[w[:k]]; ok {
			return w[:k] + "9"
		}
		return w[:k]
	}
	b := []byte{first[gen.Uniform(t, len(first), "c")]}
	for n := gen.Uniform(t, 6, "n"); n > 0; n-- {
		b = append(b, more[gen.Uniform(t, len(more), "c")])
	}
	if lexLong && gen.Uniform(t, 3, "long") == 0 {
		// Nothing limits the length of a token.
		for n := longLen(t); len(b) < n; {
			b = append(b, more[gen.Uniform(t, len(more), "c")])
			b = append(b, b...)
		}
	}
	if _, ok := lexref.Words[string(b)]; ok {
		return string(b) + "x"
	}
	return string(b)
}

// lexLong: this case may contain very long tokens and separators.
var lexLong bool

func longLen(t *rapid.T) int {
	return gen.Pick(t, []int{30, 60, 130, 260, 520, 1030, 2050, 4100, 8200, 16400}, "longlen")
}

// grow repeats p up to a long length, now and then.
func grow(t *rapid.T, p string) string {
	if !lexLong || gen.Uniform(t, 8, "long") > 0 {
		return p
	}
	return strings.Repeat(p, longLen(t)/len(p)+1)
}

var strPieces = []string{`\a`, `\b`, `\f`, `\n`, `\r`, `\t`, `\v`, `\\`, `\"`, `\x41`, `\x00`, `\xff`, `\x7F`, `\101`, `\000`, `\377`, `\u00e9`, `\u4e16`, `\U0001F600`, `\U0000000a`,
	"a", "Z", " ", "  ", "'", "`", "//", "/*", "*/", "é", "世", "😀", "1", "-1", "true", "$", "#", "%", "\t", "\\\\n", "{", "}", "\x01", "\x7f", `\\`, `\\\\`}

func lexString(t *rapid.T) string {
	var b strings.Builder
	n := gen.Uniform(t, 7, "pieces")
	if gen.Uniform(t, 3, "raw") == 0 {
		b.WriteByte('`')
		for ; n > 0; n-- {
			p := gen.Pick(t, append(strPieces, "\n", "\r", "\r\n", `"`, `\q`, `\`), "p")
			b.WriteString(strings.ReplaceAll(grow(t, p), "`", "'"))
		}
		b.WriteByte('`')
		return b.String()
	}
	b.WriteByte('"')
	for ; n > 0; n-- {
		b.WriteString(grow(t, gen.Pick(t, strPieces, "p")))
	}
	b.WriteByte('"')
	return b.String()
}

func lexNumber(t *rapid.T) string {
	switch gen.Uniform(t, 3, "num") {
	case 0:
		return strconv.Itoa(gen.Uniform(t, 10, "n"))
	case 1:
		return strconv.Itoa(gen.Uniform(t, 100000, "n"))
	}
	return gen.Pick(t, []string{"9223372036854775807", "4294967296", "2147483648", "1000000", "10", "100"}, "n")
}

var commentPieces = []string{"x", " ", "*", "**", "/", "//", "/*", `"`, "`", "é", "😀", "end", "*x/", "\\", "true", "'", "\t"}

func lexComment(t *rapid.T, block bool) string {
	var b strings.Builder
	ps := commentPieces
	if block {
		ps = append(ps, "\n", "\r\n", "\n  ")
	}
	for n := gen.Uniform(t, 6, "cn"); n > 0; n-- {
		b.WriteString(grow(t, gen.Pick(t, ps, "cp")))
	}
	if !block {
		return "//" + b.String()
	}
	s := b.String()
	for strings.Contains(s, "*/") {
		s = strings.ReplaceAll(s, "*/", "* /")
	}
	return "/*" + s + "*/"
}

// TestC11 renders token lists with separators (what comes back is known by
// construction) and glues fragments at random (what comes back is said by an
// independent lexer).
func TestC11(t *testing.T) {
	h.Check(t, func(t *rapid.T) {
		lexLong = gen.Uniform(t, 200, "long tokens") == 199
		if gen.Uniform(t, 3, "mode") == 0 {
			lexFragments(t)
		} else {
			lexTokens(t)
		}
	})
}

func lexTokens(t *rapid.T) {
	var src strings.Builder
	var want []lexref.Tok
	n := gen.Uniform(t, 24, "tokens") + 1
	if h.Thorough() {
		n = gen.Uniform(t, 60, "tokens") + 1
	}
	prevCls, prev := byte(0), ""
	kinds := map[string]bool{}
	for k := 0; k < n; k++ {
		var text, val string
		var typ lexer.TokenType
		var cls byte // w word, n number, o operator, s string
		switch gen.Uniform(t, 12, "kind") {
		case 0, 1:
			text = gen.Pick(t, lexWords, "word")
			val, typ, cls = text, lexref.Words[text], 'w'
		case 2, 3:
			text = lexIdent(t)
			val, typ, cls = text, lexer.IDENTIFIER, 'w'
		case 4, 5:
			text = lexNumber(t)
			val, typ, cls = text, lexer.NUMBER_LITERAL, 'n'
		case 6, 7:
			text = lexString(t)
			v, err := strconv.Unquote(strings.ReplaceAll(text, "\r\n", "\n"))
			if err != nil {
				h.Infra("bad literal %q", text)
			}
			val, typ, cls = v, lexer.STRING_LITERAL, 's'
		default:
			text = gen.Pick(t, lexOps, "op")
			val, typ, cls = text, lexref.Ops[text], 'o'
		}
		kinds[string(cls)] = true
		// Separator.
		need := false
		switch {
		case prevCls == 0:
		case (prevCls == 'w' || prevCls == 'n') && (cls == 'w' || cls == 'n'):
			need = !(prevCls == 'n' && cls == 'w') || gen.Uniform(t, 2, "glue") == 0
		case prevCls == 'o' && cls == 'o':
			need = true
			// Gluing operators is fine where no longer operator results.
			if _, ok := lexref.Ops[prev[len(prev)-1:]+text[:1]]; !ok && prev != "/" && !(strings.HasSuffix(prev, "/")) {
				need = gen.Uniform(t, 2, "glue") == 0
			}
		case prevCls == 'n' && text == ".", prev == "." && cls == 'n':
			need = true
		}
		sep := ""
		lineComment := false
		for i := gen.Uniform(t, 3, "seps"); i > 0 || need && sep == ""; i-- {
			p := ""
			switch gen.Uniform(t, 8, "sep") {
			case 0, 1, 2:
				p = grow(t, " ")
			case 3:
				p = grow(t, "\t")
			case 4, 5:
				p = lexComment(t, true)
				kinds["block comment"] = true
			case 6:
				p = lexComment(t, false)
				lineComment = true
				kinds["line comment"] = true
			case 7:
				p = grow(t, gen.Pick(t, []string{"\n", "\r\n"}, "nl"))
			}
			if strings.HasPrefix(p, "/") && sep == "" && strings.HasSuffix(prev, "/") && prevCls == 'o' {
				p = " " + p
			}
			if lineComment && !strings.Contains(p, "//") && p != "\n" && p != "\r\n" {
				continue // still inside the line comment
			}
			if lineComment {
				if p == "\n" || p == "\r\n" {
					lineComment = false
				} else {
					p += gen.Pick(t, []string{"\n", "\r\n"}, "cnl")
					lineComment = false
				}
			}
			sep += p
		}
		if lineComment {
			sep += "\n"
		}
		base := src.Len()
		src.WriteString(sep)
		// Newlines that are not inside block comments are tokens.
		full := src.String()
		for _, nt := range newlinesIn(full, base) {
			want = append(want, nt)
		}
		row, col, rcol := position(full, src.Len())
		want = append(want, lexref.Tok{Type: typ, Value: val, Row: row, Col: col, RuneCol: rcol})
		src.WriteString(text)
		prevCls, prev = cls, text
	}
	switch gen.Uniform(t, 4, "end") {
	case 0:
		base := src.Len()
		src.WriteString("\n")
		want = append(want, newlinesIn(src.String(), base)...)
	case 1:
		src.WriteString(" //" + gen.Pick(t, commentPieces, "tail"))
	}
	s := src.String()
	for k := range kinds {
		h.Class("tokens: " + k)
	}
	h.Count(s, len(want) >= 3, func() any { return s })
	// The two descriptions of the expected tokens have to agree.
	if r := lexref.Lex(s); r.Err || r.Ambiguous != "" || !sameToks(lexref.Normalise(r.Toks), lexref.Normalise(want)) {
		h.Infra("reference lexer disagrees with construction on %q\n%+v\n%+v", s, r, want)
	}
	lexKind.Run(t, LexCase{Source: h.Text(s), Want: toWant(want)})
}

func sameToks(a, b []lexref.Tok) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// position of byte offset off, in the text with CRLF read as LF.
func position(s string, off int) (row, col, runeCol int) {
	p := strings.ReplaceAll(s[:off], "\r\n", "\n")
	row = strings.Count(p, "\n") + 1
	line := p[strings.LastIndexByte(p, '\n')+1:]
	return row, len(line) + 1, len([]rune(line)) + 1
}

// newlinesIn returns the newline tokens in the separator s[base:].
func newlinesIn(s string, base int) (r []lexref.Tok) {
	for i := base; i < len(s); {
		switch {
		case strings.HasPrefix(s[i:], "/*"):
			i += 2 + strings.Index(s[i+2:], "*/") + 2
		case strings.HasPrefix(s[i:], "//"):
			for i < len(s) && s[i] != '\n' {
				i++
			}
			if i > 0 && s[i-1] == '\r' {
				i--
			}
		case strings.HasPrefix(s[i:], "\r\n"), s[i] == '\n':
			row, col, rc := position(s, i)
			r = append(r, lexref.Tok{Type: lexer.NEWLINE, Value: "\n", Row: row, Col: col, RuneCol: rc})
			if s[i] == '\r' {
				i++
			}
			i++
		default:
			i++
		}
	}
	return
}

var lexFrags = []string{`"`, "`", "/*", "*/", "//", `\`, "'", "&", "&&", "|", "||", "=", "==", "!", "!=", "<", ">", "<=", ">=", "+", "++", "+=", "-", "--", "-=", "*", "*=", "/", "/=", "%", "%=",
	":", ":=", ";", ".", ",", "(", ")", "[", "]", "{", "}", "@", "true", "false", "tru", "nil", "x", "_", "if", "iff", "int", "string", "0", "1", "42", "007", " ", "  ", "\t", "\n", "\r\n", "\r",
	"é", "#", "$", "?", "~", "^", "\x00", "\\n", "\\x4", "a b", "print", "x1", "1x", "\"a\"", "`b`", "// c\n", "/* d */", "/**/", "/*/", "\ufeff", "\u00a0"}

func growFrag(t *rapid.T, p string) string {
	if !lexLong || gen.Uniform(t, 4, "rep") > 0 {
		return p
	}
	return strings.Repeat(p, gen.Pick(t, []int{2, 3, 4, 9, 40, 300, 1100}, "reps"))
}

func lexFragments(t *rapid.T) {
	var b strings.Builder
	for n := gen.Uniform(t, 14, "frags") + 1; n > 0; n-- {
		b.WriteString(growFrag(t, gen.Pick(t, lexFrags, "f")))
	}
	s := b.String()
	r := lexref.Lex(s)
	if r.Ambiguous != "" {
		h.Discard()
		h.Class("discard: " + r.Ambiguous)
		return
	}
	if r.Err {
		h.Class("fragments: error")
	} else {
		h.Class("fragments: tokens")
	}
	h.Count("f"+s, len(r.Toks) >= 2, func() any { return s })
	lexKind.Run(t, LexCase{Source: h.Text(s), Want: toWant(r.Toks), Err: r.Err})
}
