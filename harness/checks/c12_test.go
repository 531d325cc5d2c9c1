package checks

import (
	"os"
	"path/filepath"
	"strings"
	"testing"

	"tshverif/gen"
	"tshverif/h"
	"tshverif/lang"
	"tshverif/lexref"

	"github.com/monstermichl/typeshell/lexer"
	"pgregory.net/rapid"
)

// LayoutCase: the same files in two layouts.
type LayoutCase struct {
	A, B map[string]h.Text
	Main string
}

var layoutKind = h.NewKind("layout", checkLayout)

func checkLayout(c LayoutCase) string {
	for _, tg := range []string{"bash", "batch"} {
		a := h.Transpile(filepath.Join(h.WriteTree("prog", c.A), c.Main), tg)
		b := h.Transpile(filepath.Join(h.WriteTree("prog", c.B), c.Main), tg)
		tail := "\n=== first layout" + allFiles(c.A, c.Main) + "\n=== second layout" + allFiles(c.B, c.Main)
		ra, rb := a.Rejected(), b.Rejected()
		switch {
		case ra == "" && rb != "":
			return tg + ": only the first layout is accepted: " + rb + tail
		case ra != "" && rb == "":
			return tg + ": only the second layout is accepted: " + ra + tail
		case a.Script != b.Script:
			return tg + ": scripts differ: " + h.Diff(a.Script, b.Script) + tail
		}
	}
	return ""
}

type layout struct {
	nl, indent, blanks, comments, lines int
	collapse, tight                     bool
}

func pickLayout(t *rapid.T) layout {
	return layout{
		nl:       gen.Uniform(t, 3, "nl"),
		indent:   gen.Uniform(t, 5, "indent"),
		blanks:   gen.Uniform(t, 4, "blanks"),
		comments: gen.Uniform(t, 4, "comments"),
		lines:    gen.Uniform(t, 4, "lines"),
		collapse: gen.Uniform(t, 5, "collapse") == 0,
		tight:    gen.Uniform(t, 4, "tight") == 0,
	}
}

// chance draws true in l of 12 cases, so that level 0 never does.
func chance(t *rapid.T, l int, s string) bool { return l > 0 && gen.Uniform(t, 12, s) < l*l }

func blankRun(t *rapid.T) string {
	return gen.Pick(t, []string{" ", "  ", "\t", " \t ", "        "}, "blank")
}

// relayout writes the pieces of a text in another layout.
func relayout(t *rapid.T, ps []lexref.Piece, l layout) string {
	var b strings.Builder
	eol := func() string {
		switch l.nl {
		case 0:
			return "\n"
		case 1:
			return "\r\n"
		}
		return gen.Pick(t, []string{"\n", "\r\n"}, "eol")
	}
	text := func(s string) string { // line ends inside raw strings and comments
		if !strings.Contains(s, "\n") {
			return s
		}
		return strings.ReplaceAll(s, "\n", eol())
	}
	comment := func(block bool) string {
		s := lexComment(t, block)
		s = strings.ReplaceAll(s, "\r\n", "\n")
		return text(s)
	}
	indent := func() {
		switch l.indent {
		case 1:
			b.WriteString("    ")
		case 2:
			b.WriteByte('\t')
		case 3:
			b.WriteString(strings.Repeat(" ", gen.Uniform(t, 9, "ind")))
		case 4:
			if gen.Uniform(t, 2, "ind") == 0 {
				b.WriteString(blankRun(t))
			}
		}
	}
	extraLines := func() {
		for chance(t, l.lines, "line") {
			indent()
			switch gen.Uniform(t, 4, "kind") {
			case 0:
				b.WriteString(comment(false))
			case 1:
				b.WriteString(comment(true))
				if chance(t, l.blanks, "trail") {
					b.WriteString(blankRun(t))
				}
			}
			b.WriteString(eol())
		}
	}
	end := len(ps)
	for end > 0 && ps[end-1].Type == lexer.NEWLINE {
		end--
	}
	finalNL := gen.Uniform(t, 3, "final") != 0
	extraLines()
	lineStart := true
	for i := 0; i < end; i++ {
		p := ps[i]
		if p.Type == lexer.NEWLINE {
			if l.collapse && lineStart {
				continue
			}
			if chance(t, l.blanks, "trail") {
				b.WriteString(blankRun(t))
			}
			if chance(t, l.comments, "lc") {
				if i > 0 && strings.HasSuffix(ps[i-1].Text, "/") || gen.Uniform(t, 2, "sp") == 0 {
					b.WriteByte(' ')
				}
				if gen.Uniform(t, 2, "block") == 0 {
					b.WriteString(comment(true))
				} else {
					b.WriteString(comment(false))
				}
			}
			b.WriteString(eol())
			extraLines()
			lineStart = true
			continue
		}
		if lineStart {
			indent()
			if chance(t, l.comments-1, "bc") {
				b.WriteString(comment(true))
				if gen.Uniform(t, 2, "sp") == 0 {
					b.WriteByte(' ')
				}
			}
			b.WriteString(text(p.Text))
			lineStart = false
			continue
		}
		q := ps[i-1]
		adjacent := q.Row == p.Row && q.Col+len(q.Text) == p.Col
		sep := ""
		glued := false
		if p.Type == lexer.NUMBER_LITERAL && q.Text == "-" && !(i > 1 && lexref.EndsOperand(ps[i-2].Type)) {
			// The sign of a negative number: not a place for a blank, nor may
			// one be taken away.
			if adjacent {
				glued = true
			} else {
				sep = " "
			}
		}
		if !glued {
			need := lexref.Fuse(q, p)
			switch {
			case l.tight:
			case chance(t, l.blanks, "b"):
				sep += blankRun(t)
			case !adjacent && gen.Uniform(t, 3, "keep") > 0:
				sep += " "
			}
			if chance(t, l.comments-1, "bc") {
				c := comment(true)
				if sep == "" && strings.HasSuffix(q.Text, "/") {
					sep = " "
				}
				sep += c
				if gen.Uniform(t, 2, "sp") == 0 {
					sep += " "
				}
			}
			if need && sep == "" {
				sep = gen.Pick(t, []string{" ", "\t", "/**/", "/* */", "  "}, "sep")
				if strings.HasPrefix(sep, "/") && strings.HasSuffix(q.Text, "/") {
					sep = " "
				}
			}
		}
		b.WriteString(sep)
		b.WriteString(text(p.Text))
	}
	if finalNL {
		b.WriteString(eol())
		extraLines()
	}
	if gen.Uniform(t, 6, "tail") == 0 {
		if end > 0 {
			b.WriteByte(' ')
		}
		switch gen.Uniform(t, 3, "tail") {
		case 0:
			b.WriteString(comment(false))
		case 1:
			b.WriteString(comment(true))
		default:
			b.WriteString(blankRun(t))
		}
	}
	out := b.String()
	// Only the layout may have changed.
	qs, ok := lexref.Pieces(out)
	if !ok || canon(ps) != canon(qs) {
		h.Infra("re-layout changed the tokens\n%q\n%q", canon(ps), out)
	}
	return out
}

func canon(ps []lexref.Piece) string {
	var b strings.Builder
	nl := true
	for i, p := range ps {
		if p.Type == lexer.NEWLINE {
			if !nl {
				b.WriteString("\n")
			}
			nl = true
			continue
		}
		nl = false
		if p.Type == lexer.NUMBER_LITERAL && i > 0 && ps[i-1].Text == "-" && !(i > 1 && lexref.EndsOperand(ps[i-2].Type)) &&
			ps[i-1].Row == p.Row && ps[i-1].Col+1 == p.Col {
			b.WriteString("glued")
		}
		b.WriteString(p.Text)
		b.WriteByte(0)
	}
	return strings.TrimRight(b.String(), "\n")
}

// snippets hold what the generator does not write.
var snippets = []string{
	"import \"strings\"\nprint(strings.Contains(\"Hello\", \"ell\"))\n",
	"import (\n\"strings\"\ns2 \"strings\"\n)\nprint(strings.Index(\"a\", s2.Join([]string{\"a\"}, \",\")))\n",
	"import (\nos \"os\"\n)\nprint(1)\n",
	"func f {\nprint(1)\n}\nf()\n",
	"func f() (int, error) {\nreturn 1, nil\n}\na, err := f()\nif err != nil {\npanic(err)\n}\nprint(a)\n",
	"out, stderr, code := @ls(\"-l\") | @\"/bin/wc\"(\"-c\", \"a b\")\nprint(out, stderr, code)\n@ls() | @cat()\n",
	"for {\nbreak\n}\nfor i := 0; i < 3; i++ {\ncontinue\n}\nfor ; ; {\nbreak\n}\n",
	"switch {\ncase true:\nprint(1)\ndefault:\nprint(2)\n}\nswitch 1 {\ncase 1:\ncase 2:\n}\n",
	"x := []int{\n1,\n2,\n}\nprint(len(x))\n",
	"a := 5 -1\nb := a-1\nc := a - -1\nd := -1\nprint(a -b, a*-1, c%2, d)\nprint((a)-1)\n",
	"var s string = `raw\n  text\t// no comment\n/* neither */`\nprint(s, s[1], s[1:2], s[:2], s[1:], s[:])\n",
	"x := []string{\"a\"}\nx[1] = \"b\"\nfor i, v := range x {\nprint(i, v)\n}\nprint(copy(x, x), len(x))\n",
	"write(\"f\", \"t\", true)\nprint(read(\"f\"), exists(\"f\"), input(\"p\"), input())\n",
	"if true {\n} else if false {\n} else {\n}\n",
	"",
	"\n",
	"print(\n1,\n2)\n",
	"var a, b int\nvar c, d = 1, \"x\"\na, b = b, a\na += 1\nb--\nprint(!!true, !(a == b) && true || false)\n",
	"func f(a int,\nb int) {\n}\n",
	"if true\n{\n}\n",
	"if true {\n}\nelse {\n}\n",
	"x := 1 +\n2\n",
	"print(1) print(2)\n",
	"a := 1; b := 2\n",
	"switch 1\n{\ncase 1:\nprint(1)\n}\n",
	"switch 1 {\n\ncase 1:\n\nprint(1)\ncase 2: print(2)\n}\n",
	"if true { print(1)\n}\n",
	"if true {\nprint(1) }\n",
	"import \"strings\" print(1)\n",
	"import strings \"strings\"\n\n\nimport o \"os\"\nprint(1)\n",
}

func TestC12(t *testing.T) {
	h.Check(t, func(t *rapid.T) {
		var fs map[string]h.Text
		main := "main.tsh"
		cls := ""
		switch gen.Uniform(t, 8, "base") {
		case 0, 1:
			cls = "snippet"
			fs = map[string]h.Text{main: h.Text(gen.Pick(t, snippets, "snippet"))}
		case 2:
			cls = "several files"
			c := modCfg(t)
			c.MaxTop, c.Depth, c.MaxFuncs = 4, 1, 3
			p := gen.New(t, c).Modules(gen.ModCfg{Min: 1, Max: 2})
			fs, main = sources(p), p.Main.File
		case 3:
			cls = "repository file"
			fs = map[string]h.Text{main: h.Text(gen.Pick(t, repoSources(), "file"))}
		default:
			cls = "generated"
			c := gen.Cfg{MaxFuncs: 3, Slices: true, Strings: true, Copy: true, Grow: true, SliceParm: true, Globals: true, Multi: true, Switch: true,
				Panic: true, TypedErr: true, SmallInts: true, IO: true, RawLits: true, Chars: "abcXY01 _.:-\"\\\n'/*", MinTop: 1, MaxTop: 5, MaxBlock: 3, Depth: 2, ExprDepth: 3}
			p := gen.New(t, c).Program()
			fs, main = sources(p), p.Main.File
		}
		bad := gen.Uniform(t, 4, "bad") == 0
		b := map[string]h.Text{}
		nontrivial := false
		names := make([]string, 0, len(fs))
		for n := range fs {
			names = append(names, n)
		}
		sortStrings(names)
		victim := gen.Pick(t, names, "victim")
		for _, n := range names {
			ps, ok := lexref.Pieces(string(fs[n]))
			if !ok {
				h.Infra("base text is not lexable: %q", fs[n])
			}
			if bad && n == victim {
				src := corrupt(t, ps)
				if ps, ok = lexref.Pieces(src); !ok {
					h.Discard()
					h.Class("discard: corrupted text has no tokens")
					return
				}
				fs[n] = h.Text(src)
			}
			b[n] = h.Text(relayout(t, ps, pickLayout(t)))
			nontrivial = nontrivial || len(ps) > 5 && b[n] != fs[n]
		}
		if bad {
			cls += ", corrupted"
			if acceptedBoth(fs, main) {
				cls += ", still accepted"
			}
		}
		h.Class(cls)
		h.Count(allFiles(b, main), nontrivial, func() any { return map[string]any{"first": fs, "second": b} })
		layoutKind.Run(t, LayoutCase{fs, b, main})
	})
}

var repoFiles []string

// repoSources returns the library and the examples.
func repoSources() []string {
	if repoFiles == nil {
		repo := os.Getenv("VERIF_REPO")
		if repo == "" {
			repo = "/repo"
		}
		for _, pat := range []string{"std/*.tsh", "examples/*.tsh"} {
			fs, _ := filepath.Glob(filepath.Join(repo, pat))
			for _, f := range fs {
				b, err := os.ReadFile(f)
				if err != nil {
					h.Infra("%v", err)
				}
				if _, ok := lexref.Pieces(string(b)); ok {
					repoFiles = append(repoFiles, string(b))
				}
			}
		}
		if len(repoFiles) == 0 {
			h.Infra("no sources in %s", repo)
		}
	}
	return repoFiles
}

// corrupt edits a few tokens.
func corrupt(t *rapid.T, ps []lexref.Piece) string {
	q := append([]lexref.Piece{}, ps...)
	if gen.Uniform(t, 2, "newlines") == 0 && len(q) > 0 {
		// Only where lines end: what the grammar says about line breaks.
		i := gen.Uniform(t, len(q), "at")
		if q[i].Type == lexer.NEWLINE {
			q = append(q[:i:i], q[i+1:]...)
		} else {
			nl := lexref.Piece{Tok: lexref.Tok{Type: lexer.NEWLINE, Value: "\n"}, Text: "\n"}
			q = append(q[:i:i], append([]lexref.Piece{nl}, q[i:]...)...)
		}
		return joinPieces(q)
	}
	for n := gen.Uniform(t, 3, "edits") + 1; n > 0; n-- {
		if len(q) == 0 {
			q = append(q, lexref.Piece{Tok: lexref.Tok{Type: lexer.IDENTIFIER, Value: "x"}, Text: "x"})
			continue
		}
		i := gen.Uniform(t, len(q), "at")
		switch gen.Uniform(t, 6, "edit") {
		case 0:
			q = append(q[:i:i], q[i+1:]...)
		case 1:
			q = append(q[:i+1:i+1], q[i:]...)
		case 2:
			j := gen.Uniform(t, len(q), "with")
			q[i], q[j] = q[j], q[i]
		case 3:
			nl := lexref.Piece{Tok: lexref.Tok{Type: lexer.NEWLINE, Value: "\n"}, Text: "\n"}
			q = append(q[:i:i], append([]lexref.Piece{nl}, q[i:]...)...)
		case 4:
			w := gen.Pick(t, lexWords, "w")
			q[i] = lexref.Piece{Tok: lexref.Tok{Type: lexref.Words[w], Value: w}, Text: w}
		default:
			w := gen.Pick(t, lexOps, "o")
			q[i] = lexref.Piece{Tok: lexref.Tok{Type: lexref.Ops[w], Value: w}, Text: w}
		}
	}
	return joinPieces(q)
}

func joinPieces(q []lexref.Piece) string {
	var b strings.Builder
	for i, p := range q {
		if i > 0 && q[i-1].Type != lexer.NEWLINE && p.Type != lexer.NEWLINE {
			minus := q[i-1].Text == "-" && p.Type == lexer.NUMBER_LITERAL
			if !minus || i > 1 && lexref.EndsOperand(q[i-2].Type) {
				b.WriteByte(' ')
			}
		}
		b.WriteString(p.Text)
	}
	return b.String()
}

var _ = lang.TInt
