// Package batchvm models the part of cmd.exe's batch processing that the
// Batch back-end relies on: line-wise parsing with parse-time %-expansion,
// blocks, IF/FOR, delayed !-expansion, label search, CALL frames and 32-bit
// SET /A. It also offers a static view of a script (Structure).
package batchvm

import (
	"fmt"
	"strings"
)

type nkind uint8

const (
	nSimple nkind = iota
	nBlock
	nIf
	nFor
	nSeq
	nRem
)

type cond struct {
	kind       string // cmp, defined, exist, errorlevel
	not, icase bool
	a, op, b   string
}

type node struct {
	kind  nkind
	line  int
	text  string // simple command, phase 2 done
	name  string
	c     cond
	kids  []*node // block/seq members; if: then[, else]; for: body
	fvar  byte
	fopts string
	fset  string
	redir bool
	op    string // sequence operator
	// static view
	labels []staticLabel
}

type staticLabel struct {
	name  string
	line  int
	chain []int
}

type synErr struct {
	line int
	msg  string
}

func (e synErr) Error() string { return fmt.Sprintf("line %d: %s", e.line+1, e.msg) }

const (
	eol = '\n'
	eof = 0
)

type pr struct {
	lines  []string
	pos    int // next line to read
	expand func(string) string
	cur    string
	i      int
	have   bool
	lbl    func(name string, line int, chain []int) // static
	jump   func(n *node, chain []int)
	chain  []int
	nchain int
	blocks []blockInfo // static: closed blocks
}

// blockInfo is the extent of a parenthesised block.
type blockInfo struct {
	id         int
	parents    []int
	start, end int   // lines
	last       *node // last command
}

func (p *pr) fail(f string, a ...any) { panic(synErr{p.pos - 1, fmt.Sprintf(f, a...)}) }

func (p *pr) nextLine() bool {
	if p.pos >= len(p.lines) {
		p.have = false
		return false
	}
	p.cur = p.expand(p.lines[p.pos])
	p.pos++
	p.i = 0
	p.have = true
	return true
}

func (p *pr) peek() byte {
	if !p.have || p.i >= len(p.cur) {
		return eol
	}
	return p.cur[p.i]
}

func sep(c byte) bool { return c == ' ' || c == '\t' || c == ',' || c == ';' || c == '=' }
func blank(c byte) bool {
	return c == ' ' || c == '\t'
}

func (p *pr) skip(f func(byte) bool) {
	for p.i < len(p.cur) && f(p.cur[p.i]) {
		p.i++
	}
}

// word looks at the next command word without consuming it.
func (p *pr) word() string {
	j := p.i
	for j < len(p.cur) && !strings.ContainsRune(" \t,;=()&|<>\"/.:+[]\\", rune(p.cur[j])) {
		j++
	}
	return strings.ToLower(p.cur[p.i:j])
}

// statement parses one complete command starting at line pos; nil for blank,
// label and stray ')' lines.
func (p *pr) statement() (n *node, label string, stray bool) {
	if !p.nextLine() {
		return nil, "", false
	}
	p.skip(func(c byte) bool { return sep(c) })
	if p.peek() == eol {
		return nil, "", false
	}
	if p.peek() == ':' {
		return nil, labelName(p.cur[p.i:]), false
	}
	if p.peek() == ')' {
		return nil, "", true
	}
	n = p.seq(0)
	if p.peek() == ')' {
		// Text after a complete command at depth 0.
		p.fail("unexpected )")
	}
	return n, "", false
}

func labelName(s string) string {
	s = strings.TrimLeft(s, " \t,;=")
	s = strings.TrimPrefix(s, ":")
	s = strings.TrimLeft(s, " \t,;=")
	j := strings.IndexAny(s, " \t,;=:+&|<>^()")
	if j >= 0 {
		s = s[:j]
	}
	return strings.ToLower(s)
}

func (p *pr) seq(depth int) *node {
	n := p.command(depth)
	for {
		p.skip(blank)
		c := p.peek()
		if c != '&' && c != '|' {
			return n
		}
		op := string(c)
		p.i++
		if p.peek() == c {
			op += string(c)
			p.i++
		}
		p.skip(sep)
		if p.peek() == eol {
			p.fail("command expected after %s", op)
		}
		r := p.seq(depth)
		n = &node{kind: nSeq, op: op, line: n.line, kids: []*node{n, r}}
		return n
	}
}

func (p *pr) command(depth int) *node {
	p.skip(func(c byte) bool { return sep(c) || c == '@' })
	line := p.pos - 1
	if p.peek() == '(' {
		p.i++
		b := p.block(depth + 1)
		b.line = line
		p.skip(blank)
		if c := p.peek(); c == '>' || c == '<' {
			b.redir = true
			p.redirection()
		}
		return b
	}
	switch w := p.word(); w {
	case "if":
		p.i += 2
		return p.ifCmd(depth, line)
	case "for":
		p.i += 3
		return p.forCmd(depth, line)
	case "rem":
		p.i = len(p.cur)
		return &node{kind: nRem, line: line}
	}
	return p.simple(depth, line)
}

func (p *pr) redirection() {
	for p.peek() == '>' || p.peek() == '<' || p.peek() == '&' {
		p.i++
	}
	p.skip(sep)
	q := false
	start := p.i
	for p.i < len(p.cur) {
		c := p.cur[p.i]
		if c == '"' {
			q = !q
		} else if !q && (sep(c) || strings.IndexByte("&|<>()", c) >= 0) {
			break
		}
		p.i++
	}
	if p.i == start {
		p.fail("redirection without a target")
	}
}

func (p *pr) simple(depth, line int) *node {
	n := &node{kind: nSimple, line: line}
	var b strings.Builder
	q := false
	for {
		c := p.peek()
		if c == eol {
			break
		}
		if c == '"' {
			q = !q
		}
		if !q {
			if c == '^' {
				p.i++
				if p.i >= len(p.cur) {
					// Escaped line end: the next line's first character is literal.
					if !p.nextLine() {
						break
					}
					if len(p.cur) == 0 {
						b.WriteByte('\n')
						if !p.nextLine() {
							break
						}
						// The line end after the escaped one terminates the command.
						p.i = 0
						n.text = b.String()
						n.name = cmdName(n.text)
						p.static(n)
						return n
					}
					b.WriteByte(p.cur[0])
					p.i = 1
					continue
				}
				b.WriteByte(p.cur[p.i])
				p.i++
				continue
			}
			if c == '&' || c == '|' || (c == ')' && depth > 0) {
				break
			}
			if c == '<' || c == '>' {
				n.redir = true
				p.redirection()
				continue
			}
		}
		b.WriteByte(c)
		p.i++
	}
	n.text = b.String()
	n.name = cmdName(n.text)
	if strings.TrimSpace(n.text) == "" {
		p.fail("command expected")
	}
	p.static(n)
	return n
}

func (p *pr) static(n *node) {
	if p.jump != nil {
		p.jump(n, append([]int{}, p.chain...))
	}
}

func cmdName(s string) string {
	s = strings.TrimLeft(s, " \t,;=@")
	j := strings.IndexAny(s, " \t,;=()\"/.:+[]\\")
	if j >= 0 {
		s = s[:j]
	}
	return strings.ToLower(s)
}

func (p *pr) block(depth int) *node {
	b := &node{kind: nBlock, line: p.pos - 1}
	p.nchain++
	id := p.nchain
	parents := append([]int{}, p.chain...)
	p.chain = append(p.chain, p.nchain)
	defer func() { p.chain = p.chain[:len(p.chain)-1] }()
	start := p.pos - 1
	afterLabel := false
	fresh := false // at the beginning of a line
	for {
		p.skip(sep)
		switch c := p.peek(); {
		case c == eol:
			if !p.nextLine() {
				panic(synErr{start, "block is not closed"})
			}
			fresh = true
			continue
		case c == ')':
			if afterLabel {
				p.fail("label directly before )")
			}
			if len(b.kids) == 0 {
				p.fail("empty block")
			}
			p.i++
			if p.lbl != nil {
				p.blocks = append(p.blocks, blockInfo{id, parents, start, p.pos - 1, b.kids[len(b.kids)-1]})
			}
			return b
		case c == ':' && fresh:
			if afterLabel {
				p.fail("two consecutive labels inside a block")
			}
			if p.lbl != nil {
				p.lbl(labelName(p.cur[p.i:]), p.pos-1, append([]int{}, p.chain...))
			}
			p.i = len(p.cur)
			afterLabel = true
			continue
		case c == '&' || c == '|':
			p.fail("unexpected %c", c)
		}
		afterLabel = false
		fresh = false
		k := p.seq(depth)
		b.kids = append(b.kids, k)
		p.skip(blank)
		if c := p.peek(); c != eol && c != ')' {
			p.fail("unexpected text %q", p.cur[p.i:])
		}
	}
}

func (p *pr) ifTok() string {
	p.skip(sep)
	start := p.i
	q := false
	for p.i < len(p.cur) {
		c := p.cur[p.i]
		if c == '"' {
			q = !q
		} else if !q && (sep(c) || c == '(' || c == ')' || c == '&' || c == '|' || c == '<' || c == '>') {
			break
		}
		p.i++
	}
	if p.i == start {
		p.fail("IF operand expected")
	}
	if q {
		p.fail("unbalanced quote in IF")
	}
	return p.cur[start:p.i]
}

func (p *pr) ifCmd(depth, line int) *node {
	n := &node{kind: nIf, line: line}
	for {
		p.skip(sep)
		if strings.HasPrefix(strings.ToLower(p.cur[p.i:]), "/i") {
			p.i += 2
			n.c.icase = true
			continue
		}
		if p.word() == "not" {
			p.i += 3
			n.c.not = true
			continue
		}
		break
	}
	switch w := p.word(); w {
	case "defined", "exist", "errorlevel":
		p.i += len(w)
		n.c.kind = w
		n.c.a = p.ifTok()
	default:
		n.c.kind = "cmp"
		n.c.a = p.ifTok()
		p.skip(blank)
		if strings.HasPrefix(p.cur[p.i:], "==") {
			p.i += 2
			n.c.op = "=="
		} else {
			n.c.op = strings.ToLower(p.ifTok())
			switch n.c.op {
			case "equ", "neq", "lss", "leq", "gtr", "geq":
			default:
				p.fail("IF operator expected, got %q", n.c.op)
			}
		}
		n.c.b = p.ifTok()
	}
	p.skip(sep)
	if p.peek() == eol {
		p.fail("IF without a command")
	}
	if p.peek() != '(' {
		n.kids = append(n.kids, p.seq(depth))
		return n
	}
	n.kids = append(n.kids, p.command(depth))
	p.skip(blank)
	if p.word() == "else" {
		p.i += 4
		p.skip(sep)
		if p.peek() == eol {
			p.fail("ELSE without a command")
		}
		if p.peek() == '(' {
			n.kids = append(n.kids, p.command(depth))
		} else {
			n.kids = append(n.kids, p.seq(depth))
		}
	}
	return n
}

func (p *pr) forCmd(depth, line int) *node {
	n := &node{kind: nFor, line: line}
	p.skip(sep)
	if !strings.HasPrefix(strings.ToLower(p.cur[p.i:]), "/f") {
		p.fail("unsupported FOR")
	}
	p.i += 2
	p.skip(sep)
	if p.peek() == '"' {
		j := strings.IndexByte(p.cur[p.i+1:], '"')
		if j < 0 {
			p.fail("unbalanced quote in FOR")
		}
		n.fopts = p.cur[p.i+1 : p.i+1+j]
		p.i += j + 2
		p.skip(sep)
	}
	if p.peek() != '%' || p.i+1 >= len(p.cur) {
		p.fail("FOR variable expected")
	}
	n.fvar = p.cur[p.i+1]
	p.i += 2
	p.skip(sep)
	if p.word() != "in" {
		p.fail("IN expected")
	}
	p.i += 2
	p.skip(sep)
	if p.peek() != '(' {
		p.fail("( expected in FOR")
	}
	p.i++
	start := p.i
	q := false
	for {
		if p.i >= len(p.cur) {
			p.fail("FOR set is not closed")
		}
		c := p.cur[p.i]
		if c == '"' {
			q = !q
		} else if c == ')' && !q {
			break
		}
		p.i++
	}
	n.fset = p.cur[start:p.i]
	p.i++
	p.skip(sep)
	if p.word() != "do" {
		p.fail("DO expected")
	}
	p.i += 2
	p.skip(sep)
	if p.peek() == eol {
		p.fail("DO without a command")
	}
	n.kids = []*node{p.seq(depth)}
	return n
}

func splitLines(s string) []string {
	ls := strings.Split(s, "\n")
	for i := range ls {
		ls[i] = strings.TrimSuffix(ls[i], "\r")
	}
	if n := len(ls); n > 0 && ls[n-1] == "" {
		ls = ls[:n-1]
	}
	return ls
}
