package batchvm

import (
	"fmt"
	"sort"
	"strings"
)

// Structure parses the whole script without running it and reports what makes
// it malformed: syntax errors, unbalanced blocks, duplicate or missing labels,
// routines that are never used, jumps that leave the construct or routine they
// belong to. It returns the problems found and some counts.
type Shape struct {
	Problems []string
	Labels   int
	Gotos    int
	Calls    int
	Blocks   int
	Routines int
	// Stray: jumps to the end of a branch construct other than the innermost
	// one. Only a break in a switch has a use for them.
	Stray []string
}

type sLabel struct {
	line  int
	chain []int
}

type sJump struct {
	line   int
	target string
	chain  []int
	call   bool
	stmt   int // index of the statement it is part of
}

type sStmt struct {
	line  int
	label string // label statement
	node  *node
	jumps []sJump
	stops bool // control never continues behind it
	exits bool // exit /B at depth 0
}

// static expansion of %: only %% and arguments matter for the structure.
func staticExpand(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		if s[i] != '%' {
			b.WriteByte(s[i])
			i++
			continue
		}
		i++
		switch {
		case i >= len(s):
		case s[i] == '%':
			b.WriteByte('%')
			i++
		case s[i] >= '0' && s[i] <= '9':
			b.WriteByte('0')
			i++
		case s[i] == '~' && i+1 < len(s) && s[i+1] >= '0' && s[i+1] <= '9':
			b.WriteByte('0')
			i += 2
		default:
			if j := strings.IndexByte(s[i:], '%'); j >= 0 {
				i += j + 1
				b.WriteByte('0')
			}
		}
	}
	return b.String()
}

func Structure(script string) (sh Shape) {
	bad := func(f string, a ...any) { sh.Problems = append(sh.Problems, fmt.Sprintf(f, a...)) }
	lines := splitLines(script)
	p := &pr{lines: lines, expand: staticExpand}
	labels := map[string]sLabel{}
	var stmts []*sStmt
	var cur *sStmt
	addLabel := func(name string, line int, chain []int) {
		if name == "" {
			return // ":: comment"
		}
		if old, ok := labels[name]; ok {
			bad("line %d: label :%s is defined again (first in line %d)", line+1, name, old.line+1)
			return
		}
		if name == "eof" {
			bad("line %d: label :eof is reserved", line+1)
		}
		labels[name] = sLabel{line, chain}
		sh.Labels++
	}
	p.lbl = func(name string, line int, chain []int) { addLabel(name, line, chain) }
	p.jump = func(n *node, chain []int) {
		if cur == nil {
			return
		}
		t := strings.TrimLeft(n.text, " \t,;=@")
		switch n.name {
		case "goto":
			l := labelName(t[4:])
			if l == "" {
				bad("line %d: goto without a label", n.line+1)
				return
			}
			sh.Gotos++
			cur.jumps = append(cur.jumps, sJump{n.line, l, chain, false, len(stmts)})
		case "call":
			a := strings.TrimLeft(t[4:], " \t,;=")
			if strings.HasPrefix(a, ":") {
				sh.Calls++
				cur.jumps = append(cur.jumps, sJump{n.line, labelName(a), chain, true, len(stmts)})
			}
		}
	}
	ok := func() (ok bool) {
		defer func() {
			if r := recover(); r != nil {
				e, is := r.(synErr)
				if !is {
					panic(r)
				}
				bad("%s", e.Error())
				ok = false
			}
		}()
		for p.pos < len(lines) {
			cur = &sStmt{line: p.pos}
			n, label, stray := p.statement()
			if stray {
				bad("line %d: ) without a block", cur.line+1)
				continue
			}
			if n == nil {
				if label != "" {
					addLabel(label, cur.line, nil)
					cur.label = label
					stmts = append(stmts, cur)
				}
				continue
			}
			if n.kind == nRem {
				continue
			}
			cur.node = n
			cur.stops, cur.exits = stops(n)
			stmts = append(stmts, cur)
		}
		return true
	}()
	sh.Blocks = p.nchain
	if !ok {
		return
	}
	at := map[string]int{} // label -> statement index
	for i, s := range stmts {
		if s.label != "" {
			if _, dup := at[s.label]; !dup {
				at[s.label] = i
			}
		}
	}
	lineStmt := func(line int) int {
		k := -1
		for i, s := range stmts {
			if s.line <= line {
				k = i
			}
		}
		return k
	}
	for n, l := range labels {
		if _, ok := at[n]; !ok {
			at[n] = lineStmt(l.line)
		}
	}
	// Targets exist; jumps stay inside the block structure.
	callTargets := map[string]bool{}
	gotoTargets := map[string]bool{}
	for _, s := range stmts {
		for _, j := range s.jumps {
			l, ok := labels[j.target]
			if !ok {
				if j.target != "eof" {
					kind := "goto"
					if j.call {
						kind = "call"
					}
					bad("line %d: %s to undefined label :%s", j.line+1, kind, j.target)
				}
				continue
			}
			if j.call {
				callTargets[j.target] = true
				if len(l.chain) > 0 {
					bad("line %d: call of :%s, which is inside a block", j.line+1, j.target)
				}
				continue
			}
			gotoTargets[j.target] = true
			if len(l.chain) > len(j.chain) {
				bad("line %d: goto :%s jumps into a block", j.line+1, j.target)
				continue
			}
			for k := range l.chain {
				if l.chain[k] != j.chain[k] {
					bad("line %d: goto :%s jumps into another block", j.line+1, j.target)
					break
				}
			}
		}
	}
	if len(sh.Problems) > 0 {
		return
	}
	constructs(&sh, p.blocks, labels, callTargets, stmts)
	if len(sh.Problems) > 0 {
		return
	}
	// Control flow: which statements each routine consists of.
	succ := func(i int) (r []int, exit, falls bool) {
		s := stmts[i]
		for _, j := range s.jumps {
			if !j.call && j.target != "eof" {
				r = append(r, at[j.target])
			}
			if !j.call && j.target == "eof" {
				exit = true
			}
		}
		if s.node != nil && mayExit(s.node) {
			exit = true
		}
		if !s.stops {
			if i+1 < len(stmts) {
				r = append(r, i+1)
			} else {
				falls = true
			}
		}
		return
	}
	owner := make([]string, len(stmts))
	entries := []string{""}
	for t := range callTargets {
		entries = append(entries, t)
	}
	sh.Routines = len(callTargets)
	// The end of the script, where a panic leads, belongs to everybody: it is
	// what follows the last label at the top level in main's control flow.
	reach := func(start int) map[int]bool {
		m := map[int]bool{}
		todo := []int{start}
		for len(todo) > 0 {
			i := todo[len(todo)-1]
			todo = todo[:len(todo)-1]
			if i < 0 || i >= len(stmts) || m[i] {
				continue
			}
			m[i] = true
			n, _, _ := succ(i)
			todo = append(todo, n...)
		}
		return m
	}
	common := map[int]bool{}
	for i := len(stmts) - 1; i >= 0; i-- {
		common[i] = true
		if stmts[i].label != "" && len(stmts) > i+1 {
			break
		}
	}
	for _, e := range entries {
		start := 0
		if e != "" {
			start = at[e]
		}
		who := "the main program"
		if e != "" {
			who = "routine :" + e
		}
		for i := range reach(start) {
			_, _, falls := succ(i)
			if common[i] {
				continue
			}
			if falls {
				bad("line %d: %s runs off the end of the script", stmts[i].line+1, who)
			}
			if owner[i] != "" && owner[i] != who {
				bad("line %d: reached from %s and from %s without a call", stmts[i].line+1, owner[i], who)
			}
			owner[i] = who
		}
		if len(sh.Problems) > 0 {
			return
		}
	}
	// Routines nobody uses.
	for i, s := range stmts {
		if s.label == "" || i == 0 || callTargets[s.label] || gotoTargets[s.label] {
			continue
		}
		prev := stmts[i-1]
		skipped := prev.exits
		if !skipped && prev.node != nil && prev.node.kind == nSimple && prev.node.name == "goto" && len(prev.jumps) == 1 {
			if k, ok := at[prev.jumps[0].target]; ok && k > i && k > 0 {
				skipped = stmts[k-1].exits
			}
		}
		if skipped {
			bad("line %d: routine :%s is never used", s.line+1, s.label)
		}
	}
	return
}

// stops: control does not continue behind the node.
func stops(n *node) (bool, bool) {
	switch n.kind {
	case nSimple:
		if n.name == "goto" {
			return true, false
		}
		if n.name == "exit" {
			return true, true
		}
	case nSeq:
		for _, k := range n.kids {
			if s, e := stops(k); s && n.op == "&" {
				return s, e
			}
		}
	case nBlock:
		for _, k := range n.kids {
			if s, e := stops(k); s {
				return s, e
			}
		}
	case nIf:
		if len(n.kids) == 2 {
			a, _ := stops(n.kids[0])
			b, _ := stops(n.kids[1])
			return a && b, false
		}
	}
	return false, false
}

func mayExit(n *node) bool {
	if n.kind == nSimple {
		return n.name == "exit"
	}
	for _, k := range n.kids {
		if mayExit(k) {
			return true
		}
	}
	return false
}

// construct: the blocks of one if/else-if/else chain.
type construct struct {
	parents    []int
	start, end int
	ids        map[int]bool
	blocks     []blockInfo
	loop       string // label its last command leads back to
	after      string // label directly behind it
}

func sameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// constructs checks that jumps to the head or the end of a loop come from that
// loop and no inner one, and records jumps to the end of a branch that come
// from an inner branch.
func constructs(sh *Shape, blocks []blockInfo, labels map[string]sLabel, calls map[string]bool, stmts []*sStmt) {
	sort.Slice(blocks, func(i, j int) bool { return blocks[i].id < blocks[j].id })
	var cs []*construct
	for _, b := range blocks {
		joined := false
		for _, c := range cs {
			if sameInts(c.parents, b.parents) && c.end == b.start {
				c.ids[b.id] = true
				c.end = b.end
				c.blocks = append(c.blocks, b)
				joined = true
				break
			}
		}
		if !joined {
			cs = append(cs, &construct{parents: b.parents, start: b.start, end: b.end, ids: map[int]bool{b.id: true}, blocks: []blockInfo{b}})
		}
	}
	byBlock := map[int]*construct{}
	head, after := map[string]*construct{}, map[string]*construct{}
	for _, c := range cs {
		for id := range c.ids {
			byBlock[id] = c
		}
		if c.start == c.end {
			continue
		}
		for _, b := range c.blocks {
			if b.last.kind == nSimple && b.last.name == "goto" {
				l := labelName(strings.TrimLeft(b.last.text, " \t,;=@")[4:])
				if at, ok := labels[l]; ok && at.line < c.start && sameInts(at.chain, c.parents) {
					c.loop = l
					head[l] = c
				}
			}
		}
		for n, l := range labels {
			if l.line == c.end+1 && sameInts(l.chain, c.parents) && !calls[n] {
				c.after = n
				after[n] = c
			}
		}
	}
	for _, s := range stmts {
		for _, j := range s.jumps {
			if j.call || len(j.chain) == 0 {
				continue
			}
			var loop *construct // innermost one around the jump
			for k := len(j.chain) - 1; k >= 0 && loop == nil; k-- {
				if c := byBlock[j.chain[k]]; c != nil && c.loop != "" {
					loop = c
				}
			}
			c := head[j.target]
			if c == nil {
				c = after[j.target]
			}
			if c == nil {
				continue
			}
			inside := false
			for _, id := range j.chain {
				inside = inside || c.ids[id]
			}
			switch {
			case c.loop != "":
				if inside && loop != c {
					sh.Problems = append(sh.Problems, fmt.Sprintf("line %d: goto :%s leaves the loop of line %d for another one", j.line+1, j.target, loop.start+1))
				}
			case !c.ids[j.chain[len(j.chain)-1]]:
				sh.Stray = append(sh.Stray, fmt.Sprintf("line %d: goto :%s leads to the end of a branch it is not directly part of", j.line+1, j.target))
			}
		}
	}
}
