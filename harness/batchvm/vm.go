package batchvm

import (
	"fmt"
	"strconv"
	"strings"
)

type Opt struct {
	Stdin string
	Steps int
	// ForLines supplies the lines a FOR /F over a file ("file") or a command
	// ("command") sees; nil makes such loops unsupported.
	ForLines func(kind, arg string) []string
	// Exec is told about every external command; nil makes them unsupported.
	Exec func(cmd string) int
	// Exists answers IF EXIST; nil makes it unsupported.
	Exists func(path string) bool
	// Env is the environment the script starts with.
	Env map[string]string
}

type Res struct {
	Out, Err    string
	Status      int
	Unsupported string // the script leaves the modelled part of cmd.exe
	Timeout     bool
}

type abort struct{ kind, msg string }

type sig struct {
	kind  byte // 0 none, g goto, x exit
	label string
}

type frame struct {
	pos     int
	args    []string
	depth   int // setlocal depth at entry
	callNo  int
	forVars map[byte]string
}

type vm struct {
	lines  []string
	o      Opt
	env    []map[string]string // setlocal stack
	delay  []bool
	out    strings.Builder
	err    strings.Builder
	level  int
	steps  int
	stdin  []string
	frames int
}

// Run executes a script.
func Run(script string, o Opt) (r Res) {
	m := &vm{lines: splitLines(script), o: o, env: []map[string]string{{}}, delay: []bool{false}}
	for k, v := range o.Env {
		m.env[0][strings.ToUpper(k)] = v
	}
	if o.Steps == 0 {
		m.o.Steps = 20000000
	}
	if o.Stdin != "" {
		m.stdin = strings.Split(strings.TrimSuffix(o.Stdin, "\n"), "\n")
	}
	defer func() {
		r.Out, r.Err, r.Status = m.out.String(), m.err.String(), m.level
		if x := recover(); x != nil {
			switch e := x.(type) {
			case abort:
				switch e.kind {
				case "unsupported":
					r.Unsupported = e.msg
				case "timeout":
					r.Timeout = true
				default:
					r.Err += e.msg + "\n"
					r.Status = 255
				}
			case synErr:
				r.Err += "syntax error: " + e.Error() + "\n"
				r.Status = 255
			default:
				panic(x)
			}
		}
	}()
	m.frame(&frame{})
	return
}

func (m *vm) unsupported(f string, a ...any) { panic(abort{"unsupported", fmt.Sprintf(f, a...)}) }

func (m *vm) get(n string) (string, bool) {
	v, ok := m.env[len(m.env)-1][strings.ToUpper(n)]
	if !ok {
		// Dynamic variables, unless hidden by an explicit definition.
		switch strings.ToUpper(n) {
		case "ERRORLEVEL":
			return strconv.Itoa(m.level), true
		case "CD":
			return "C:\\work", true
		case "DATE":
			return "19.11.2026", true
		case "TIME":
			return "12:34:56,78", true
		case "RANDOM":
			return "12345", true
		case "CMDCMDLINE":
			return "cmd /c script.bat", true
		case "CMDEXTVERSION":
			return "2", true
		}
	}
	return v, ok
}

func (m *vm) set(n, v string) {
	e := m.env[len(m.env)-1]
	if v == "" {
		delete(e, strings.ToUpper(n))
	} else {
		if len(v) > 8000 {
			m.unsupported("value too long")
		}
		e[strings.ToUpper(n)] = v
	}
}

func (m *vm) frame(f *frame) {
	m.frames++
	if m.frames > 200 {
		m.unsupported("call depth")
	}
	defer func() { m.frames-- }()
	f.depth = len(m.env)
	for f.pos < len(m.lines) {
		p := &pr{lines: m.lines, pos: f.pos, expand: func(s string) string { return m.phase1(s, f) }}
		n, _, _ := p.statement()
		f.pos = p.pos
		if n == nil {
			m.tick()
			continue
		}
		s := m.exec(n, f)
		switch s.kind {
		case 'g':
			if s.label == "eof" {
				goto done
			}
			if !m.jump(f, s.label) {
				panic(abort{"fatal", "The system cannot find the batch label specified - " + s.label})
			}
		case 'x':
			goto done
		}
	}
done:
	// Returning from a call undoes the SETLOCALs it issued.
	for len(m.env) > f.depth && f.callNo > 0 {
		m.popEnv()
	}
}

func (m *vm) popEnv() {
	m.env = m.env[:len(m.env)-1]
	m.delay = m.delay[:len(m.delay)-1]
}

func (m *vm) jump(f *frame, label string) bool {
	find := func(a, b int) bool {
		for i := a; i < b && i < len(m.lines); i++ {
			l := strings.TrimLeft(m.lines[i], " \t,;=")
			if strings.HasPrefix(l, ":") && labelName(l) == label {
				f.pos = i + 1
				return true
			}
		}
		return false
	}
	return find(f.pos, len(m.lines)) || find(0, f.pos)
}

func (m *vm) tick() {
	m.steps++
	if m.steps > m.o.Steps {
		panic(abort{"timeout", ""})
	}
}

// phase1 is parse-time expansion of %.
func (m *vm) phase1(s string, f *frame) string {
	if !strings.Contains(s, "%") {
		return s
	}
	var b strings.Builder
	for i := 0; i < len(s); {
		if s[i] != '%' {
			b.WriteByte(s[i])
			i++
			continue
		}
		i++
		if i >= len(s) {
			break
		}
		arg := func(d byte) string {
			k := int(d - '0')
			if k == 0 {
				return "script.bat"
			}
			if k-1 < len(f.args) {
				return f.args[k-1]
			}
			return ""
		}
		switch c := s[i]; {
		case c == '%':
			b.WriteByte('%')
			i++
		case c == '*':
			b.WriteString(strings.Join(f.args, " "))
			i++
		case c >= '0' && c <= '9':
			b.WriteString(arg(c))
			i++
		case c == '~' && i+1 < len(s) && s[i+1] >= '0' && s[i+1] <= '9':
			b.WriteString(strings.Trim(arg(s[i+1]), `"`))
			i += 2
		default:
			j := strings.IndexByte(s[i:], '%')
			if j < 0 {
				continue // a single % disappears
			}
			name := s[i : i+j]
			i += j + 1
			v, rest, mod := name, "", false
			if k := strings.IndexByte(name, ':'); k > 0 {
				v, rest, mod = name[:k], name[k+1:], true
			}
			val, ok := m.get(v)
			if mod {
				if !ok {
					m.unsupported("%%%s%% with an undefined variable", name)
				}
				val = m.modify(val, rest)
			}
			b.WriteString(val)
		}
	}
	return b.String()
}

func (m *vm) modify(v, mod string) string {
	if !strings.HasPrefix(mod, "~") {
		m.unsupported("variable modifier %q", mod)
	}
	num := func(s string) int {
		s = strings.TrimSpace(s)
		if s == "" {
			return 0
		}
		n, err := strconv.Atoi(s)
		if err != nil {
			m.unsupported("variable modifier %q", mod)
		}
		return n
	}
	ps := strings.SplitN(mod[1:], ",", 2)
	a := num(ps[0])
	if a < 0 {
		a = max(0, len(v)+a)
	}
	a = min(a, len(v))
	e := len(v)
	if len(ps) == 2 {
		n := num(ps[1])
		if n < 0 {
			e = max(a, len(v)+n)
		} else {
			e = min(len(v), a+n)
		}
	}
	return v[a:e]
}

// phase5 is delayed expansion.
func (m *vm) phase5(s string) string {
	if !m.delay[len(m.delay)-1] || !strings.Contains(s, "!") {
		return s
	}
	var b strings.Builder
	for i := 0; i < len(s); {
		switch s[i] {
		case '^':
			i++
			if i < len(s) {
				b.WriteByte(s[i])
				i++
			}
		case '!':
			i++
			j := strings.IndexByte(s[i:], '!')
			if j < 0 {
				continue
			}
			name := s[i : i+j]
			i += j + 1
			v, rest, mod := name, "", false
			if k := strings.IndexByte(name, ':'); k > 0 {
				v, rest, mod = name[:k], name[k+1:], true
			}
			val, ok := m.get(v)
			if mod {
				if ok {
					val = m.modify(val, rest)
				} else {
					val = rest
				}
			}
			b.WriteString(val)
		default:
			b.WriteByte(s[i])
			i++
		}
	}
	return b.String()
}

// phase4 replaces FOR variables.
func phase4(s string, f *frame) string {
	if len(f.forVars) == 0 || !strings.Contains(s, "%") {
		return s
	}
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '%' && i+1 < len(s) {
			if v, ok := f.forVars[s[i+1]]; ok {
				b.WriteString(v)
				i++
				continue
			}
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

func (m *vm) text(s string, f *frame) string { return m.phase5(phase4(s, f)) }

func (m *vm) exec(n *node, f *frame) sig {
	m.tick()
	switch n.kind {
	case nRem:
		return sig{}
	case nBlock:
		for _, k := range n.kids {
			if s := m.exec(k, f); s.kind != 0 {
				return s
			}
		}
		return sig{}
	case nSeq:
		s := m.exec(n.kids[0], f)
		if s.kind != 0 {
			return s
		}
		switch n.op {
		case "&":
			return m.exec(n.kids[1], f)
		case "&&":
			if m.level == 0 {
				return m.exec(n.kids[1], f)
			}
			return sig{}
		case "||":
			if m.level != 0 {
				return m.exec(n.kids[1], f)
			}
			return sig{}
		}
		m.unsupported("pipe")
	case nIf:
		t := m.test(n.c, f) != n.c.not
		if t {
			return m.exec(n.kids[0], f)
		}
		if len(n.kids) > 1 {
			return m.exec(n.kids[1], f)
		}
		return sig{}
	case nFor:
		return m.forF(n, f)
	}
	return m.simple(n, f)
}

func (m *vm) test(c cond, f *frame) bool {
	a := m.text(c.a, f)
	switch c.kind {
	case "defined":
		_, ok := m.get(a)
		return ok
	case "exist":
		if m.o.Exists == nil {
			m.unsupported("IF EXIST")
		}
		return m.o.Exists(strings.Trim(a, `"`))
	case "errorlevel":
		k, _ := strconv.Atoi(a)
		return m.level >= k
	}
	b := m.text(c.b, f)
	if c.icase {
		a, b = strings.ToLower(a), strings.ToLower(b)
	}
	if c.op == "==" {
		return a == b
	}
	x, okx := ifNum(a)
	y, oky := ifNum(b)
	if a == "" || b == "" {
		// cmd.exe sees an incomplete comparison.
		panic(abort{"fatal", fmt.Sprintf("IF with an empty operand: %q %s %q", a, c.op, b)})
	}
	r := 0
	if okx && oky {
		r = x - y
	} else {
		r = strings.Compare(a, b)
		if c.op != "equ" && c.op != "neq" && !(isPrintableWord(a) && isPrintableWord(b)) {
			m.unsupported("string ordering of %q and %q", a, b)
		}
	}
	switch c.op {
	case "equ":
		return r == 0
	case "neq":
		return r != 0
	case "lss":
		return r < 0
	case "leq":
		return r <= 0
	case "gtr":
		return r > 0
	}
	return r >= 0
}

// isPrintableWord: strings whose order does not depend on the collation -
// quoted digit strings, which a wrong numeric comparison would produce.
func isPrintableWord(s string) bool {
	for _, c := range s {
		if (c < '0' || c > '9') && c != '"' {
			return false
		}
	}
	return true
}

func ifNum(s string) (int, bool) {
	if s == "" || strings.TrimLeft(s, "+-") == "" {
		return 0, false
	}
	v, err := strconv.ParseInt(s, 0, 64)
	if err != nil || strings.Contains(s, "_") || v > 1<<31-1 || v < -1<<31 {
		return 0, false
	}
	return int(v), true
}

func (m *vm) forF(n *node, f *frame) sig {
	set := strings.TrimSpace(m.text(n.fset, f))
	if n.fopts != "delims=" && n.fopts != "usebackq delims=" {
		m.unsupported("FOR /F options %q", n.fopts)
	}
	var lines []string
	switch {
	case n.fopts == "delims=" && len(set) >= 2 && set[0] == '"' && set[len(set)-1] == '"':
		lines = strings.Split(set[1:len(set)-1], "\n")
	case n.fopts == "delims=" && len(set) >= 2 && set[0] == '\'':
		if m.o.ForLines == nil {
			m.unsupported("FOR /F over a command")
		}
		lines = m.o.ForLines("command", set[1:len(set)-1])
	default:
		if m.o.ForLines == nil {
			m.unsupported("FOR /F over a file")
		}
		lines = m.o.ForLines("file", set)
	}
	old := f.forVars
	defer func() { f.forVars = old }()
	for _, l := range lines {
		if l == "" || l[0] == ';' {
			continue
		}
		nv := map[byte]string{n.fvar: l}
		for k, v := range old {
			if k != n.fvar {
				nv[k] = v
			}
		}
		f.forVars = nv
		if s := m.exec(n.kids[0], f); s.kind != 0 {
			return s
		}
	}
	return sig{}
}

func (m *vm) simple(n *node, f *frame) sig {
	t := strings.TrimLeft(phase4(n.text, f), " \t,;=@")
	name := cmdName(t)
	// Everything after the command name, delayed expansion done.
	rest := m.phase5(t[len(name):])
	if n.redir && name != "echo" {
		m.unsupported("redirection")
	}
	switch name {
	case "echo":
		m.echo(rest, n.redir)
		return sig{}
	case "setlocal":
		d := m.delay[len(m.delay)-1]
		if strings.EqualFold(strings.TrimSpace(rest), "enabledelayedexpansion") {
			d = true
		}
		c := map[string]string{}
		for k, v := range m.env[len(m.env)-1] {
			c[k] = v
		}
		m.env = append(m.env, c)
		m.delay = append(m.delay, d)
		return sig{}
	case "endlocal":
		if f.callNo == 0 && len(m.env) > 1 || len(m.env) > f.depth {
			m.popEnv()
		}
		return sig{}
	case "set":
		m.setCmd(rest)
		return sig{}
	case "goto":
		l := labelName(rest)
		if l == "" {
			panic(abort{"fatal", "GOTO without a label"})
		}
		return sig{'g', l}
	case "exit":
		a := strings.TrimSpace(rest)
		if !strings.HasPrefix(strings.ToLower(a), "/b") {
			m.unsupported("EXIT")
		}
		if a = strings.TrimSpace(a[2:]); a != "" {
			k, err := strconv.Atoi(a)
			if err != nil {
				m.unsupported("EXIT /B %s", a)
			}
			m.level = k
		}
		return sig{kind: 'x'}
	case "call":
		return m.call(strings.TrimLeft(rest, " \t,;="), f)
	}
	if m.o.Exec == nil {
		m.unsupported("command %q", name)
	}
	m.level = m.o.Exec(t[:len(name)] + rest)
	return sig{}
}

func (m *vm) call(t string, f *frame) sig {
	if strings.ContainsAny(t, "%^") {
		m.unsupported("CALL with %% or ^: %s", t)
	}
	if !strings.HasPrefix(t, ":") {
		if m.o.Exec == nil {
			m.unsupported("CALL of a command")
		}
		m.level = m.o.Exec(t)
		return sig{}
	}
	var ws []string
	for i := 0; i < len(t); {
		for i < len(t) && sep(t[i]) {
			i++
		}
		s := i
		q := false
		for i < len(t) && (q || !sep(t[i])) {
			if t[i] == '"' {
				q = !q
			}
			i++
		}
		if i > s {
			ws = append(ws, t[s:i])
		}
	}
	g := &frame{pos: f.pos, args: ws[1:], callNo: f.callNo + 1}
	l := labelName(ws[0])
	if l == "eof" {
		return sig{}
	}
	if !m.jump(g, l) {
		panic(abort{"fatal", "The system cannot find the batch label specified - " + l})
	}
	m.frame(g)
	return sig{}
}

func (m *vm) echo(rest string, redir bool) {
	if redir {
		m.unsupported("echo into a file")
	}
	if rest == "" || strings.TrimSpace(rest) == "" && rest[0] == ' ' {
		m.out.WriteString("ECHO is off.\n")
		return
	}
	switch rest[0] {
	case ' ', '\t', ',', ';', '=':
		w := strings.ToLower(strings.TrimSpace(rest))
		if w == "off" || w == "on" {
			return
		}
		if strings.HasPrefix(w, "/?") {
			m.unsupported("echo /?")
		}
		rest = rest[1:]
	case '(', '.', ':', '/', '\\', '+', '[', ']':
		rest = rest[1:]
	}
	m.out.WriteString(rest + "\n")
	if m.out.Len() > 1<<20 {
		panic(abort{"timeout", ""})
	}
}

func (m *vm) setCmd(rest string) {
	a := strings.TrimLeft(rest, " \t,;=")
	low := strings.ToLower(a)
	if strings.HasPrefix(low, "/a") {
		m.setA(strings.TrimSpace(a[2:]))
		return
	}
	prompt := false
	if strings.HasPrefix(low, "/p") {
		prompt = true
		a = strings.TrimLeft(a[2:], " \t")
	}
	if strings.HasPrefix(a, `"`) {
		a = a[1:]
		if k := strings.LastIndexByte(a, '"'); k >= 0 {
			a = a[:k]
		}
	}
	k := strings.IndexByte(a, '=')
	if k < 0 {
		m.unsupported("SET without =: %q", a)
	}
	if k == 0 {
		panic(abort{"fatal", "SET without a variable name"})
	}
	name, v := a[:k], a[k+1:]
	if prompt {
		if len(m.stdin) == 0 {
			m.level = 1
			return
		}
		if m.stdin[0] != "" {
			m.set(name, m.stdin[0])
		}
		m.stdin = m.stdin[1:]
		return
	}
	m.set(name, v)
}

// ------------------------------------------------------------------- SET /A

type arith struct {
	m *vm
	s string
	i int
}

func (m *vm) setA(e string) {
	e = strings.ReplaceAll(e, `"`, "")
	x := &arith{m: m, s: e}
	k := strings.IndexByte(e, '=')
	if k < 0 {
		m.unsupported("SET /A without assignment: %q", e)
	}
	name := strings.TrimSpace(e[:k])
	if name == "" || strings.ContainsAny(name, " +-*/%()") {
		m.unsupported("SET /A target %q", name)
	}
	x.i = k + 1
	v := x.sum()
	x.ws()
	if x.i < len(x.s) {
		panic(abort{"fatal", "SET /A: Missing operator in " + e})
	}
	m.set(name, strconv.Itoa(int(v)))
}

func (x *arith) ws() {
	for x.i < len(x.s) && (x.s[x.i] == ' ' || x.s[x.i] == '\t') {
		x.i++
	}
}

func (x *arith) peek() byte {
	x.ws()
	if x.i < len(x.s) {
		return x.s[x.i]
	}
	return 0
}

func (x *arith) sum() int32 {
	v := x.prod()
	for {
		switch x.peek() {
		case '+':
			x.i++
			v += x.prod()
		case '-':
			x.i++
			v -= x.prod()
		default:
			return v
		}
	}
}

func (x *arith) prod() int32 {
	v := x.unary()
	for {
		c := x.peek()
		if c != '*' && c != '/' && c != '%' {
			return v
		}
		x.i++
		r := x.unary()
		if c == '*' {
			v *= r
			continue
		}
		if r == 0 {
			panic(abort{"fatal", "Divide by zero error."})
		}
		if r == -1 && v == -1<<31 {
			x.m.unsupported("overflowing division")
		}
		if c == '/' {
			v /= r
		} else {
			v %= r
		}
	}
}

func (x *arith) unary() int32 {
	switch c := x.peek(); {
	case c == '-':
		x.i++
		return -x.unary()
	case c == '+':
		x.i++
		return x.unary()
	case c == '(':
		x.i++
		v := x.sum()
		if x.peek() != ')' {
			panic(abort{"fatal", "SET /A: Unbalanced parenthesis in " + x.s})
		}
		x.i++
		return v
	case c >= '0' && c <= '9':
		j := x.i
		for j < len(x.s) && (x.s[j] >= '0' && x.s[j] <= '9' || x.s[j] >= 'a' && x.s[j] <= 'z' || x.s[j] >= 'A' && x.s[j] <= 'Z' || x.s[j] == '_') {
			j++
		}
		v, err := strconv.ParseInt(x.s[x.i:j], 0, 64)
		if err != nil || strings.Contains(x.s[x.i:j], "_") || v > 1<<31-1 {
			panic(abort{"fatal", "SET /A: Invalid number " + x.s[x.i:j]})
		}
		x.i = j
		return int32(v)
	case c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
		j := x.i
		for j < len(x.s) && !strings.ContainsRune(" +-*/%()=<>&|^!~,", rune(x.s[j])) {
			j++
		}
		v, _ := x.m.get(x.s[x.i:j])
		x.i = j
		if v == "" {
			return 0
		}
		k, err := strconv.ParseInt(v, 0, 64)
		if err != nil || k > 1<<31-1 || k < -1<<31 {
			x.m.unsupported("SET /A on variable value %q", v)
		}
		return int32(k)
	}
	panic(abort{"fatal", "SET /A: Missing operand in " + x.s})
}
