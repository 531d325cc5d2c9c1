package checks

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"testing"

	"tshverif/gen"
	"tshverif/h"

	"pgregory.net/rapid"
)

// AppCase: a program that calls stand-in programs, and what they must get.
type AppCase struct {
	Chains []AppChain
	Stdin  h.Text
}

type AppChain struct {
	Stages  []AppStage
	Capture int // 0: not captured, 1: new variables, 2: existing ones, 3: in a function, 4: blank-free reuse in a loop
	Func    bool
	Times   int // inside a loop
}

type AppStage struct {
	Prog int // index of the stand-in's name
	Args []AppArg
	Read bool
	Pre  h.Text
	Suf  h.Text
	Exit int
	Err  bool // writes a line to standard error
}

// What a stand-in writes to its standard error: never part of the data.
const probeErr = "probe complains\n"

type AppArg struct {
	V    h.Text
	Form int
}

var appKind = h.NewKind("apps", checkApps)

// Names of the stand-ins; the odd ones are called by path.
var probeNames = []string{"p0", "p1", "probe2", "P3", "p_4", "p5", "p 6", "p$7", "p'8", "p;9", "p*a", "p`b", "-pc", "p\"d", "p\\e", "(pf)", "p&g", "~ph", "p#i", "pé"}

const (
	argLit = iota
	argVar
	argRaw
	argConcat
	argCall
	argElem
	argParam
	argGroup
	nArgForms
)

type probeRec struct {
	Args  []string
	Stdin string
}

// program returns the source, the expected standard output, the expected
// records per stand-in and the stand-ins' control data.
func (c AppCase) program() (src, want string, recs map[string][]probeRec, ctl map[string]AppStage) {
	recs = map[string][]probeRec{}
	ctl = map[string]AppStage{}
	stdin := string(c.Stdin)
	var top, s, w strings.Builder
	top.WriteString("func id(v string) string {\nreturn v\n}\n")
	for k, ch := range c.Chains {
		var defs, call strings.Builder
		var params, given []string
		noisy := false
		for i, st := range ch.Stages {
			if i > 0 {
				call.WriteString(" | ")
			}
			n := probeNames[st.Prog]
			noisy = noisy || st.Err
			if st.Prog < 6 {
				call.WriteString("@" + n)
			} else if strings.ContainsAny(n, "`") || st.Exit%2 == 0 {
				call.WriteString("@" + asciiLit("./"+n))
			} else {
				call.WriteString("@`./" + n + "`")
			}
			call.WriteString("(")
			for j, a := range st.Args {
				if j > 0 {
					call.WriteString(", ")
				}
				v := string(a.V)
				name := fmt.Sprintf("v%d_%d_%d", k, i, j)
				f := a.Form
				if f == argRaw && strings.ContainsAny(v, "`") || f == argParam && !ch.Func {
					f = argLit
				}
				switch f {
				case argVar:
					fmt.Fprintf(&defs, "%s := %s\n", name, asciiLit(v))
					call.WriteString(name)
				case argRaw:
					call.WriteString("`" + v + "`")
				case argConcat:
					fmt.Fprintf(&defs, "%s := %s\n", name, asciiLit(v[:len(v)/2]))
					call.WriteString(name + " + " + asciiLit(v[len(v)/2:]))
				case argCall:
					call.WriteString("id(" + asciiLit(v) + ")")
				case argElem:
					fmt.Fprintf(&defs, "%s := []string{\"x\", %s}\n", name, asciiLit(v))
					call.WriteString(name + "[1]")
				case argParam:
					params = append(params, name+" string")
					given = append(given, asciiLit(v))
					call.WriteString(name)
				case argGroup:
					call.WriteString("(" + asciiLit(v) + ")")
				default:
					call.WriteString(asciiLit(v))
				}
			}
			call.WriteString(")")
			ctl[n] = st
		}
		o, e, x := fmt.Sprintf("o%d", k), fmt.Sprintf("e%d", k), fmt.Sprintf("x%d", k)
		var body strings.Builder
		body.WriteString(defs.String())
		times := ch.Times
		if times > 1 {
			if ch.Capture == 2 {
				fmt.Fprintf(&body, "var %s, %s string\nvar %s int\n", o, e, x)
			}
			fmt.Fprintf(&body, "for i%d := 0; i%d < %d; i%d++ {\n", k, k, times, k)
		} else {
			times = 1
			if ch.Capture == 2 {
				fmt.Fprintf(&body, "var %s, %s string\nvar %s int\n", o, e, x)
			}
		}
		switch ch.Capture {
		case 0:
			body.WriteString(call.String() + "\n")
		case 2:
			fmt.Fprintf(&body, "%s, %s, %s = %s\n", o, e, x, call.String())
		default:
			fmt.Fprintf(&body, "%s, %s, %s := %s\n", o, e, x, call.String())
		}
		if ch.Capture > 0 {
			if noisy {
				// Where a command's standard error goes is not specified.
				fmt.Fprintf(&body, "%s = \"\"\n", e)
			}
			fmt.Fprintf(&body, "print(\"<\" + %s + \">\", \"[\" + %s + \"]\", %s, %s + 1, len(%s))\n", o, e, x, x, o)
		}
		fmt.Fprintf(&body, "print(\"after %d\")\n", k)
		if times > 1 {
			body.WriteString("}\n")
		}
		if ch.Func {
			fmt.Fprintf(&top, "func run%d(%s) {\n%s}\n", k, strings.Join(params, ", "), body.String())
			fmt.Fprintf(&s, "run%d(%s)\n", k, strings.Join(given, ", "))
		} else {
			s.WriteString(body.String())
		}
		for ; times > 0; times-- {
			data := ""
			for i, st := range ch.Stages {
				r := probeRec{Args: []string{}}
				for _, a := range st.Args {
					r.Args = append(r.Args, string(a.V))
				}
				if st.Read {
					if i == 0 {
						r.Stdin = stdin
						stdin = ""
					} else {
						r.Stdin = data
					}
				}
				n := probeNames[st.Prog]
				recs[n] = append(recs[n], r)
				data = string(st.Pre) + r.Stdin + string(st.Suf)
			}
			last := ch.Stages[len(ch.Stages)-1]
			if ch.Capture == 0 {
				w.WriteString(data)
			} else {
				v := strings.TrimSuffix(data, "\n")
				fmt.Fprintf(&w, "<%s> [] %d %d %d\n", v, last.Exit, last.Exit+1, len(v))
			}
			fmt.Fprintf(&w, "after %d\n", k)
		}
	}
	return top.String() + s.String(), w.String(), recs, ctl
}

func checkApps(c AppCase) string {
	src, want, recs, ctl := c.program()
	o := h.TranspileSource(src, "bash")
	if r := o.Rejected(); r != "" {
		return "program is not accepted: " + r + "\n" + src
	}
	work := os.Getenv("VERIF_WORK")
	if work == "" {
		h.Infra("VERIF_WORK is not set")
	}
	bin, pdir := freshDir("appcwd"), freshDir("appdata")
	for n, st := range ctl {
		if err := os.Symlink(filepath.Join(work, "probe"), filepath.Join(bin, n)); err != nil {
			h.Infra("%v", err)
		}
		b, _ := json.Marshal(map[string]any{"Read": st.Read, "Prefix": string(st.Pre), "Suffix": string(st.Suf), "Exit": st.Exit, "Err": map[bool]string{true: probeErr}[st.Err]})
		if err := os.WriteFile(filepath.Join(pdir, n+".ctl"), b, 0o644); err != nil {
			h.Infra("%v", err)
		}
	}
	// Files an unquoted pattern would match.
	for _, n := range []string{"a", "b", "-n", "zz"} {
		if err := os.WriteFile(filepath.Join(bin, n), nil, 0o644); err != nil {
			h.Infra("%v", err)
		}
	}
	before := dirNames(bin)
	r := h.Bash(o.Script, h.RunOpt{Dir: bin, Stdin: string(c.Stdin), Env: []string{"PATH=" + bin + ":/usr/local/bin:/usr/bin:/bin", "PROBE_DIR=" + pdir, "a=LEAK", "x=LEAK"}})
	tail := "\n--- source\n" + src + "\n--- script\n" + o.Script
	if r.Signal != "" {
		return "script does not terminate normally (" + r.Signal + ")" + tail
	}
	if after := dirNames(bin); after != before {
		return "the script changed its directory: " + h.Diff(before, after) + tail
	}
	for n := range ctl {
		var got []probeRec
		b, _ := os.ReadFile(filepath.Join(pdir, n+".log"))
		for _, l := range strings.Split(strings.TrimSuffix(string(b), "\n"), "\n") {
			if l == "" {
				continue
			}
			var p probeRec
			if err := json.Unmarshal([]byte(l), &p); err != nil {
				h.Infra("probe log: %v", err)
			}
			got = append(got, p)
		}
		if len(got) != len(recs[n]) {
			return fmt.Sprintf("program %q ran %d times, want %d%s", n, len(got), len(recs[n]), tail)
		}
		for i := range got {
			if !reflect.DeepEqual(got[i].Args, recs[n][i].Args) {
				return fmt.Sprintf("program %q got the arguments %q, want %q%s", n, got[i].Args, recs[n][i].Args, tail)
			}
			if got[i].Stdin != recs[n][i].Stdin {
				return fmt.Sprintf("program %q got the standard input %q, want %q%s", n, got[i].Stdin, recs[n][i].Stdin, tail)
			}
		}
	}
	if strings.ReplaceAll(r.Stderr, probeErr, "") != "" {
		return "script writes to standard error: " + r.Stderr + tail
	}
	if r.Stdout != want {
		return "output differs: " + h.Diff(want, r.Stdout) + tail
	}
	if r.Status != 0 {
		return fmt.Sprintf("exit status %d%s", r.Status, tail)
	}
	return ""
}

func TestC18(t *testing.T) {
	h.Check(t, func(t *rapid.T) {
		var c AppCase
		var special, pipe, capture bool
		perm := rapid.Permutation(func() []int {
			r := make([]int, len(probeNames))
			for i := range r {
				r[i] = i
			}
			return r
		}()).Draw(t, "programs")
		if gen.Uniform(t, 3, "plain") > 0 {
			perm = rapid.Permutation([]int{0, 1, 2, 3, 4, 5}).Draw(t, "plain programs")
		}
		if gen.Uniform(t, 3, "stdin") == 0 {
			c.Stdin = h.Text(dataValue(t, true) + gen.Pick(t, []string{"", "\n", "\n\n", "\nmore \n"}, "stdinend"))
		}
		n := gen.Uniform(t, 3, "chains") + 1
		for i := 0; i < n && len(perm) > 0; i++ {
			ch := AppChain{Capture: gen.Uniform(t, 3, "capture"), Func: rapid.Bool().Draw(t, "func"), Times: 1}
			if gen.Uniform(t, 4, "loop") == 0 {
				ch.Times = 2
			}
			ns := gen.Pick(t, []int{1, 1, 1, 2, 2, 3, 4}, "stages")
			for ; ns > 0 && len(perm) > 0; ns-- {
				st := AppStage{Prog: perm[0]}
				perm = perm[1:]
				na := gen.Pick(t, []int{0, 1, 1, 2, 2, 3, 4, 11}, "args")
				for ; na > 0; na-- {
					v := dataValue(t, true)
					if gen.Uniform(t, 10, "unicode") == 0 {
						v += gen.Pick(t, []string{"é", "日本", "ß x", "\u00a0"}, "rune")
					}
					if v == "" || strings.ContainsAny(v, " \"\\$`'*?[]{};&|<>#~\t\n") {
						special = true
					}
					st.Args = append(st.Args, AppArg{h.Text(v), gen.Uniform(t, nArgForms, "form")})
				}
				st.Read = len(ch.Stages) > 0 && gen.Uniform(t, 6, "unread") > 0 || len(ch.Stages) == 0 && gen.Uniform(t, 5, "read") == 0
				if gen.Uniform(t, 4, "out") > 0 {
					st.Pre = h.Text(dataValue(t, true))
				}
				st.Suf = h.Text(gen.Pick(t, []string{"", "\n", "\n", "\n", "\n\n", "\n\n\n", " ", " \n", "\t\n", "x", "_", "\n_", "_\n", "\\", "\\\n"}, "end"))
				if gen.Uniform(t, 3, "fail") == 0 {
					st.Exit = gen.Pick(t, []int{1, 2, 3, 7, 42, 126, 127, 128, 141, 200, 254, 255}, "status")
				}
				st.Err = gen.Uniform(t, 5, "stderr") == 0
				ch.Stages = append(ch.Stages, st)
			}
			pipe = pipe || len(ch.Stages) > 1
			capture = capture || ch.Capture > 0
			h.Class(fmt.Sprintf("stages %d", len(ch.Stages)), fmt.Sprintf("capture %d", ch.Capture))
			c.Chains = append(c.Chains, ch)
		}
		src, want, _, _ := c.program()
		h.Count(src, special || pipe, func() any { return map[string]any{"source": src, "want": want} })
		appKind.Run(t, c)
	})
}
