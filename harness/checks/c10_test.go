package checks

import (
	"fmt"
	"path/filepath"
	"regexp"
	"strings"
	"testing"

	"tshverif/batchvm"
	"tshverif/gen"
	"tshverif/h"
	"tshverif/lang"

	"pgregory.net/rapid"
)

// RenameCase: two programs that differ in the spelling of their own names only.
type RenameCase struct {
	Orig, Renamed map[string]h.Text
	Main          string
	Target        string
	Stdin         h.Text
}

var renameKind = h.NewKind("rename", checkRename)

type behaviour struct {
	out, err string
	status   int
	files    string
	ended    bool
}

// The environment holds values for names a program may happen to use.
var poisonVars = []string{"a", "b", "x", "i", "n", "s", "tmp", "val", "count", "v_a", "v_b", "v_x", "_h0", "_h1", "_rv0", "_rv1", "_dvc", "_fa0", "_len", "_i", "f1_a", "f1_v_a"}

// behave runs the script of a program; rejected is set if there is none.
func behave(files map[string]h.Text, main, target, stdin string) (b behaviour, rejected, script string) {
	o := h.Transpile(filepath.Join(h.WriteTree("prog", files), main), target)
	if o.Panic != "" {
		return b, "", "panic: " + o.Panic
	}
	if o.Err != nil {
		return b, o.Err.Error(), o.Script
	}
	if target == "batch" {
		env := map[string]string{"PATH": "C:\\Windows", "OS": "Windows_NT", "TEMP": "C:\\Temp", "COMSPEC": "C:\\cmd.exe", "PROMPT": "$P$G", "USERNAME": "me", "PATHEXT": ".EXE"}
		r := batchvm.Run(o.Script, batchvm.Opt{Stdin: stdin, Env: env})
		if r.Unsupported != "" {
			return b, "unsupported: " + r.Unsupported, o.Script
		}
		return behaviour{r.Out, r.Err, r.Status, "", !r.Timeout}, "", o.Script
	}
	w := freshDir("renamecwd")
	r := h.Bash(o.Script, h.RunOpt{Dir: w, Stdin: stdin})
	// Messages of the shell carry the line number, which may differ.
	return behaviour{r.Stdout, r.Stderr, r.Status, dirText(w), r.Signal == ""}, "", o.Script
}

func checkRename(c RenameCase) string {
	x, rej, s1 := behave(c.Orig, c.Main, c.Target, string(c.Stdin))
	if strings.HasPrefix(s1, "panic: ") {
		return "" // C13's business
	}
	if rej != "" || !x.ended {
		return ""
	}
	y, rej, s2 := behave(c.Renamed, c.Main, c.Target, string(c.Stdin))
	tail := allFiles(c.Orig, c.Main) + "\n=== renamed" + allFiles(c.Renamed, c.Main) + "\n=== script of the original\n" + s1 + "\n=== script of the renamed program\n" + s2
	switch {
	case strings.HasPrefix(s2, "panic: "):
		return "the renamed program crashes the transpiler: " + s2 + tail
	case rej != "" && s2 != "" && !strings.HasPrefix(rej, "unsupported"):
		return "an error and a script" + tail
	case strings.HasPrefix(rej, "unsupported: "):
		return "the renamed script leaves the modelled part of cmd.exe, the original does not: " + rej + tail
	case rej != "":
		return ""
	case !y.ended:
		return c.Target + ": the renamed program does not terminate" + tail
	case x.out != y.out:
		return c.Target + ": output depends on names: " + h.Diff(x.out, y.out) + tail
	case x.status != y.status:
		return fmt.Sprintf("%s: exit status depends on names: %d and %d%s", c.Target, x.status, y.status, tail)
	case (x.err == "") != (y.err == ""):
		return c.Target + ": standard error depends on names: " + x.err + " / " + y.err + tail
	case x.files != y.files:
		return c.Target + ": files depend on names: " + x.files + " / " + y.files + tail
	}
	return ""
}

// ------------------------------------------------------------------ names

var reservedNames = strings.Fields(`
echo printf read test local eval exit set shift declare unset export readonly typeset let type source cd pwd times trap umask wait exec command builtin hash alias enable help jobs kill history fc bg fg disown dirs popd pushd shopt suspend ulimit mapfile readarray complete compgen compopt getopts bind caller logout
then else fi do done esac until while in select time function elif coproc
PATH HOME IFS RANDOM LINENO BASH_VERSION PWD OLDPWD OPTIND OPTARG OPTERR REPLY PS1 PS4 SECONDS UID EUID BASHOPTS SHELLOPTS PPID FUNCNAME DIRSTACK GROUPS HISTCMD BASH_ENV ENV LC_ALL LANG LC_CTYPE PIPESTATUS MAPFILE TMOUT POSIXLY_CORRECT IGNOREEOF GLOBIGNORE BASH_REMATCH BASH_SOURCE BASH_LINENO BASHPID SHLVL SHELL TERM COLUMNS LINES HISTFILE CDPATH FIGNORE EXECIGNORE BASH_COMPAT EPOCHSECONDS SRANDOM BASH_ARGV BASH_CMDS BASH_ALIASES COPROC _ __ ___
errorlevel ERRORLEVEL date DATE random cmdcmdline comspec path prompt os OS temp TEMP TMP nul con prn aux lpt1 eof EOF end End goto call Call setlocal endlocal rem defined exist not equ neq lss leq gtr geq cmdextversion LF lf start title pause dir copy2 del md rd move type ver vol
_h _h0 _h1 _h2 _h3 _h10 _rv0 _rv1 _rv2 _fa0 _fa1 _fa2 _fv0 _fv1 _dv _dv0 _dv1 _dv2 _dvc _dv1_0 _dv1_len _sah _sch _ssh _sls _slg _stsh _stlh _seh _ech _ach _frh _fwh _ret _e _i _l _len _sub _sh _v _a _te _eo_f_a _ret_f_f t_0 t_1 h0 rv0 f1 f1_a f1_v_a f0_a f2_x v_a v__a f_a f_f f__f v v_ f_ a_len a_0 x_len x_0 _p0 _c _c0 _s _n _t _r _x _d _tmp _0 _1 _00 a_ a__ __a _a _A A_ 
main init nil true1 int1 string1 bool1 error1 len1 print1 mod lib strings
aux_ I l1 O0 ll lI Il a1 a01 a10 aa aA Aa AA
`)

// nameable words in a text that may serve as identifiers.
var wordRe = regexp.MustCompile(`[A-Za-z_][A-Za-z0-9_]*`)

var keywordsTsh = map[string]bool{}

func init() {
	for _, w := range strings.Fields("var func return if else for switch case default break continue true false nil import range int string bool error print len copy itoa input read write exists panic type package const struct map interface") {
		keywordsTsh[w] = true
	}
}

// candidates are new names: reserved ones, those in the given scripts, and
// names shaped like the translated forms of the program's own names.
func candidates(own []string, scripts ...string) []string {
	seen := map[string]bool{}
	var r []string
	add := func(s string) {
		if !seen[s] && !keywordsTsh[s] && wordRe.FindString(s) == s {
			seen[s] = true
			r = append(r, s)
		}
	}
	for _, s := range scripts {
		for _, w := range wordRe.FindAllString(s, -1) {
			add(w)
		}
	}
	for _, n := range own {
		for _, p := range []string{"%s_", "_%s", "v_%s", "f_%s", "f1_%s", "f1_v_%s", "f2_%s", "%s_len", "%s_0", "%s_1", "%s0", "_eo_%s", "_ret_%s", "__%s", "%s__", "_v_%s", "v__%s", "l_%s", "g_%s"} {
			add(fmt.Sprintf(p, n))
		}
		add(strings.ToUpper(n))
		add(strings.ToLower(n))
		add(strings.ToUpper(n[:1]) + n[1:])
		add(strings.ToLower(n[:1]) + n[1:])
	}
	for _, n := range reservedNames {
		add(n)
	}
	return r
}

// renaming maps names injectively to new ones; exported names of imported files
// keep a leading capital, the others keep its absence.
func renaming(t *rapid.T, names []string, cands []string, exportRule bool) map[string]string {
	m := map[string]string{}
	used := map[string]bool{}
	var keep []string
	mode := gen.Uniform(t, 5, "mode")
	for _, n := range names {
		if mode != 0 && gen.Uniform(t, 4, "keep") == 0 {
			m[n] = n
			used[n] = true
			keep = append(keep, n)
		}
	}
	variants := []string{}
	if mode == 1 { // names that differ in case or underscores only
		b := gen.Pick(t, []string{"a", "ab", "xy", "n_a", "h0"}, "base")
		for k := 0; k < 1<<len(b); k++ {
			x := []byte(b)
			for i := range x {
				if k>>i&1 == 1 && x[i] >= 'a' && x[i] <= 'z' {
					x[i] -= 32
				}
			}
			variants = append(variants, string(x), string(x)+"_", "_"+string(x), "__"+string(x), string(x)+"__", string(x[:1])+"_"+string(x[1:]))
		}
	}
	if mode == 2 { // long names that differ somewhere only
		k := gen.Pick(t, []int{20, 31, 32, 63, 64, 100, 127, 128, 255, 256, 300, 1000}, "long") + gen.Uniform(t, 4, "long2") - 2
		b := strings.Repeat(gen.Pick(t, []string{"a", "ab_", "_", "Q1", "v_"}, "long base"), k)[:k]
		for i := 0; i < 10; i++ {
			x := fmt.Sprintf("%s%d", b, i)
			variants = append(variants, x, b+strings.Repeat("z", i+1), b[:k/2]+fmt.Sprintf("m%d_", i)+b[k/2:], fmt.Sprintf("p%d", i)+b)
		}
		h.Class("long names")
	}
	for _, n := range names {
		if m[n] != "" {
			continue
		}
		pool := cands
		if len(variants) > 0 && gen.Uniform(t, 4, "variant") > 0 {
			pool = variants
		} else if gen.Uniform(t, 3, "reserved") == 0 {
			pool = reservedNames
		} else if len(names) > 1 && gen.Uniform(t, 4, "permute") == 0 {
			pool = names
		}
		for try := 0; ; try++ {
			x := gen.Pick(t, pool, "name")
			if try > 8 {
				x = fmt.Sprintf("zq%d", len(used)+try)
				if exportRule && n[0] >= 'A' && n[0] <= 'Z' {
					x = "Z" + x
				}
			}
			if used[x] || keywordsTsh[x] || x == "" || exportRule && (n[0] >= 'A' && n[0] <= 'Z') != (x[0] >= 'A' && x[0] <= 'Z') {
				continue
			}
			m[n] = x
			used[x] = true
			break
		}
	}
	return m
}

// programNames collects and replaces the names of one file.
func moduleNames(m *lang.Module) (vars map[*lang.Var]bool, funcs map[*lang.Func]bool) {
	vars, funcs = map[*lang.Var]bool{}, map[*lang.Func]bool{}
	lang.WalkStmts(m.Items, func(s *lang.Stmt) {
		for _, v := range s.Vars {
			if v != nil {
				vars[v] = true
			}
		}
		if s.Op == lang.SFunc {
			funcs[s.F] = true
			for _, v := range s.F.Params {
				vars[v] = true
			}
		}
	}, func(e *lang.Expr) {
		if e.Op == lang.EVar {
			vars[e.V] = true
		}
	})
	return
}

func renameModule(t *rapid.T, m *lang.Module, scripts ...string) {
	vars, funcs := moduleNames(m)
	set := map[string]bool{}
	for v := range vars {
		set[v.Name] = true
	}
	for f := range funcs {
		set[f.Name] = true
	}
	var names []string
	for n := range set {
		names = append(names, n)
	}
	sortStrings(names)
	if len(names) == 0 {
		return
	}
	r := renaming(t, names, candidates(names, scripts...), true)
	for v := range vars {
		v.Name = r[v.Name]
	}
	for f := range funcs {
		f.Name = r[f.Name]
	}
}

// Programs for the parts of the language the generator leaves out; «x» are the
// names.
var renameSnippets = []string{
	"«a» := input()\n«b» := input(\"p\")\nprint(«a», «b»)\nfunc «f»(«c» string) string {\n«d» := input()\nreturn «c» + «d»\n}\nprint(«f»(«a»))\n",
	"write(\"f1\", \"x\")\n«a» := read(\"f1\")\nwrite(\"f1\", «a», true)\nfunc «f»(«p» string, «q» string) bool {\nwrite(«p», «q», exists(«p»))\n«r» := read(«p»)\nprint(«r», exists(«p»))\nreturn «r» == «q»\n}\nprint(«f»(\"f1\", «a»), «f»(\"f2\", \"z\"), exists(\"f3\"))\n",
	"«a», «b», «c» := @printf(\"x y\") | @cat()\nprint(«a», «b», «c»)\nfunc «f»(«d» string) (string, int) {\n«e», «g», «h» := @printf(«d»)\nif «h» != 0 {\nprint(«g»)\n}\nreturn «e», «h»\n}\n«i», «j» := «f»(\"q*\")\nprint(«i», «j»)\n@echo(«i», «a»)\n",
	"«a» := []string{\"x\", \"y\"}\n«b» := []string{}\n«c» := copy(«b», «a»)\n«b»[4] = \"w\"\nfor «i», «v» := range «b» {\nprint(«i», «v», «c»)\n}\nfunc «f»(«s» []string, «t» string) []string {\n«s»[1] = «t»\n«u» := «s»\n«u»[0] += «t»\nreturn «u»\n}\n«d» := «f»(«b», \"k\")\nprint(len(«d»), «d»[0], «b»[1])\n",
	"func «f»(«a» string) int {\n«n» := 0\nfor «i», «c» := range «a» {\nif «c» == \"x\" {\n«n»++\n}\n}\nreturn «n»\n}\nfunc «g»(«a» string, «b» int) string {\n«c» := «a»[0:«b»]\nfor «j» := 0; «j» < «b»; «j»++ {\n«c» += itoa(«f»(«a»))\n}\nreturn «c»\n}\n«x» := \"axbx\"\n«y» := «g»(«x», 2)\nswitch «y» {\ncase \"ax22\":\nprint(\"ok\", «y»[1])\ndefault:\nprint(«y»)\n}\npanic(«y»)\n",
	"func «f»(«a» int, «b» int) (int, int) {\nreturn «b», «a»\n}\n«x», «y» := «f»(1, 2)\n«x», «y» = «y», «x»\n«x», «z» := «f»(«x», «y»)\nvar «t», «u» int = «f»(«z», «x»)\nprint(«x», «y», «z», «t», «u»)\n",
	"import (\n\"strings\"\n)\n«a» := strings.ToUpper(\"abc\")\n«b» := strings.Contains(«a», \"B\")\nfunc «f»(«s» string) string {\nreturn strings.Replace(«s», \"A\", \"x\", 1)\n}\nprint(«a», «b», «f»(«a»), strings.Index(«a», \"C\"))\n",
}

var snippetName = regexp.MustCompile(`«([a-z])»`)

func fillNames(s string, m map[string]string) string {
	return snippetName.ReplaceAllStringFunc(s, func(x string) string {
		k := snippetName.FindStringSubmatch(x)[1]
		if m == nil {
			return k
		}
		return m[k]
	})
}

func scriptsOf(files map[string]h.Text, main string) (r []string) {
	p := filepath.Join(h.WriteTree("prog", files), main)
	for _, tg := range []string{"bash", "batch"} {
		o := h.Transpile(p, tg)
		if o.Err == nil {
			r = append(r, o.Script)
		}
	}
	return
}

func TestC10(t *testing.T) {
	h.Check(t, func(t *rapid.T) {
		c := RenameCase{Target: gen.Pick(t, []string{"bash", "batch"}, "target")}
		kind := ""
		switch mode := gen.Uniform(t, 6, "mode"); {
		case mode == 0:
			kind = "snippet"
			k := gen.Uniform(t, len(renameSnippets), "snippet")
			s := renameSnippets[k]
			if strings.Contains(s, "input(") || strings.Contains(s, "write(") || strings.Contains(s, "@") {
				c.Target = "bash"
			}
			set := map[string]bool{}
			for _, x := range snippetName.FindAllStringSubmatch(s, -1) {
				set[x[1]] = true
			}
			var names []string
			for n := range set {
				names = append(names, n)
			}
			sortStrings(names)
			c.Main = "main.tsh"
			c.Stdin = "one\ntwo  x\nthree\n"
			c.Orig = map[string]h.Text{c.Main: h.Text(fillNames(s, nil))}
			r := renaming(t, names, candidates(names, scriptsOf(c.Orig, c.Main)...), false)
			c.Renamed = map[string]h.Text{c.Main: h.Text(fillNames(s, r))}
		case mode == 1:
			kind = "multi-file"
			mc := gen.ModCfg{Min: 1, Max: 2}
			cfg := modCfg(t)
			cfg.MaxTop, cfg.MaxFuncs = 4, 3
			if c.Target == "batch" {
				cfg.Bits = 32
			}
			p := gen.New(t, cfg).Modules(mc)
			if _, ok := runRef(p, map[string]int{"bash": 64, "batch": 32}[c.Target]); !ok {
				return
			}
			c.Main, c.Orig = p.Main.File, sources(p)
			sc := scriptsOf(c.Orig, c.Main)
			for _, m := range p.Mods {
				renameModule(t, m, sc...)
			}
			c.Renamed = sources(p)
		default:
			kind = "program"
			cfg := batchCfg(t)
			cfg.MaxTop = 6
			if c.Target == "bash" {
				cfg.Bits = 64
			}
			p := gen.New(t, cfg).Program()
			if _, ok := runRef(p, map[string]int{"bash": 64, "batch": 32}[c.Target]); !ok {
				return
			}
			c.Main, c.Orig = p.Main.File, sources(p)
			sc := scriptsOf(c.Orig, c.Main)
			if gen.Uniform(t, 3, "twice") == 0 {
				// The names the back-ends make of the new names, as names.
				renameModule(t, p.Main, sc...)
				sc = append(sc, scriptsOf(sources(p), c.Main)...)
			}
			renameModule(t, p.Main, sc...)
			c.Renamed = sources(p)
		}
		o := h.Transpile(filepath.Join(h.WriteTree("prog", c.Renamed), c.Main), c.Target)
		changed := fmt.Sprint(c.Orig) != fmt.Sprint(c.Renamed)
		h.Class(kind+" "+c.Target, map[bool]string{true: "renamed program accepted", false: "renamed program rejected"}[o.Err == nil])
		h.Count(fmt.Sprint(c), changed && o.Err == nil, func() any { return c })
		renameKind.Run(t, c)
	})
}
