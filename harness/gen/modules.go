package gen

import (
	"fmt"
	"path"
	"strings"

	. "tshverif/lang"
)

// ModCfg selects the shape of a multi-file program.
type ModCfg struct {
	Min, Max int      // number of imported files
	Aliases  []string // alias pool
	FuncPool []string // function names, public ones start with a capital
	NoTop    bool     // imported files have definitions only
}

var moduleDirs = []string{"", "", "lib/", "lib/deep/", "other/"}
var moduleBases = []string{"a", "b", "util", "strings", "1st", "main2", "x-y", "deadbeef"}

func public(f *Func) bool { return f.Name[0] >= 'A' && f.Name[0] <= 'Z' }

// relPath spells the way from the directory of file a to file b.
func (g *G) relPath(from, to string) string {
	var up string
	fd := path.Dir(from)
	td := path.Dir(to)
	// Common prefix of the directories.
	fp, tp := splitDir(fd), splitDir(td)
	for len(fp) > 0 && len(tp) > 0 && fp[0] == tp[0] {
		fp, tp = fp[1:], tp[1:]
	}
	for range fp {
		up += "../"
	}
	r := up + path.Join(append(append([]string{}, tp...), path.Base(to))...)
	switch g.n(0, 6, "spell") {
	case 0:
		r = "./" + r
	case 1: // through a directory that exists
		if d := path.Dir(r); d != "." && !strings.HasSuffix(d, "..") {
			r = d + "/../" + path.Base(d) + "/" + path.Base(r)
		} else {
			r = "./" + r
		}
	case 2:
		r = strings.Replace(r, "/", "//", 1)
	}
	return r
}

func splitDir(d string) []string {
	if d == "." || d == "" {
		return nil
	}
	return strings.Split(d, "/")
}

// Modules generates a program split over imported files.
func (g *G) Modules(mc ModCfg) *Program {
	if mc.Aliases == nil {
		mc.Aliases = []string{"m", "lib", "M", "p", "q", "strs", "_u", "F1", "util"}
	}
	if mc.FuncPool == nil {
		mc.FuncPool = []string{"Get", "Set", "Run", "F", "get", "set", "run", "f", "Reset", "_Get", "_run"}
	}
	g.C.FuncNames = mc.FuncPool
	k := g.n(mc.Min, mc.Max, "modules")
	top := g.C.MaxTop
	minTop, callAll, panics := g.C.MinTop, g.C.CallAll, g.C.Panic
	var libs []*Module
	exported := map[*Module][]*Func{}
	used := map[string]bool{"main.tsh": true}
	mods := []*Module{}
	for i := 0; i <= k; i++ {
		m := &Module{}
		if i == k {
			m.File = "main.tsh"
			g.P.Main = m
		} else {
			for {
				m.File = Pick(g.T, moduleDirs, "dir") + Pick(g.T, moduleBases, "base") + ".tsh"
				if used[m.File] {
					m.File = strings.TrimSuffix(m.File, ".tsh") + fmt.Sprint(i) + ".tsh"
				}
				if !used[m.File] {
					break
				}
			}
			used[m.File] = true
		}
		// Imports: any earlier file, possibly several times. The main file
		// reaches every file that nobody else imports.
		g.mod = m
		g.scopes = [][]*Var{nil}
		g.funcs = nil
		g.fnNames = map[string]bool{}
		free := append([]string{}, mc.Aliases...)
		alias := func() string {
			if len(free) == 0 {
				g.fresh++
				return fmt.Sprintf("alias%d", g.fresh)
			}
			j := g.n(0, len(free)-1, "alias")
			a := free[j]
			free = append(free[:j:j], free[j+1:]...)
			return a
		}
		for _, l := range libs {
			if i == k && !imported(mods, l) || g.p(40, "import") {
				for times := 1 + g.pick("times", 8, 1); times > 0; times-- {
					m.Imports = append(m.Imports, Import{Alias: alias(), Path: g.relPath(m.File, l.File), Mod: l})
				}
				g.funcs = append(g.funcs, exported[l]...)
			}
		}
		for j := len(m.Imports) - 1; j > 0; j-- { // any order
			o := g.n(0, j, "order")
			m.Imports[j], m.Imports[o] = m.Imports[o], m.Imports[j]
		}
		m.Group = len(m.Imports) > 1 || g.p(40, "group")
		for _, im := range m.Imports {
			g.fnNames[im.Alias] = true // no variable or function of that name
		}
		g.C.MaxTop, g.C.MinTop, g.C.CallAll, g.C.Panic, g.noTop = top, minTop, callAll, panics, false
		if i < k {
			g.C.MaxTop, g.C.MinTop, g.C.CallAll = max(1, top/2), 1, false
			g.C.Panic = g.p(5, "libpanic")
			g.noTop = mc.NoTop || g.p(20, "notop")
		}
		before := len(g.funcs)
		g.body(m)
		for _, f := range g.funcs[before:] {
			if public(f) {
				exported[m] = append(exported[m], f)
			}
		}
		mods = append(mods, m)
		if i < k {
			libs = append(libs, m)
		}
	}
	g.P.Mods = mods
	return g.P
}

func imported(mods []*Module, m *Module) bool {
	for _, x := range mods {
		for _, im := range x.Imports {
			if im.Mod == m {
				return true
			}
		}
	}
	return false
}
