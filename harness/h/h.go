// Package h is the common part of all checks: statistics, failing-case files,
// replay, transpilation and script execution.
package h

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unicode/utf8"

	"github.com/monstermichl/typeshell/converters/bash"
	"github.com/monstermichl/typeshell/converters/batch"
	"github.com/monstermichl/typeshell/transpiler"
)

// Text is a string that survives JSON byte for byte.
type Text string

func (t Text) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(string(t)) {
		return json.Marshal(string(t))
	}
	return json.Marshal(map[string]string{"b64": base64.StdEncoding.EncodeToString([]byte(t))})
}

func (t *Text) UnmarshalJSON(b []byte) error {
	var s string
	if json.Unmarshal(b, &s) == nil {
		*t = Text(s)
		return nil
	}
	var m map[string]string
	if err := json.Unmarshal(b, &m); err != nil {
		return err
	}
	d, err := base64.StdEncoding.DecodeString(m["b64"])
	*t = Text(d)
	return err
}

type caseFile struct {
	Property string
	Kind     string
	Failure  string
	Data     json.RawMessage
}

type checker struct {
	run func(raw json.RawMessage) string
}

var checkers = map[string]checker{}

// Kind is a class of concrete, serialisable cases with one oracle.
type Kind[D any] struct {
	Name  string
	Check func(D) string // "" when the property holds on the case
}

func NewKind[D any](name string, check func(D) string) *Kind[D] {
	k := &Kind[D]{name, check}
	checkers[name] = checker{func(raw json.RawMessage) string {
		var d D
		if err := json.Unmarshal(raw, &d); err != nil {
			Infra("cannot read case: %v", err)
		}
		return check(d)
	}}
	return k
}

// Infra aborts the process with an outcome that is neither pass nor violation.
func Infra(f string, a ...any) {
	if cf, ok := current.Load().(func() string); ok && os.Getenv("VERIF_KEEP_INFRA") != "" {
		fmt.Fprintln(os.Stderr, "case", cf())
	}
	fmt.Fprintf(os.Stderr, "INFRA: "+f+"\n", a...)
	os.Exit(3)
}

// ---------------------------------------------------------------- statistics

type Stats struct {
	Evaluations int            `json:"evaluations"`
	Discarded   int            `json:"discarded"`
	Nontrivial  []uint64       `json:"nontrivial"`
	Classes     map[string]int `json:"classes"`
	Samples     []any          `json:"samples"`
}

var (
	mu       sync.Mutex
	stats    = Stats{Classes: map[string]int{}}
	seen     = map[uint64]bool{}
	failed   atomic.Bool
	property = os.Getenv("VERIF_PROPERTY")
	outDir   = os.Getenv("VERIF_OUT")
	shard    = os.Getenv("VERIF_SHARD")
)

func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }
func Shard() int     { n, _ := strconv.Atoi(shard); return n }
func Shards() int {
	n, _ := strconv.Atoi(os.Getenv("VERIF_SHARDS"))
	if n < 1 {
		n = 1
	}
	return n
}

func Class(names ...string) {
	if failed.Load() {
		return
	}
	mu.Lock()
	for _, n := range names {
		stats.Classes[n]++
	}
	mu.Unlock()
}

func Discard() {
	if failed.Load() {
		return
	}
	mu.Lock()
	stats.Discarded++
	mu.Unlock()
}

// Count records one evaluated case. key identifies the case; sample is kept
// for a few non-trivial cases.
func Count(key string, nontrivial bool, sample func() any) {
	if failed.Load() {
		return
	}
	mu.Lock()
	defer mu.Unlock()
	stats.Evaluations++
	if !nontrivial {
		return
	}
	f := fnv.New64a()
	f.Write([]byte(key))
	k := f.Sum64()
	if seen[k] {
		return
	}
	seen[k] = true
	n := len(seen)
	if sample != nil && len(stats.Samples) < 3 && (n == 3 || n == 40 || n == 400 || n == 1) {
		stats.Samples = append(stats.Samples, sample())
	}
}

func WriteStats() {
	mu.Lock()
	defer mu.Unlock()
	for k := range seen {
		stats.Nontrivial = append(stats.Nontrivial, k)
	}
	sort.Slice(stats.Nontrivial, func(i, j int) bool { return stats.Nontrivial[i] < stats.Nontrivial[j] })
	b, err := json.Marshal(stats)
	if err != nil {
		Infra("stats: %v", err)
	}
	if outDir != "" {
		if err := os.WriteFile(filepath.Join(outDir, "stats-"+shard+".json"), b, 0o644); err != nil {
			Infra("stats: %v", err)
		}
	}
}

// ------------------------------------------------------------------- failing

type fataler interface {
	Fatalf(string, ...any)
	Helper()
}

func saveCase(kind string, data any, failure string) string {
	raw, err := json.Marshal(data)
	if err != nil {
		Infra("case: %v", err)
	}
	b, _ := json.MarshalIndent(caseFile{property, kind, failure, raw}, "", " ")
	dir := outDir
	if dir == "" {
		dir = os.TempDir()
	}
	p := filepath.Join(dir, "fail-"+shard+".json")
	if err := os.WriteFile(p, b, 0o644); err != nil {
		Infra("case: %v", err)
	}
	return p
}

// Run checks one concrete case and fails the test (after saving the case) if
// the property does not hold on it.
func (k *Kind[D]) Run(t fataler, d D) {
	t.Helper()
	setCurrent(k.Name, d)
	pend := pending(k.Name, d)
	f := k.Check(d)
	if pend != "" {
		os.Remove(pend)
	}
	if f != "" {
		if os.Getenv("VERIF_NOCONFIRM") == "" {
			// Confirm on the concrete case before believing it.
			if g := k.Check(d); g == "" {
				Infra("case of kind %s failed once (%s) and passed on repetition", k.Name, clip(f, 2000))
			}
		}
		if known(k.Name, d, f) {
			return
		}
		failed.Store(true)
		p := saveCase(k.Name, d, f)
		t.Fatalf("%s\ncase %s", f, p)
	}
}

// pending notes the case that is being checked, for the runner: a crash that
// cannot be recovered from (stack exhaustion) ends this process.
func pending(kind string, d any) string {
	if outDir == "" {
		return ""
	}
	raw, err := json.Marshal(d)
	if err != nil {
		Infra("case: %v", err)
	}
	b, _ := json.Marshal(caseFile{property, kind, "the process crashes", raw})
	p := filepath.Join(outDir, "pending-"+shard+".json")
	if err := os.WriteFile(p, b, 0o644); err != nil {
		Infra("%v", err)
	}
	return p
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// Replay runs a saved case and returns the failure, if any.
func Replay(path string) string {
	b, err := os.ReadFile(path)
	if err != nil {
		Infra("%v", err)
	}
	var c caseFile
	if err := json.Unmarshal(b, &c); err != nil {
		Infra("%s: %v", path, err)
	}
	ck, ok := checkers[c.Kind]
	if !ok {
		Infra("%s: unknown kind %q", path, c.Kind)
	}
	return ck.run(c.Data)
}

// ------------------------------------------------------------ known findings

// knownMatchers are set by checks: a listed finding is recognised by its
// specific input, never by a whole class of failures.
var knownMatchers []func(kind string, data any, failure string) string
var knownHits = map[string]bool{}

func AddKnown(f func(kind string, data any, failure string) string) {
	knownMatchers = append(knownMatchers, f)
}

func known(kind string, data any, failure string) bool {
	for _, m := range knownMatchers {
		if id := m(kind, data, failure); id != "" {
			mu.Lock()
			if !knownHits[id] {
				knownHits[id] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", property, id)
			}
			mu.Unlock()
			return true
		}
	}
	return false
}

// ------------------------------------------------------------------ watchdog

var current atomic.Value // func() -> saved path

func setCurrent(kind string, d any) {
	current.Store(func() string { return saveCase(kind, d, "transpilation does not terminate within its CPU bound") })
}

var busySince atomic.Int64 // process CPU time (ns) when the current transpilation started; 0 idle

func cpuNow() int64 {
	var r syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &r)
	return r.Utime.Nano() + r.Stime.Nano()
}

// HangLimit is the CPU time one transpilation may use before it counts as
// not terminating.
const HangLimit = 20 * time.Second

// MemLimit bounds the resident memory (bytes) while a transpilation runs.
const MemLimit = 3 << 30

func rss() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	var size, res int64
	fmt.Sscan(string(b), &size, &res)
	return res * int64(os.Getpagesize())
}

func init() {
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			s := busySince.Load()
			if s != 0 && (cpuNow()-s > int64(HangLimit) || rss() > MemLimit) {
				if f, ok := current.Load().(func() string); ok {
					p := f()
					fmt.Printf("--- FAIL: hang\ncase %s\n", p)
					os.Exit(1)
				}
				Infra("transpilation hangs outside a case")
			}
		}
	}()
}

// ------------------------------------------------------------- transpilation

type Out struct {
	Script string
	Err    error
	Panic  string
}

func NewConverter(target string) transpiler.Converter {
	if target == "batch" {
		return batch.New()
	}
	return bash.New()
}

// Transpile runs the library on a file with a fresh converter.
func Transpile(path, target string) Out { return TranspileWith(path, NewConverter(target)) }

func TranspileWith(path string, c transpiler.Converter) (o Out) {
	busySince.Store(cpuNow() | 1)
	defer busySince.Store(0)
	defer func() {
		if r := recover(); r != nil {
			o.Panic = fmt.Sprint(r)
		}
	}()
	t := transpiler.New()
	o.Script, o.Err = t.Transpile(path, c)
	return
}

// TranspileOn uses an existing transpiler object, with a fresh converter.
func TranspileOn(t interface {
	Transpile(string, transpiler.Converter) (string, error)
}, path, target string) (o Out) {
	busySince.Store(cpuNow() | 1)
	defer busySince.Store(0)
	defer func() {
		if r := recover(); r != nil {
			o.Panic = fmt.Sprint(r)
		}
	}()
	o.Script, o.Err = t.Transpile(path, NewConverter(target))
	return
}

// TranspileQuiet leaves the watchdog alone, for use by several goroutines.
func TranspileQuiet(path, target string) (o Out) {
	defer func() {
		if r := recover(); r != nil {
			o.Panic = fmt.Sprint(r)
		}
	}()
	t := transpiler.New()
	o.Script, o.Err = t.Transpile(path, NewConverter(target))
	return
}

func (o Out) Rejected() string {
	if o.Panic != "" {
		return "transpiler panicked: " + o.Panic
	}
	if o.Err != nil {
		return "rejected: " + o.Err.Error()
	}
	return ""
}

var scratch string

// Scratch returns this process's scratch directory (world-readable).
func Scratch() string {
	if scratch == "" {
		d := os.Getenv("VERIF_SCRATCH")
		if d == "" {
			var err error
			if d, err = os.MkdirTemp("", "tshverif"); err != nil {
				Infra("%v", err)
			}
		} else {
			d = filepath.Join(d, "shard-"+shard)
			if err := os.MkdirAll(d, 0o755); err != nil {
				Infra("%v", err)
			}
		}
		os.Chmod(d, 0o755)
		scratch = d
	}
	return scratch
}

// WriteTree writes files below a fresh subdirectory of the scratch directory.
func WriteTree(sub string, files map[string]Text) string {
	d := filepath.Join(Scratch(), sub)
	os.RemoveAll(d)
	if err := os.MkdirAll(d, 0o755); err != nil {
		Infra("%v", err)
	}
	for n, c := range files {
		p := filepath.Join(d, n)
		if strings.Contains(n, "/") {
			os.MkdirAll(filepath.Dir(p), 0o755)
		}
		if err := os.WriteFile(p, []byte(c), 0o644); err != nil {
			Infra("%v", err)
		}
	}
	return d
}

// TranspileSource is a shortcut for a single-file program.
func TranspileSource(src, target string) Out {
	p := filepath.Join(Scratch(), "one.tsh")
	if err := os.WriteFile(p, []byte(src), 0o644); err != nil {
		Infra("%v", err)
	}
	return Transpile(p, target)
}

func Clip(b string) string { return clip(b, 3000) }

func Diff(want, got string) string {
	w, g := strings.Split(want, "\n"), strings.Split(got, "\n")
	for i := 0; i < len(w) || i < len(g); i++ {
		a, b := "<end>", "<end>"
		if i < len(w) {
			a = strconv.Quote(w[i])
		}
		if i < len(g) {
			b = strconv.Quote(g[i])
		}
		if a != b {
			return fmt.Sprintf("line %d: want %s, got %s", i+1, clip(a, 400), clip(b, 400))
		}
	}
	return ""
}

var _ = bytes.NewReader

// Seed is the seed of the run (VERIF_SEED), for enumerations outside rapid.
func Seed() int { n, _ := strconv.Atoi(os.Getenv("VERIF_SEED")); return n }
