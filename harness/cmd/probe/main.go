// Command probe stands in for the programs called by TypeShell's @prog syntax.
// It records the arguments and the standard input it gets, and writes what its
// control file says.
package main

import (
	"encoding/json"
	"io"
	"os"
	"path/filepath"
)

type control struct {
	Read   bool // read standard input
	Prefix string
	Suffix string
	Err    string
	Exit   int
}

type record struct {
	Args  []string
	Stdin string
}

func main() {
	dir := os.Getenv("PROBE_DIR")
	name := filepath.Base(os.Args[0])
	var c control
	b, err := os.ReadFile(filepath.Join(dir, name+".ctl"))
	if err != nil || json.Unmarshal(b, &c) != nil {
		os.Exit(99)
	}
	r := record{Args: append([]string{}, os.Args[1:]...)}
	if c.Read {
		in, err := io.ReadAll(os.Stdin)
		if err != nil {
			os.Exit(98)
		}
		r.Stdin = string(in)
	}
	l, err := json.Marshal(r)
	if err != nil {
		os.Exit(97)
	}
	f, err := os.OpenFile(filepath.Join(dir, name+".log"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o666)
	if err != nil {
		os.Exit(96)
	}
	if _, err := f.Write(append(l, '\n')); err != nil || f.Close() != nil {
		os.Exit(95)
	}
	os.Stderr.WriteString(c.Err)
	os.Stdout.WriteString(c.Prefix + r.Stdin + c.Suffix)
	os.Exit(c.Exit)
}
