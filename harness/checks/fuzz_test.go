package checks

import (
	"testing"

	"tshverif/h"
)

// FuzzTotal is the coverage-guided companion of TestC13 (bin/fuzz).
func FuzzTotal(f *testing.F) {
	for _, s := range snippets {
		f.Add(s)
	}
	for _, s := range repoSources() {
		f.Add(s)
	}
	f.Fuzz(func(t *testing.T, s string) {
		if len(s) > 8000 {
			return
		}
		if m := checkTotal(TotalCase{Files: map[string]h.Text{"main.tsh": h.Text(s)}, Main: "main.tsh"}); m != "" {
			t.Fatal(m)
		}
	})
}
