// Package checks holds one test per property; /verif/bin/check drives it.
package checks

import (
	"fmt"
	"os"
	"strings"
	"testing"

	"tshverif/h"
)

func TestMain(m *testing.M) {
	if p := os.Getenv("VERIF_REPLAY"); p != "" {
		// Replay saved cases, bypassing the generators.
		bad := 0
		for _, f := range strings.Split(p, "\n") {
			if f == "" {
				continue
			}
			if msg := h.Replay(f); msg != "" {
				fmt.Printf("REPLAY-FAIL %s\n%s\n", f, h.Clip(msg))
				bad++
			} else {
				fmt.Printf("REPLAY-OK %s\n", f)
			}
		}
		if bad > 0 {
			os.Exit(1)
		}
		os.Exit(0)
	}
	code := m.Run()
	h.WriteStats()
	os.Exit(code)
}
