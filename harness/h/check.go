package h

import (
	"os"
	"strconv"
	"testing"
	"time"

	"pgregory.net/rapid"
)

var deadline = func() time.Time {
	if n, err := strconv.ParseInt(os.Getenv("VERIF_DEADLINE"), 10, 64); err == nil {
		return time.Unix(n, 0)
	}
	return time.Time{}
}()

// Over reports whether the run's wall-clock budget is used up. It only stops
// the exploration; it never decides a case.
func Over() bool { return !deadline.IsZero() && !failed.Load() && time.Now().After(deadline) }

// Check is rapid.Check bounded by the run's budget.
func Check(t *testing.T, f func(*rapid.T)) {
	t.Helper()
	rapid.Check(t, func(t *rapid.T) {
		if Over() {
			Class("skipped: budget")
			return
		}
		f(t)
	})
}
