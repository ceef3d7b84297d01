package checks

import (
	"fmt"
	"strings"
	"testing"
	"testing/synctest"

	"verif/mon"
)

// bubble runs fn in a synctest bubble. Goroutines that the library never ends
// (workers, watchers of a base context) are expected to be left behind.
func bubble(c *mon.C, t *testing.T, cas string, fn func()) {
	defer func() {
		if e := recover(); e != nil {
			s := fmt.Sprint(e)
			if strings.Contains(s, "blocked goroutines remain") {
				c.Count("bubbles_with_remaining_goroutines", 1)
				return
			}
			c.Violate("bubble", cas, "%s", s)
		}
	}()
	synctest.Test(t, func(t *testing.T) {
		defer func() {
			if e := recover(); e != nil {
				c.Violate("panic", cas, "panic: %v", e)
			}
		}()
		fn()
	})
}
