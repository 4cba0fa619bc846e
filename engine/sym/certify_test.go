package sym

import (
	"testing"
	"time"
)

func TestLaws(t *testing.T) {
	n, bad := Laws(20 * time.Second)
	if bad != "" {
		t.Fatal(bad)
	}
	t.Log(n)
}
