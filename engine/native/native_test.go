package native

import (
	"fmt"
	"testing"
	"time"
)

func TestBuild(t *testing.T) {
	for _, v := range []string{"", "stress", "race"} {
		t0 := time.Now()
		b := NewBuilder("/repo", t.TempDir())
		p, err := b.Binary(v)
		fmt.Println(p, err, time.Since(t0))
	}
}
