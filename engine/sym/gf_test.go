package sym

import (
	"math/rand"
	"testing"
)

func TestGF(t *testing.T) {
	for i := 0; i < 1000; i++ {
		m := Mat(rand.Uint64())
		c := Linearised(m)
		for x := 0; x < 256; x++ {
			var r byte
			for k := 0; k < 8; k++ {
				r ^= GFMul(c[k], frob[k].Apply(byte(x)))
			}
			if r != m.Apply(byte(x)) {
				t.Fatal("lin")
			}
		}
		if inv, ok := m.Inverse(); ok {
			if inv.Mul(m) != MatID || m.Mul(inv) != MatID {
				t.Fatal("inv")
			}
		}
	}
	for a := 1; a < 256; a++ {
		if GFMul(byte(a), gfinv[a]) != 1 {
			t.Fatal("gfinv")
		}
	}
}
