// Package sym holds the terms of the symbolic executor: hash-consed bit-vector
// terms with a canonical form for bytes that are sums, over GF(2), of linear
// images of other bytes, and products in GF(2^8) modulo x^8+x^4+x^3+x^2+1.
package sym

// Mat is an 8x8 matrix over GF(2); byte j (bits 8j..8j+7) is the image of bit j.
type Mat uint64

const (
	MatZero Mat = 0
	MatID   Mat = 0x8040201008040201
)

func (m Mat) Col(j int) byte { return byte(m >> (8 * uint(j))) }

func MatFromCols(c [8]byte) Mat {
	var m Mat
	for j, x := range c {
		m |= Mat(x) << (8 * uint(j))
	}
	return m
}

func (m Mat) Apply(x byte) byte {
	var r byte
	for j := 0; x != 0; j++ {
		if x&1 != 0 {
			r ^= byte(m >> (8 * uint(j)))
		}
		x >>= 1
	}
	return r
}

// Mul returns m∘n.
func (m Mat) Mul(n Mat) Mat {
	if m == MatID {
		return n
	}
	if n == MatID {
		return m
	}
	var r Mat
	for j := 0; j < 8; j++ {
		r |= Mat(m.Apply(n.Col(j))) << (8 * uint(j))
	}
	return r
}

// Rows returns, for every output bit, the mask of the input bits it is the sum of.
func (m Mat) Rows() [8]byte {
	var r [8]byte
	for j := 0; j < 8; j++ {
		c := m.Col(j)
		for i := 0; i < 8; i++ {
			if c>>uint(i)&1 != 0 {
				r[i] |= 1 << uint(j)
			}
		}
	}
	return r
}

// Image returns the mask of output bits that can be one, for inputs within in.
func (m Mat) Image(in byte) byte {
	var r byte
	for j := 0; j < 8; j++ {
		if in>>uint(j)&1 != 0 {
			r |= m.Col(j)
		}
	}
	return r
}

// Rank is the dimension of the image.
func (m Mat) Rank() int {
	var b [8]byte
	r := 0
	for j := 0; j < 8; j++ {
		x := m.Col(j)
		for i := 7; i >= 0 && x != 0; i-- {
			if x>>uint(i)&1 == 0 {
				continue
			}
			if b[i] == 0 {
				b[i] = x
				r++
				break
			}
			x ^= b[i]
		}
	}
	return r
}

// Inverse returns the inverse matrix, if there is one.
func (m Mat) Inverse() (Mat, bool) {
	var a, b [8]byte // columns
	for j := 0; j < 8; j++ {
		a[j] = m.Col(j)
		b[j] = 1 << uint(j)
	}
	for i := 0; i < 8; i++ {
		p := -1
		for j := i; j < 8; j++ {
			if a[j]>>uint(i)&1 != 0 {
				p = j
				break
			}
		}
		if p < 0 {
			return 0, false
		}
		a[i], a[p] = a[p], a[i]
		b[i], b[p] = b[p], b[i]
		for j := 0; j < 8; j++ {
			if j != i && a[j]>>uint(i)&1 != 0 {
				a[j] ^= a[i]
				b[j] ^= b[i]
			}
		}
	}
	// now columns of m·B are the identity
	return MatFromCols(b), true
}

func MatDiag(mask byte) Mat {
	var m Mat
	for j := 0; j < 8; j++ {
		if mask>>uint(j)&1 != 0 {
			m |= Mat(1<<uint(j)) << (8 * uint(j))
		}
	}
	return m
}

func MatShl(s uint) Mat {
	var m Mat
	for j := uint(0); j < 8; j++ {
		if j+s < 8 {
			m |= Mat(1<<(j+s)) << (8 * j)
		}
	}
	return m
}

func MatShr(s uint) Mat {
	var m Mat
	for j := uint(0); j < 8; j++ {
		if j >= s {
			m |= Mat(1<<(j-s)) << (8 * j)
		}
	}
	return m
}

// GFMul multiplies in GF(2^8) modulo x^8+x^4+x^3+x^2+1 by shift and reduce.
// It is the reference the tables of the code under test are compared with.
func GFMul(a, b byte) byte {
	var r byte
	for b != 0 {
		if b&1 != 0 {
			r ^= a
		}
		c := a & 0x80
		a <<= 1
		if c != 0 {
			a ^= 0x1d
		}
		b >>= 1
	}
	return r
}

var (
	gfmul   [256][256]byte
	gfinv   [256]byte
	mulMat  [256]Mat
	matMul  map[Mat]byte
	frob    [8]Mat
	linDeco [8][8]byte // solves the linearised polynomial of a matrix
)

func init() {
	matMul = map[Mat]byte{}
	for a := 0; a < 256; a++ {
		for b := 0; b < 256; b++ {
			gfmul[a][b] = GFMul(byte(a), byte(b))
			if gfmul[a][b] == 1 {
				gfinv[a] = byte(b)
			}
		}
	}
	for a := 0; a < 256; a++ {
		var c [8]byte
		for j := 0; j < 8; j++ {
			c[j] = gfmul[a][1<<uint(j)]
		}
		mulMat[a] = MatFromCols(c)
		matMul[mulMat[a]] = byte(a)
	}
	// frob[i]: x -> x^(2^i)
	frob[0] = MatID
	var c [8]byte
	for j := 0; j < 8; j++ {
		x := byte(1) << uint(j)
		c[j] = gfmul[x][x]
	}
	frob[1] = MatFromCols(c)
	for i := 2; i < 8; i++ {
		frob[i] = frob[1].Mul(frob[i-1])
	}
	// V[j][i] = (e_j)^(2^i); matrix m: m(e_j) = sum_i c_i V[j][i].  invert V over GF(256)
	var v, inv [8][8]byte
	for j := 0; j < 8; j++ {
		for i := 0; i < 8; i++ {
			v[j][i] = frob[i].Apply(1 << uint(j))
		}
		inv[j][j] = 1
	}
	for i := 0; i < 8; i++ {
		p := i
		for v[p][i] == 0 {
			p++
		}
		v[i], v[p] = v[p], v[i]
		inv[i], inv[p] = inv[p], inv[i]
		s := gfinv[v[i][i]]
		for k := 0; k < 8; k++ {
			v[i][k] = gfmul[v[i][k]][s]
			inv[i][k] = gfmul[inv[i][k]][s]
		}
		for j := 0; j < 8; j++ {
			if j != i && v[j][i] != 0 {
				f := v[j][i]
				for k := 0; k < 8; k++ {
					v[j][k] ^= gfmul[v[i][k]][f]
					inv[j][k] ^= gfmul[inv[i][k]][f]
				}
			}
		}
	}
	linDeco = inv
}

// Linearised returns c with m(x) = sum c[i] x^(2^i).
func Linearised(m Mat) (c [8]byte) {
	for i := 0; i < 8; i++ {
		for j := 0; j < 8; j++ {
			c[i] ^= gfmul[linDeco[i][j]][m.Col(j)]
		}
	}
	return
}

func MulMat(c byte) Mat         { return mulMat[c] }
func Scalar(m Mat) (byte, bool) { c, ok := matMul[m]; return c, ok }
func GFInverse(a byte) byte     { return gfinv[a] }
