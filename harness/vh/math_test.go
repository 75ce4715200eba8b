package vh

import (
	"math/big"
	"testing"

	"fast-ksw/ring"
)

// The two ways to multiply agree.
func TestProducts(t *testing.T) {
	r := NewRand(3)
	for _, n := range []int{64, 128, 256} {
		for _, q := range []uint64{3, 65537, 1<<61 - 1} {
			for _, kind := range []string{"uniform", "edge", "max", "mixed"} {
				a, b := make([]uint64, n), make([]uint64, n)
				FillVec(r, a, q, kind)
				FillVec(r, b, q, kind)
				x := NegMul(a, b, q)
				// linearity: rows of one coefficient at a time take the schoolbook path
				w := make([]uint64, n)
				for i := range a {
					e := make([]uint64, n)
					e[i] = a[i]
					for j, v := range NegMul(e, b, q) {
						w[j] = AddMod(w[j], v, q)
					}
				}
				if !SameVec(x, w) {
					t.Fatalf("NegMul n=%d q=%d %s", n, q, kind)
				}
			}
		}
		for _, bitlen := range []int{1, 3, 63, 64, 65, 200} {
			a, b := make([]*big.Int, n), make([]*big.Int, n)
			for i := range a {
				for _, x := range [][]*big.Int{a, b} {
					v := new(big.Int)
					for k := 0; k < bitlen; k++ {
						v.SetBit(v, k, uint(r.IntN(2))|uint(i&1))
					}
					if r.IntN(2) == 0 {
						v.Neg(v)
					}
					x[i] = v
				}
			}
			for _, typ := range []ring.Type{ring.Standard, ring.ConjugateInvariant} {
				x := BigMul(a, b, typ)
				w := make([]*big.Int, n)
				for i := range w {
					w[i] = new(big.Int)
				}
				for i := range a {
					e := make([]*big.Int, n)
					for j := range e {
						e[j] = new(big.Int)
					}
					e[i] = a[i]
					for j, v := range BigMul(e, b, typ) {
						w[j].Add(w[j], v)
					}
				}
				for i := range w {
					if w[i].Cmp(x[i]) != 0 {
						t.Fatalf("BigMul n=%d bits=%d type=%d coefficient %d: %v %v", n, bitlen, typ, i, x[i], w[i])
					}
				}
			}
		}
	}
}
