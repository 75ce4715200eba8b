package vh

import (
	"math"
	"math/big"

	"fast-ksw/ckks"
	"fast-ksw/ring"
)

// CK is a generated CKKS parameter set.
type CK struct {
	ckks.Parameters
	RP RP
	CI bool
	M  int // order of the roots of unity
}

// CKKS draws a CKKS parameter set.
func (c *C) CKKS(o RO, scale float64, label string) CK {
	rp := c.RLWE(o, label)
	max := rp.LogN() - 1
	if rp.RingType() == ring.ConjugateInvariant {
		max++
	}
	p, err := ckks.NewParameters(rp.Parameters, c.Uni(0, max, label+".logSlots"), scale)
	if err != nil {
		c.Fatalf("ckks.NewParameters: %v", err)
	}
	return CK{p, rp, rp.RingType() == ring.ConjugateInvariant, int(p.RingQ().NthRoot)}
}

// EvalSlots evaluates the polynomial with the given coefficients at the roots of unity zeta^(5^j), zeta of order m,
// directly from the definition of the canonical embedding (with X standing for X + 1/X in the conjugate-invariant ring).
func EvalSlots(a []float64, m, slots int, ci bool) []complex128 {
	cos, sin := make([]float64, m), make([]float64, m)
	for k := range cos {
		sin[k], cos[k] = math.Sincos(2 * math.Pi * float64(k) / float64(m))
	}
	out := make([]complex128, slots)
	g := 1
	for j := range out {
		re, im := 0.0, 0.0
		k := 0
		for i, v := range a {
			if v != 0 {
				if ci {
					f := 2.0
					if i == 0 {
						f = 1
					}
					re += f * v * cos[k]
				} else {
					re += v * cos[k]
					im += v * sin[k]
				}
			}
			k = (k + g) % m
		}
		out[j] = complex(re, im)
		g = g * 5 % m
	}
	return out
}

// BigFloats converts integers to the nearest float64.
func BigFloats(x []*big.Int) []float64 {
	out := make([]float64, len(x))
	for i := range x {
		out[i], _ = new(big.Float).SetInt(x[i]).Float64()
	}
	return out
}

// PtInts returns the centered integer coefficients of a polynomial at the given level.
func PtInts(r *ring.Ring, p *ring.Poly, level int, ntt, mform bool) []*big.Int {
	return NewCRT(r.Modulus[:level+1]).Centered(CoeffRows(r, p, level, ntt, mform))
}

// TModuli draws moduli of the auxiliary ring of the fast key switcher, whose product is larger, by a drawn margin, than the
// signed sums of products of a digit (of Q) and a block of a key (of P Q) it has to hold.
func (c *C) TModuli(Q, P []uint64, gamma, logN int, t61 bool) []uint64 {
	nq, np := len(Q), len(P)
	beta := (nq + np - 1) / np
	maxQ, maxR := new(big.Int), new(big.Int)
	for i := 0; i < nq; i += np {
		e := i + np
		if e > nq {
			e = nq
		}
		if x := Prod(Q[i:e]); x.Cmp(maxQ) > 0 {
			maxQ = x
		}
	}
	R := append(append([]uint64{}, P...), Q...)
	for i := 0; i < len(R); i += gamma {
		e := i + gamma
		if e > len(R) {
			e = len(R)
		}
		if x := Prod(R[i:e]); x.Cmp(maxR) > 0 {
			maxR = x
		}
	}
	need := new(big.Int).Mul(maxQ, maxR)
	need.Mul(need, big.NewInt(int64(2*beta)<<uint(logN)))
	need.Add(need, new(big.Int).Rsh(need, 8))
	tb := c.Uni(44, 60, "tbits")
	nt := (need.BitLen() + tb - 2) / (tb - 1)
	if nt < 1 {
		nt = 1
	}
	if c.Chance(1, 6, "moreT") {
		nt++
	} else if b := need.BitLen()/nt + 1; b > 30 && b < tb {
		tb = b
	}
	if c.Chance(1, 4, "T61") || t61 {
		tb = 61
		nt = need.BitLen()/60 + 1
	}
	var T []uint64
	for {
		T = Primes(tb, uint64(2)<<uint(logN), nt, tb == 61)
		if len(T) == nt && Prod(T).Cmp(need) > 0 {
			break
		}
		if tb++; tb > 61 {
			tb, nt = 61, nt+1
		}
	}
	c.Note("%d auxiliary moduli of %d bits (%d needed of %d)", nt, tb, need.BitLen(), Prod(T).BitLen())
	return T
}
