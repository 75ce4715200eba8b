package vh

import (
	"fmt"
	"math/big"

	"fast-ksw/ring"
	"fast-ksw/rlwe"
)

// RP is a generated parameter set with the constants the noise bounds need.
type RP struct {
	rlwe.Parameters
	Noise int64 // largest error coefficient, int(6 sigma)
	F     int64 // expansion of a product: |ab| <= F |a|_1 |b|_inf
}

// RO bounds a generated parameter set.
type RO struct {
	LogNLo, LogNHi int
	QLo, QHi       int
	PLo, PHi       int
	BitsLo, BitsHi int
	CI             bool // also conjugate-invariant rings
	Wide           int  // larger degrees than usual among the rare ones
	Extra          int  // the moduli also fit a ring 2^Extra times larger
	BigSigma       bool // also large deviations
	PBitsLo        int  // sizes of the auxiliary moduli, if different (disjoint from those of Q)
	PBitsHi        int
}

// RLWE draws a parameter set.
func (c *C) RLWE(o RO, label string) RP {
	wide := o.LogNHi + 3 + o.Wide
	if o.BitsHi < wide+o.Extra+20 { // too few primes
		wide = o.LogNHi
	}
	logN := c.Deg(o.LogNLo, o.LogNHi, wide, label+".logN")
	typ := ring.Standard
	nth := uint64(2) << uint(logN+o.Extra)
	if o.CI && c.Chance(1, 3, label+".ci") {
		typ = ring.ConjugateInvariant
		nth <<= 1
	}
	nq, np := c.Count(o.QLo, o.QHi, o.QHi+10, label+".q"), c.Uni(o.PLo, o.PHi, label+".p")
	var m []uint64
	if o.PBitsHi != 0 {
		m = append(c.Moduli(nq, nth, o.BitsLo, o.BitsHi, label), c.Moduli(np, nth, o.PBitsLo, o.PBitsHi, label+".P")...)
	} else {
		m = c.Moduli(nq+np, nth, o.BitsLo, o.BitsHi, label)
	}
	h := 1 << uint(logN-1)
	switch c.Uni(0, 3, label+".h") {
	case 0:
		h = 1 + c.Uni(0, 5, label+".hsmall")
	case 1:
		h = 1 << uint(logN)
	}
	sigma := 3.2
	if o.BigSigma && c.Chance(1, 4, label+".sigma") {
		sigma = float64(c.PickInt(label+".sigmav", 1, 20, 1000, 40000))
	}
	p, err := rlwe.NewParameters(logN, m[:nq], m[nq:], h, sigma, typ)
	if err != nil {
		c.Fatalf("NewParameters(logN=%d q=%v p=%v type=%v): %v", logN, m[:nq], m[nq:], typ, err)
	}
	c.Note("logN=%d q=%d p=%d bits=%d..%d h=%d sigma=%g type=%d", logN, nq, np, o.BitsLo, o.BitsHi, h, sigma, typ)
	return NewRP(p)
}

// NewRP adds the constants.
func NewRP(p rlwe.Parameters) RP {
	r := RP{p, int64(6 * p.Sigma()), 1}
	if p.RingType() == ring.ConjugateInvariant {
		r.F = 2
	}
	return r
}

// CoeffRows returns limbs 0..level of p in coefficient form, reduced, as a copy.
func CoeffRows(r *ring.Ring, p *ring.Poly, level int, ntt, mform bool) [][]uint64 {
	q := ring.NewPoly(len(p.Coeffs[0]), level+1)
	for i := range q.Coeffs {
		for j, v := range p.Coeffs[i] {
			q.Coeffs[i][j] = v % r.Modulus[i]
		}
	}
	if ntt {
		r.InvNTTLvl(level, q, q)
	}
	for i := range q.Coeffs {
		m := r.Modulus[i]
		inv := uint64(1)
		if mform {
			inv = InvMod(PowMod(2, 64, m), m)
		}
		for j, v := range q.Coeffs[i] {
			if v >= m {
				v -= m
			}
			if mform {
				v = MulMod(v, inv, m)
			}
			q.Coeffs[i][j] = v
		}
	}
	return q.Coeffs
}

// CenterRow maps residues to the symmetric range.
func CenterRow(v []uint64, q uint64) []int64 {
	o := make([]int64, len(v))
	for i, x := range v {
		x %= q
		if x > q/2 {
			o[i] = -int64(q - x)
		} else {
			o[i] = int64(x)
		}
	}
	return o
}

// Residues maps small integers to residues.
func Residues(s []int64, q uint64) []uint64 {
	o := make([]uint64, len(s))
	for i, v := range s {
		if v < 0 {
			o[i] = (q - uint64(-v)%q) % q
		} else {
			o[i] = uint64(v) % q
		}
	}
	return o
}

// SmallQP reads a polynomial of small integers from its residues modulo every modulus of Q and P; an error tells that
// the residues disagree.
func SmallQP(p rlwe.Parameters, v rlwe.PolyQP, ntt, mform bool) ([]int64, error) {
	var s []int64
	var q0 uint64
	see := func(r *ring.Ring, x *ring.Poly, name string) error {
		for i, row := range CoeffRows(r, x, x.Level(), ntt, mform) {
			q := r.Modulus[i]
			if s == nil {
				s, q0 = CenterRow(row, q), q
				continue
			}
			for j, w := range Residues(s, q) {
				if w != row[j] {
					return fmt.Errorf("coefficient %d is %d modulo %d but %d modulo %s[%d]=%d", j, s[j], q0, CenterRow(row[j:j+1], q)[0], name, i, q)
				}
			}
		}
		return nil
	}
	if err := see(p.RingQ(), v.Q, "Q"); err != nil {
		return nil, err
	}
	if v.P != nil && p.RingP() != nil {
		if err := see(p.RingP(), v.P, "P"); err != nil {
			return nil, err
		}
	}
	return s, nil
}

// Secret reads the coefficients of a secret key.
func Secret(c *C, p rlwe.Parameters, sk *rlwe.SecretKey) []int64 {
	s, err := SmallQP(p, sk.Value, true, true)
	if err != nil {
		c.Fatalf("secret key: %v", err)
	}
	return s
}

// L1 is the sum of the absolute values.
func L1(s []int64) int64 {
	var n int64
	for _, v := range s {
		if v < 0 {
			v = -v
		}
		n += v
	}
	return n
}

// LInf is the largest absolute value.
func LInf(s []int64) int64 {
	var n int64
	for _, v := range s {
		if v < 0 {
			v = -v
		}
		if v > n {
			n = v
		}
	}
	return n
}

// PhaseRows evaluates sum val_i s^i modulo each modulus up to level, in coefficient form.
func PhaseRows(r *ring.Ring, val []*ring.Poly, ntt bool, s []int64, level int) [][]uint64 {
	var acc [][]uint64
	for i := len(val) - 1; i >= 0; i-- {
		rows := CoeffRows(r, val[i], level, ntt, false)
		if acc == nil {
			acc = rows
			continue
		}
		for l := range acc {
			q := r.Modulus[l]
			x := RingMul(acc[l], Residues(s, q), q, r.Type())
			for j := range x {
				x[j] = AddMod(x[j], rows[l][j], q)
			}
			acc[l] = x
		}
	}
	return acc
}

// Phase is PhaseRows reconstructed and centered.
func Phase(r *ring.Ring, val []*ring.Poly, ntt bool, s []int64, level int) []*big.Int {
	return NewCRT(r.Modulus[:level+1]).Centered(PhaseRows(r, val, ntt, s, level))
}

// BigRows reconstructs and centers rows.
func BigRows(rows [][]uint64, moduli []uint64) []*big.Int {
	return NewCRT(moduli[:len(rows)]).Centered(rows)
}

// SubRows subtracts coefficient-wise.
func SubRows(a, b [][]uint64, moduli []uint64) [][]uint64 {
	o := make([][]uint64, len(a))
	for i := range a {
		o[i] = make([]uint64, len(a[i]))
		for j := range a[i] {
			o[i][j] = SubMod(a[i][j], b[i][j], moduli[i])
		}
	}
	return o
}

// Ints converts.
func Ints(s []int64) []*big.Int {
	o := make([]*big.Int, len(s))
	for i := range s {
		o[i] = big.NewInt(s[i])
	}
	return o
}

// AutoInts applies X -> X^g to an integer polynomial of the ring of the given type.
func AutoInts(s []int64, g uint64, t ring.Type) []int64 {
	n := len(s)
	if t == ring.ConjugateInvariant {
		u := make([]int64, 2*n)
		u[0] = s[0]
		for i := 1; i < n; i++ {
			u[i], u[2*n-i] = s[i], -s[i]
		}
		return AutoInts(u, g, ring.Standard)[:n]
	}
	o := make([]int64, n)
	for i := range s {
		k := int(uint64(i) * (g % uint64(2*n)) % uint64(2*n))
		if k < n {
			o[k] = s[i]
		} else {
			o[k-n] = -s[i]
		}
	}
	return o
}

// AutoRow applies X -> X^g to residues.
func AutoRow(s []uint64, q, g uint64, t ring.Type) []uint64 {
	n := len(s)
	if t == ring.ConjugateInvariant {
		return AutoRow(Unfold(s, q), q, g, ring.Standard)[:n]
	}
	o := make([]uint64, n)
	for i := range s {
		k := int(uint64(i) * (g % uint64(2*n)) % uint64(2*n))
		if k < n {
			o[k] = s[i] % q
		} else {
			o[k-n] = SubMod(0, s[i], q)
		}
	}
	return o
}
