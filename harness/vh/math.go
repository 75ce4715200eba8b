package vh

import (
	"fmt"
	"math/big"
	"math/bits"
	"sync"

	"fast-ksw/ring"
)

// MulMod returns a*b mod q for any a, b.
func MulMod(a, b, q uint64) uint64 {
	hi, lo := bits.Mul64(a%q, b%q)
	_, r := bits.Div64(hi, lo, q)
	return r
}

// AddMod returns a+b mod q for any a, b.
func AddMod(a, b, q uint64) uint64 {
	s, c := bits.Add64(a%q, b%q, 0)
	if c == 1 || s >= q {
		s -= q
	}
	return s
}

// SubMod returns a-b mod q for any a, b.
func SubMod(a, b, q uint64) uint64 { return AddMod(a, q-b%q, q) }

// PowMod returns a^e mod q.
func PowMod(a, e, q uint64) uint64 {
	r := uint64(1) % q
	a %= q
	for ; e > 0; e >>= 1 {
		if e&1 == 1 {
			r = MulMod(r, a, q)
		}
		a = MulMod(a, a, q)
	}
	return r
}

// InvMod returns the inverse of a modulo the prime q.
func InvMod(a, q uint64) uint64 { return PowMod(a, q-2, q) }

var primeMu sync.Mutex
var primeCache = map[[3]uint64][]uint64{}

// Primes returns n primes of exactly the given bit length, congruent to 1 modulo nthRoot, going
// down from 2^bits (down=true) or up from 2^(bits-1). Fewer may exist.
func Primes(bitlen int, nthRoot uint64, n int, down bool) []uint64 {
	primeMu.Lock()
	defer primeMu.Unlock()
	d := uint64(0)
	if down {
		d = 1
	}
	k := [3]uint64{uint64(bitlen), nthRoot, d}
	if l, ok := primeCache[k]; ok && len(l) >= n {
		return append([]uint64(nil), l[:n]...)
	}
	var out []uint64
	lo, hi := uint64(1)<<(bitlen-1), uint64(1)<<bitlen
	if down {
		for x := hi - nthRoot + 1; x > lo && x < hi && len(out) < n; x -= nthRoot {
			if new(big.Int).SetUint64(x).ProbablyPrime(20) {
				out = append(out, x)
			}
		}
	} else {
		for x := lo - lo%nthRoot + 1; x < hi && len(out) < n; x += nthRoot {
			if x > lo && new(big.Int).SetUint64(x).ProbablyPrime(20) {
				out = append(out, x)
			}
		}
	}
	primeCache[k] = out
	return append([]uint64(nil), out...)
}

// Moduli draws n distinct primes = 1 mod nthRoot with sizes in [loBits,hiBits].
func (c *C) Moduli(n int, nthRoot uint64, loBits, hiBits int, label string) []uint64 {
	used := map[uint64]bool{}
	var out []uint64
	style := c.Uni(0, 2, label+".style")
	b0 := c.Uni(loBits, hiBits, label+".bits")
	for i := 0; i < n; i++ {
		b := b0
		if style == 1 {
			b = c.Uni(loBits, hiBits, label+".bits_i")
		}
		if style == 2 {
			if i%2 == 1 {
				b = hiBits
			} else {
				b = loBits
			}
		}
		for found, tries := false, 0; !found; tries++ {
			if tries > 200 {
				panic(fmt.Sprintf("HARNESS-ERROR no %d distinct primes of %d..%d bits = 1 mod %d", n, loBits, hiBits, nthRoot))
			}
			for _, p := range Primes(b, nthRoot, n+2, c.Uni(0, 1, label+".down") == 0) {
				if !used[p] {
					used[p], found = true, true
					out = append(out, p)
					break
				}
			}
			if !found {
				b++
				if b > hiBits {
					b = loBits
				}
				if b == hiBits {
					// small sizes may hold too few primes
					for _, p := range Primes(hiBits, nthRoot, 3*n+4, true) {
						if !used[p] {
							used[p], found = true, true
							out = append(out, p)
							break
						}
					}
				}
			}
		}
	}
	return out
}

var ringMu sync.Mutex
var ringCache = map[string]*ring.Ring{}

// Ring returns a cached ring.
func Ring(n int, moduli []uint64, t ring.Type) *ring.Ring {
	ringMu.Lock()
	defer ringMu.Unlock()
	k := fmt.Sprint(n, moduli, t)
	if r, ok := ringCache[k]; ok {
		return r
	}
	if len(ringCache) > 400 {
		ringCache = map[string]*ring.Ring{}
	}
	r, err := ring.NewRingFromType(n, append([]uint64(nil), moduli...), t)
	if err != nil {
		panic(fmt.Sprintf("NewRingFromType(%d,%v,%v): %v", n, moduli, t, err))
	}
	ringCache[k] = r
	return r
}

// FillKind names the shapes Fill produces.
var FillKinds = []string{"uniform", "zero", "max", "edge", "sparse", "const", "alt", "small"}

// Fill writes residues of the given shape, canonical modulo each modulus, and independent per modulus.
func Fill(r *Rand, p *ring.Poly, moduli []uint64, kind string) {
	for i := range p.Coeffs {
		FillVec(r, p.Coeffs[i], moduli[i], kind)
	}
}

// FillVec fills one residue vector.
func FillVec(r *Rand, v []uint64, q uint64, kind string) {
	cst := r.Uint64() % q
	for j := range v {
		switch kind {
		case "zero":
			v[j] = 0
		case "max":
			v[j] = q - 1
		case "edge":
			v[j] = Edge(r, q)
		case "sparse":
			v[j] = 0
			if r.IntN(16) == 0 {
				v[j] = r.Uint64() % q
			}
		case "const":
			v[j] = cst
		case "alt":
			v[j] = uint64(j&1) * (q - 1)
		case "small":
			v[j] = SubMod(uint64(r.IntN(7)), 3, q)
		default:
			v[j] = r.Uint64() % q
		}
	}
	if kind == "sparse" {
		v[r.IntN(len(v))] = 1
	}
}

// Edge returns a residue near an interesting boundary.
func Edge(r *Rand, q uint64) uint64 {
	base := []uint64{0, 1, 2, q - 1, q - 2, q / 2, q/2 + 1, q/2 - 1, q / 3, q - q/3, (1 << 31) % q, (1 << 32) % q}
	return base[r.IntN(len(base))] % q
}

// Poly draws a polynomial of nb moduli with canonical residues.
func (c *C) Poly(n int, moduli []uint64, label string) *ring.Poly {
	kind := c.Pick(label+".kind", "uniform", "uniform", "edge", "max", "sparse", "alt", "small", "zero", "const")
	p := ring.NewPoly(n, len(moduli))
	Fill(c.Rng(label), p, moduli, kind)
	return p
}

// Clone copies the residues and flags of p with the harness's own loop.
func Clone(p *ring.Poly) *ring.Poly {
	o := ring.NewPoly(len(p.Coeffs[0]), len(p.Coeffs))
	for i := range p.Coeffs {
		copy(o.Coeffs[i], p.Coeffs[i])
	}
	o.IsNTT, o.IsMForm = p.IsNTT, p.IsMForm
	return o
}

// Same reports whether residues (and flags) are bit-identical.
func Same(a, b *ring.Poly) bool {
	return SameCoeffs(a, b, len(a.Coeffs)-1) && len(a.Coeffs) == len(b.Coeffs) && a.IsNTT == b.IsNTT && a.IsMForm == b.IsMForm
}

// SameCoeffs compares residues up to the level, bit for bit.
func SameCoeffs(a, b *ring.Poly, level int) bool {
	if len(a.Coeffs) <= level || len(b.Coeffs) <= level {
		return false
	}
	for i := 0; i <= level; i++ {
		if !SameVec(a.Coeffs[i], b.Coeffs[i]) {
			return false
		}
	}
	return true
}

// SameVec compares vectors.
func SameVec(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for j := range a {
		if a[j] != b[j] {
			return false
		}
	}
	return true
}

// CongVec returns the first index where a and b differ modulo q, or -1.
func CongVec(a, b []uint64, q uint64) int {
	if len(a) != len(b) {
		return 0
	}
	for j := range a {
		if a[j] != b[j] && a[j]%q != b[j]%q {
			return j
		}
	}
	return -1
}

// Cong compares two polynomials modulo each modulus up to the level; "" if congruent.
func Cong(a, b *ring.Poly, moduli []uint64, level int) string {
	if len(a.Coeffs) <= level || len(b.Coeffs) <= level {
		return fmt.Sprintf("levels %d,%d below %d", len(a.Coeffs)-1, len(b.Coeffs)-1, level)
	}
	for i := 0; i <= level; i++ {
		if j := CongVec(a.Coeffs[i], b.Coeffs[i], moduli[i]); j >= 0 {
			return fmt.Sprintf("modulus %d (%d) coefficient %d: %d != %d", i, moduli[i], j, a.Coeffs[i][j], b.Coeffs[i][j])
		}
	}
	return ""
}

// dense tells whether the schoolbook product would take more than a few thousand steps.
func dense(n, na, nb int) bool { return n >= 64 && na > 16 && nb > 16 }

// NegMul is the schoolbook product in Z_q[X]/(X^N+1); long dense ones are computed as one product of integers
// (the polynomials at 2^192).
func NegMul(a, b []uint64, q uint64) []uint64 {
	n := len(a)
	na, nb := 0, 0
	for i := range a {
		if a[i] != 0 {
			na++
		}
		if b[i] != 0 {
			nb++
		}
	}
	if dense(n, na, nb) && bits.UintSize == 64 {
		pack := func(a []uint64) *big.Int {
			w := make([]big.Word, 3*n)
			for i, v := range a {
				w[3*i] = big.Word(v)
			}
			return new(big.Int).SetBits(w)
		}
		w := make([]big.Word, 6*n)
		copy(w, new(big.Int).Mul(pack(a), pack(b)).Bits())
		o := make([]uint64, n)
		at := func(k int) uint64 {
			_, r := bits.Div64(0, uint64(w[3*k+2]), q)
			_, r = bits.Div64(r, uint64(w[3*k+1]), q)
			_, r = bits.Div64(r, uint64(w[3*k]), q)
			return r
		}
		for k := range o {
			o[k] = SubMod(at(k), at(k+n), q)
		}
		return o
	}
	o := make([]uint64, n)
	for i := range a {
		if a[i] == 0 {
			continue
		}
		for j := range b {
			if b[j] == 0 {
				continue
			}
			v := MulMod(a[i], b[j], q)
			if k := i + j; k < n {
				o[k] = AddMod(o[k], v, q)
			} else {
				o[k-n] = SubMod(o[k-n], v, q)
			}
		}
	}
	return o
}

// Unfold maps a conjugate-invariant polynomial (coefficients of 1, X+X^-1, X^2+X^-2, ...) of degree N
// to Z_q[X]/(X^2N+1).
func Unfold(a []uint64, q uint64) []uint64 {
	n := len(a)
	o := make([]uint64, 2*n)
	o[0] = a[0] % q
	for i := 1; i < n; i++ {
		o[i] = a[i] % q
		o[2*n-i] = SubMod(0, a[i], q) // X^-i = -X^(2N-i)
	}
	return o
}

// RingMul is the schoolbook product in the ring of the given type.
func RingMul(a, b []uint64, q uint64, t ring.Type) []uint64 {
	if t == ring.Standard {
		return NegMul(a, b, q)
	}
	return NegMul(Unfold(a, q), Unfold(b, q), q)[:len(a)]
}

// BigMul is the exact product over Z in the ring of the given type (X^N+1, or conjugate-invariant).
func BigMul(a, b []*big.Int, t ring.Type) []*big.Int {
	if t == ring.ConjugateInvariant {
		n := len(a)
		return BigMul(BigUnfold(a), BigUnfold(b), ring.Standard)[:n]
	}
	n := len(a)
	o := make([]*big.Int, n)
	na, nb, wa, wb := 0, 0, 0, 0
	for i := range a {
		if l := a[i].BitLen(); l > 0 {
			na++
			if l > wa {
				wa = l
			}
		}
		if l := b[i].BitLen(); l > 0 {
			nb++
			if l > wb {
				wb = l
			}
		}
	}
	if dense(n, na, nb) {
		const W = bits.UintSize
		k := (wa + wb + bits.Len(uint(n)) + 2 + W - 1) / W // words per coefficient
		pack := func(a []*big.Int) *big.Int {
			pos, neg := make([]big.Word, k*n), make([]big.Word, k*n)
			for i, v := range a {
				if v.Sign() > 0 {
					copy(pos[k*i:], v.Bits())
				} else {
					copy(neg[k*i:], v.Bits())
				}
			}
			return new(big.Int).Sub(new(big.Int).SetBits(pos), new(big.Int).SetBits(neg))
		}
		off := make([]big.Word, 2*k*n)
		for i := k - 1; i < len(off); i += k {
			off[i] = 1 << (W - 1)
		}
		half := new(big.Int).Lsh(big.NewInt(1), uint(k*W-1))
		p := new(big.Int).Mul(pack(a), pack(b))
		p.Add(p, new(big.Int).SetBits(off))
		w := make([]big.Word, 2*k*n)
		copy(w, p.Bits())
		at := func(i int) *big.Int {
			d := make([]big.Word, k)
			copy(d, w[k*i:])
			x := new(big.Int).SetBits(d)
			return x.Sub(x, half)
		}
		for i := range o {
			o[i] = at(i)
			o[i].Sub(o[i], at(i+n))
		}
		return o
	}
	for i := range o {
		o[i] = new(big.Int)
	}
	v := new(big.Int)
	for i := range a {
		if a[i].Sign() == 0 {
			continue
		}
		for j := range b {
			if b[j].Sign() == 0 {
				continue
			}
			v.Mul(a[i], b[j])
			if k := i + j; k < n {
				o[k].Add(o[k], v)
			} else {
				o[k-n].Sub(o[k-n], v)
			}
		}
	}
	return o
}

// BigUnfold is Unfold over Z.
func BigUnfold(a []*big.Int) []*big.Int {
	n := len(a)
	o := make([]*big.Int, 2*n)
	o[0] = new(big.Int).Set(a[0])
	o[n] = new(big.Int)
	for i := 1; i < n; i++ {
		o[i] = new(big.Int).Set(a[i])
		o[2*n-i] = new(big.Int).Neg(a[i])
	}
	return o
}

// Prod returns the product of the moduli.
func Prod(m []uint64) *big.Int {
	p := big.NewInt(1)
	for _, q := range m {
		p.Mul(p, new(big.Int).SetUint64(q))
	}
	return p
}

// CRT holds what reconstruction over a list of moduli needs.
type CRT struct {
	Q      *big.Int
	moduli []uint64
	w      []*big.Int
}

var crtMu sync.Mutex
var crtCache = map[string]*CRT{}

// NewCRT prepares reconstruction.
func NewCRT(m []uint64) *CRT {
	crtMu.Lock()
	defer crtMu.Unlock()
	k := fmt.Sprint(m)
	if c, ok := crtCache[k]; ok {
		return c
	}
	if len(crtCache) > 2000 {
		crtCache = map[string]*CRT{}
	}
	c := &CRT{Q: Prod(m), moduli: append([]uint64(nil), m...)}
	for _, q := range m {
		bq := new(big.Int).SetUint64(q)
		h := new(big.Int).Div(c.Q, bq)
		inv := new(big.Int).ModInverse(new(big.Int).Mod(h, bq), bq)
		c.w = append(c.w, h.Mul(h, inv))
	}
	crtCache[k] = c
	return c
}

// At reconstructs coefficient j in [0,Q).
func (c *CRT) At(coeffs [][]uint64, j int) *big.Int {
	x := new(big.Int)
	t := new(big.Int)
	for i := range c.moduli {
		x.Add(x, t.Mul(c.w[i], t.SetUint64(coeffs[i][j])))
	}
	return x.Mod(x, c.Q)
}

// Center maps x of [0,Q) to (-Q/2,Q/2].
func (c *CRT) Center(x *big.Int) *big.Int {
	if new(big.Int).Lsh(x, 1).Cmp(c.Q) > 0 {
		return new(big.Int).Sub(x, c.Q)
	}
	return x
}

// All reconstructs all coefficients in [0,Q).
func (c *CRT) All(coeffs [][]uint64) []*big.Int {
	o := make([]*big.Int, len(coeffs[0]))
	for j := range o {
		o[j] = c.At(coeffs, j)
	}
	return o
}

// Centered reconstructs all coefficients in (-Q/2,Q/2].
func (c *CRT) Centered(coeffs [][]uint64) []*big.Int {
	o := c.All(coeffs)
	for j := range o {
		o[j] = c.Center(o[j])
	}
	return o
}

// FromBig returns the residues of the integers.
func FromBig(x []*big.Int, moduli []uint64) *ring.Poly {
	p := ring.NewPoly(len(x), len(moduli))
	t := new(big.Int)
	for i, q := range moduli {
		bq := new(big.Int).SetUint64(q)
		for j := range x {
			p.Coeffs[i][j] = t.Mod(x[j], bq).Uint64()
		}
	}
	return p
}

// MaxAbs is the infinity norm.
func MaxAbs(x []*big.Int) *big.Int {
	m := new(big.Int)
	for _, v := range x {
		if v.CmpAbs(m) > 0 {
			m.Abs(v)
		}
	}
	return m
}

// BigSub returns a-b centered modulo q.
func BigSub(a, b []*big.Int, q *big.Int) []*big.Int {
	o := make([]*big.Int, len(a))
	h := new(big.Int).Rsh(q, 1)
	for i := range a {
		v := new(big.Int).Sub(a[i], b[i])
		v.Mod(v, q)
		if v.Cmp(h) > 0 {
			v.Sub(v, q)
		}
		o[i] = v
	}
	return o
}

// Big rounds toward zero.
func Big(x int64) *big.Int { return big.NewInt(x) }
