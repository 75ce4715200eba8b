package c01

import (
	"sort"
	"testing"

	"fast-ksw/ring"
	"vharness/vh"
)

func nthRoot(n int, t ring.Type) uint64 {
	if t == ring.ConjugateInvariant {
		return uint64(4 * n)
	}
	return uint64(2 * n)
}

func drawRing(c *vh.C, loLog, hiLog, maxMod int) (r *ring.Ring, t ring.Type, logN int) {
	logN = c.Uni(loLog, hiLog, "logN")
	t = ring.Type(c.Uni(0, 1, "type"))
	n := 1 << logN
	lo := logN + 4
	if lo < 16 {
		lo = 16
	}
	m := c.Moduli(c.Count(1, maxMod, wide(maxMod, logN), "nmod"), nthRoot(n, t), lo, 61, "q")
	r = vh.Ring(n, m, t)
	c.Note("N=2^%d type=%v moduli=%v", logN, t, m)
	return
}

// wide is the largest number of moduli: rings of small degree also have many.
func wide(maxMod, logN int) int {
	if maxMod > 1 && logN < 8 {
		return 20
	}
	return maxMod
}

// lazyAdd adds q to some residues so that they stay below 2q.
func lazyAdd(c *vh.C, p *ring.Poly, m []uint64) {
	r := c.Rng("lazyadd")
	for i := range p.Coeffs {
		for j := range p.Coeffs[i] {
			if r.IntN(2) == 0 {
				p.Coeffs[i][j] += m[i]
			}
		}
	}
}

func interesting(p *ring.Poly) bool {
	nz := 0
	for _, x := range p.Coeffs[0] {
		if x != 0 {
			nz++
		}
	}
	return nz > 1
}

// Round trip, ranges, agreement of all entry points, aliasing, untouched limbs.
func TestVariants(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 2500, Thorough: 6000, Rule: "ring x level x polynomial (structured or uniform; canonical or lazily reduced input); non-trivial: at least two non-zero coefficients"}, func(c *vh.C) {
		r, _, _ := drawRing(c, 4, 11, 3)
		N, M := r.N, r.Modulus
		p := c.Poly(N, M, "p")
		c.NonTrivial(interesting(p))
		canon := vh.Clone(p)
		if c.Bool("lazyInput") {
			lazyAdd(c, p, M)
			c.Class("lazy-input")
		}
		orig := vh.Clone(p)
		L := len(M) - 1
		lvl := c.Uni(0, L, "lvl")
		chk := func(name string, got, want []uint64, q, bound uint64) {
			if j := vh.CongVec(got, want, q); j >= 0 {
				c.Fatalf("%s: q=%d index %d: %d, want %d mod q", name, q, j, got[j], want[j])
			}
			for j, v := range got {
				if v >= bound {
					c.Fatalf("%s: q=%d index %d: value %d out of [0,%d)", name, q, j, v, bound)
				}
			}
		}
		fresh := func() *ring.Poly { // dirty destination
			o := ring.NewPoly(N, L+1)
			vh.Fill(vh.NewRand(77), o, M, "uniform")
			return o
		}
		sentinel := fresh()
		full := fresh()
		r.NTT(p, full)
		dir := func(name string, lz uint64, in, ref *ring.Poly,
			F, Fz func(a, b *ring.Poly), FL, FzL func(l int, a, b *ring.Poly), S, Sz func(l int, a, b []uint64)) {
			keep := vh.Clone(in)
			o := fresh()
			F(in, o)
			for i, q := range M {
				chk(name, o.Coeffs[i], ref.Coeffs[i], q, q)
			}
			o = fresh()
			Fz(in, o)
			for i, q := range M {
				chk(name+"Lazy", o.Coeffs[i], ref.Coeffs[i], q, lz*q)
			}
			for k, f := range []func(int, *ring.Poly, *ring.Poly){FL, FzL} {
				o = fresh()
				f(lvl, in, o)
				for i, q := range M {
					if i <= lvl {
						chk(name+"Lvl", o.Coeffs[i], ref.Coeffs[i], q, map[int]uint64{0: q, 1: lz * q}[k])
					} else if !vh.SameVec(o.Coeffs[i], sentinel.Coeffs[i]) {
						c.Fatalf("%sLvl(%d) wrote modulus %d", name, lvl, i)
					}
				}
			}
			o = fresh()
			S(lvl, in.Coeffs[lvl], o.Coeffs[lvl])
			chk(name+"Single", o.Coeffs[lvl], ref.Coeffs[lvl], M[lvl], M[lvl])
			Sz(lvl, in.Coeffs[lvl], o.Coeffs[lvl])
			chk(name+"SingleLazy", o.Coeffs[lvl], ref.Coeffs[lvl], M[lvl], lz*M[lvl])
			if !vh.Same(keep, in) {
				c.Fatalf("%s modified its input", name)
			}
			o = vh.Clone(in)
			F(o, o)
			for i, q := range M {
				chk(name+" in place", o.Coeffs[i], ref.Coeffs[i], q, q)
			}
			o = vh.Clone(in)
			Fz(o, o)
			for i, q := range M {
				chk(name+"Lazy in place", o.Coeffs[i], ref.Coeffs[i], q, lz*q)
			}
			o = vh.Clone(in)
			FL(lvl, o, o)
			FzL(lvl, fresh(), fresh())
			for i, q := range M {
				if i <= lvl {
					chk(name+"Lvl in place", o.Coeffs[i], ref.Coeffs[i], q, q)
				} else if !vh.SameVec(o.Coeffs[i], in.Coeffs[i]) {
					c.Fatalf("%sLvl(%d) in place wrote modulus %d", name, lvl, i)
				}
			}
			o = vh.Clone(in)
			S(lvl, o.Coeffs[lvl], o.Coeffs[lvl])
			chk(name+"Single in place", o.Coeffs[lvl], ref.Coeffs[lvl], M[lvl], M[lvl])
			o = vh.Clone(in)
			Sz(lvl, o.Coeffs[lvl], o.Coeffs[lvl])
			chk(name+"SingleLazy in place", o.Coeffs[lvl], ref.Coeffs[lvl], M[lvl], lz*M[lvl])
		}
		dir("NTT", 8, p, full, r.NTT, r.NTTLazy, r.NTTLvl, r.NTTLazyLvl, r.NTTSingle, r.NTTSingleLazy)
		if !vh.Same(orig, p) {
			c.Fatalf("NTT modified its input")
		}
		// inverse of the exact and of the lazy transform is the original
		dir("InvNTT", 2, full, canon, r.InvNTT, r.InvNTTLazy, r.InvNTTLvl, r.InvNTTLazyLvl, r.InvNTTSingle, r.InvNTTSingleLazy)
		z := vh.Clone(full) // lazily reduced input
		lazyAdd(c, z, M)
		dir("InvNTT of lazy", 2, z, canon, r.InvNTT, r.InvNTTLazy, r.InvNTTLvl, r.InvNTTLazyLvl, r.InvNTTSingle, r.InvNTTSingleLazy)
		// the other direction: the inverse of an arbitrary vector transforms back to it
		if c.Bool("otherway") {
			v := c.Poly(N, M, "v")
			o := fresh()
			r.InvNTT(v, o)
			r.NTT(o, o)
			for i, q := range M {
				chk("NTT(InvNTT)", o.Coeffs[i], v.Coeffs[i], q, q)
			}
		}
	})
}

// Products in the NTT domain are ring products.
func TestProduct(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 2500, Thorough: 6000, Rule: "two polynomials, schoolbook product in the ring; non-trivial: both have at least two non-zero coefficients"}, func(c *vh.C) {
		r, typ, logN := drawRing(c, 4, 8, 2)
		a, b := c.Poly(r.N, r.Modulus, "a"), c.Poly(r.N, r.Modulus, "b")
		c.NonTrivial(interesting(a) && interesting(b))
		c.Class("logN=%d,%v", logN, typ)
		A, B, o := r.NewPoly(), r.NewPoly(), r.NewPoly()
		lazy := c.Bool("lazy")
		if lazy {
			r.NTTLazy(a, A)
			r.NTTLazy(b, B)
		} else {
			r.NTT(a, A)
			r.NTT(b, B)
		}
		for i, q := range r.Modulus {
			for j := range A.Coeffs[i] {
				o.Coeffs[i][j] = vh.MulMod(A.Coeffs[i][j], B.Coeffs[i][j], q)
			}
		}
		if lazy {
			r.InvNTTLazy(o, o)
		} else {
			r.InvNTT(o, o)
		}
		for i, q := range r.Modulus {
			w := vh.RingMul(a.Coeffs[i], b.Coeffs[i], q, typ)
			if j := vh.CongVec(o.Coeffs[i], w, q); j >= 0 {
				c.Fatalf("product: q=%d coefficient %d: %d, want %d", q, j, o.Coeffs[i][j], w[j])
			}
		}
	})
}

// The transform values are the evaluations at the primitive roots (as a multiset).
func TestEvaluations(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 1200, Thorough: 4000, Rule: "polynomial evaluated directly at every primitive root; non-trivial: at least two non-zero coefficients"}, func(c *vh.C) {
		r, typ, _ := drawRing(c, 4, 8, 1)
		p := c.Poly(r.N, r.Modulus, "p")
		c.NonTrivial(interesting(p))
		q := r.Modulus[0]
		f := p.Coeffs[0]
		if typ == ring.ConjugateInvariant {
			f = vh.Unfold(f, q)
		}
		m := uint64(2 * len(f)) // order of the root
		// own primitive root
		var psi uint64
		for g := uint64(2); ; g++ {
			psi = vh.PowMod(g, (q-1)/m, q)
			if vh.PowMod(psi, m/2, q) == q-1 {
				break
			}
		}
		var want []uint64
		for k := uint64(1); k < m; k += 2 {
			if typ == ring.ConjugateInvariant && k > m/2 {
				break // one per conjugate pair
			}
			x := vh.PowMod(psi, k, q)
			acc := uint64(0)
			for j := len(f) - 1; j >= 0; j-- {
				acc = vh.AddMod(vh.MulMod(acc, x, q), f[j], q)
			}
			want = append(want, acc)
		}
		o := r.NewPoly()
		r.NTT(p, o)
		got := append([]uint64(nil), o.Coeffs[0]...)
		sort.Slice(got, func(i, j int) bool { return got[i] < got[j] })
		sort.Slice(want, func(i, j int) bool { return want[i] < want[j] })
		if !vh.SameVec(got, want) {
			c.Fatalf("NTT values are not the evaluations at the primitive roots (q=%d)", q)
		}
	})
}

// Large degrees: round trip and multiplication by a sparse polynomial.
func TestLarge(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 60, Thorough: 150, Rule: "degree 2^9..2^17, product with a polynomial of up to 4 terms; non-trivial: dense operand"}, func(c *vh.C) {
		r, typ, logN := drawRing(c, 9, 17, 1)
		c.Class("logN=%d,%v", logN, typ)
		q := r.Modulus[0]
		a := c.Poly(r.N, r.Modulus, "a")
		c.NonTrivial(interesting(a))
		b := r.NewPoly()
		for k := c.Int(1, 4, "terms"); k > 0; k-- {
			b.Coeffs[0][c.Int(0, r.N-1, "exp")] = c.Rng("coef").Uint64() % q
		}
		A, B := r.NewPoly(), r.NewPoly()
		r.NTT(a, A)
		r.NTT(b, B)
		o := r.NewPoly()
		r.InvNTT(A, o)
		if s := vh.Cong(o, a, r.Modulus, 0); s != "" {
			c.Fatalf("round trip: %s", s)
		}
		for j := range o.Coeffs[0] {
			o.Coeffs[0][j] = vh.MulMod(A.Coeffs[0][j], B.Coeffs[0][j], q)
		}
		r.InvNTT(o, o)
		w := vh.RingMul(b.Coeffs[0], a.Coeffs[0], q, typ)
		if j := vh.CongVec(o.Coeffs[0], w, q); j >= 0 {
			c.Fatalf("product with sparse polynomial: q=%d coefficient %d: %d, want %d", q, j, o.Coeffs[0][j], w[j])
		}
	})
}

// Derived rings (standard <-> conjugate-invariant) transform like freshly built ones.
func TestDerivedRings(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 600, Thorough: 2000, Rule: "StandardRing/ConjugateInvariantRing of a ring compared with the ring built directly"}, func(c *vh.C) {
		logN := c.Uni(5, 8, "logN")
		n := 1 << logN
		typ := ring.Type(c.Uni(0, 1, "type"))
		m := c.Moduli(c.Int(1, 3, "nmod"), uint64(4*n), 16, 61, "q")
		base, err := ring.NewRingFromType(n, m, typ)
		if err != nil {
			c.Fatalf("%v", err)
		}
		var d *ring.Ring
		want := ring.Standard
		wn := 2 * n
		if typ == ring.ConjugateInvariant {
			d, err = base.StandardRing()
		} else {
			d, err = base.ConjugateInvariantRing()
			want, wn = ring.ConjugateInvariant, n/2
		}
		if err != nil || d.Type() != want || d.N != wn {
			c.Fatalf("derived ring: err %v", err)
		}
		if base.Type() != typ || base.N != n {
			c.Fatalf("deriving changed the receiver")
		}
		ref := vh.Ring(wn, m, want)
		p := c.Poly(wn, m, "p")
		c.NonTrivial(interesting(p))
		a, b := ref.NewPoly(), d.NewPoly()
		ref.NTT(p, a)
		d.NTT(p, b)
		if s := vh.Cong(a, b, m, len(m)-1); s != "" {
			c.Fatalf("derived ring NTT: %s", s)
		}
		d.InvNTT(b, b)
		if s := vh.Cong(p, b, m, len(m)-1); s != "" {
			c.Fatalf("derived ring InvNTT: %s", s)
		}
		// the receiver still works
		p2 := c.Poly(n, m, "p2")
		x, y := base.NewPoly(), base.NewPoly()
		base.NTT(p2, x)
		vh.Ring(n, m, typ).NTT(p2, y)
		if s := vh.Cong(x, y, m, len(m)-1); s != "" {
			c.Fatalf("receiver after derivation: %s", s)
		}
	})
}
