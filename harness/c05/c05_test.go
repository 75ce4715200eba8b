package c05

import (
	"testing"

	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"vharness/vh"
)

func dirty(r *vh.Rand, n int, m []uint64) *ring.Poly {
	p := ring.NewPoly(n, len(m))
	vh.Fill(r, p, m, "uniform")
	return p
}

// auto applies X -> X^g (g odd, modulo 2n) to a vector of Z_q[X]/(X^n+1).
func auto(a []uint64, g, q uint64) []uint64 {
	n := uint64(len(a))
	o := make([]uint64, n)
	for i := uint64(0); i < n; i++ {
		e := (i * (g % (2 * n))) % (2 * n)
		if e < n {
			o[e] = a[i] % q
		} else {
			o[e-n] = vh.SubMod(0, a[i], q)
		}
	}
	return o
}

// galEl draws an odd Galois element: small, generator powers, near NthRoot or beyond.
func galEl(c *vh.C, nthRoot uint64, label string) uint64 {
	switch c.Uni(0, 4, label+".kind") {
	case 0:
		return nthRoot - 1
	case 1:
		return vh.PowMod(5, uint64(c.Uni(0, int(nthRoot)/4, label+".k")), nthRoot)
	case 2:
		return nthRoot + uint64(2*c.Uni(0, 100, label+".v")+1)
	}
	return uint64(2*c.Uni(0, int(nthRoot)/2-1, label+".odd") + 1)
}

func above(c *vh.C, what string, got, before *ring.Poly, level int) {
	for i := level + 1; i < len(before.Coeffs); i++ {
		if !vh.SameVec(got.Coeffs[i], before.Coeffs[i]) {
			c.Fatalf("%s wrote limb %d above level %d", what, i, level)
		}
	}
}

func genRing(c *vh.C, maxLogN int, t ring.Type) (*ring.Ring, []uint64, int) {
	hi := 15
	if vh.Thorough() {
		hi = 16
	}
	logN := c.Deg(4, maxLogN, hi, "logN")
	n := 1 << uint(logN)
	k := uint64(2)
	if t == ring.ConjugateInvariant {
		k = 4
	}
	nQ := c.Count(1, 3, 12, "nQ")
	if logN > maxLogN {
		nQ = c.Uni(1, 2, "nQlarge")
	}
	m := c.Moduli(nQ, k*uint64(n), 24, 61, "mod")
	return vh.Ring(n, m, t), m, c.Uni(0, len(m)-1, "level")
}

func TestAutomorphism(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 1500, Thorough: 5000, Rule: "standard ring of degree 16..512, rarely larger, any odd element, level; coefficient definition against both domains; non-trivial: element not 1 and polynomial not zero"}, func(c *vh.C) {
		rg, m, level := genRing(c, 9, ring.Standard)
		n := rg.N
		g := galEl(c, uint64(2*n), "g")
		p := c.Poly(n, m, "p")
		p0 := vh.Clone(p)
		c.NonTrivial(g != 1 && !zero(p))
		want := ring.NewPoly(n, len(m))
		for i, q := range m {
			want.Coeffs[i] = auto(p.Coeffs[i], g, q)
		}
		r := c.Rng("dirt")
		out := dirty(r, n, m)
		rg.Permute(p, g, out)
		if s := vh.Cong(out, want, m, len(m)-1); s != "" {
			c.Fatalf("Permute g=%d: %s", g, s)
		}
		if !vh.Same(p, p0) {
			c.Fatalf("Permute changed its input")
		}
		pn := vh.Clone(p)
		rg.NTT(pn, pn)
		pn0 := vh.Clone(pn)
		check := func(name string, o, before *ring.Poly, lv int) {
			if !vh.Same(pn, pn0) {
				c.Fatalf("%s changed its input", name)
			}
			above(c, name, o, before, lv)
			d := vh.Clone(o)
			rg.InvNTTLvl(lv, o, d)
			if s := vh.Cong(d, want, m, lv); s != "" {
				c.Fatalf("%s g=%d: %s", name, g, s)
			}
		}
		o := dirty(r, n, m)
		rg.PermuteNTT(pn, g, o)
		check("PermuteNTT", o, o, len(m)-1)
		o = dirty(r, n, m)
		o0 := vh.Clone(o)
		rg.PermuteNTTLvl(level, pn, g, o)
		check("PermuteNTTLvl", o, o0, level)
		// output of a lower level
		o = dirty(r, n, m[:level+1])
		rg.PermuteNTT(pn, g, o)
		check("PermuteNTT to a lower level", o, o, level)
		idx := rg.PermuteNTTIndex(g)
		o = dirty(r, n, m)
		o0 = vh.Clone(o)
		rg.PermuteNTTWithIndexLvl(level, pn, idx, o)
		check("PermuteNTTWithIndexLvl", o, o0, level)
		acc := dirty(r, n, m)
		acc0 := vh.Clone(acc)
		rg.PermuteNTTWithIndexAndAddNoModLvl(level, pn, idx, acc)
		for i := 0; i <= level; i++ {
			for j := range acc.Coeffs[i] {
				if acc.Coeffs[i][j] != acc0.Coeffs[i][j]+o.Coeffs[i][j] {
					c.Fatalf("AndAddNoMod differs at limb %d, %d", i, j)
				}
			}
		}
		above(c, "PermuteNTTWithIndexAndAddNoModLvl", acc, acc0, level)

		// the union ring, each part at its level
		if c.Bool("union") {
			lp := c.Uni(0, len(m)-1, "lp")
			sub := rlwe.RingQP{RingQ: rg, RingP: rg}
			switch c.Uni(0, 3, "part") {
			case 0:
				sub.RingQ = nil
			case 1:
				sub.RingP = nil
			}
			src, dst := rlwe.PolyQP{Q: pn, P: pn}, rlwe.PolyQP{Q: dirty(r, n, m), P: dirty(r, n, m)}
			d0 := dst.CopyNew()
			add := c.Bool("add")
			name := "RingQP.PermuteNTTWithIndexLvl"
			if add {
				name = "RingQP.PermuteNTTWithIndexAndAddNoModLvl"
				sub.PermuteNTTWithIndexAndAddNoModLvl(level, lp, src, idx, dst)
			} else {
				sub.PermuteNTTWithIndexLvl(level, lp, src, idx, dst)
			}
			for k, x := range []struct {
				rg       *ring.Ring
				lv       int
				got, was *ring.Poly
			}{{sub.RingQ, level, dst.Q, d0.Q}, {sub.RingP, lp, dst.P, d0.P}} {
				if x.rg == nil {
					if !vh.Same(x.got, x.was) {
						c.Fatalf("%s writes part %d, whose ring is missing", name, k)
					}
					continue
				}
				if add {
					for i := 0; i <= x.lv; i++ {
						for j := range x.got.Coeffs[i] {
							x.got.Coeffs[i][j] -= x.was.Coeffs[i][j]
						}
					}
				}
				check(name, x.got, x.was, x.lv)
			}
		}

		// composition and inverse
		h := galEl(c, uint64(2*n), "h")
		a, b, d := dirty(r, n, m), dirty(r, n, m), dirty(r, n, m)
		rg.PermuteNTT(pn, g, a)
		rg.PermuteNTT(a, h, b)
		rg.PermuteNTT(pn, (g*h)%uint64(2*n), d)
		if s := vh.Cong(b, d, m, len(m)-1); s != "" {
			c.Fatalf("composition of %d and %d: %s", g, h, s)
		}
	})
}

func zero(p *ring.Poly) bool {
	for _, v := range p.Coeffs {
		for _, x := range v {
			if x != 0 {
				return false
			}
		}
	}
	return true
}

func TestAutomorphismConjugateInvariant(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 800, Thorough: 3000, Rule: "conjugate-invariant ring, elements = 1 mod 4; NTT-domain result against the automorphism of the unfolded polynomial; non-trivial: element not 1, polynomial not zero"}, func(c *vh.C) {
		rg, m, level := genRing(c, 8, ring.ConjugateInvariant)
		n := rg.N
		g := galEl(c, uint64(4*n), "g")
		if g%4 == 3 {
			g += 2
		}
		p := c.Poly(n, m, "p")
		c.NonTrivial(g != 1 && !zero(p))
		pn, o := vh.Clone(p), dirty(c.Rng("dirt"), n, m)
		rg.NTT(pn, pn)
		o0 := vh.Clone(o)
		rg.PermuteNTTLvl(level, pn, g, o)
		above(c, "PermuteNTTLvl", o, o0, level)
		rg.InvNTTLvl(level, o, o)
		for i := 0; i <= level; i++ {
			want := auto(vh.Unfold(p.Coeffs[i], m[i]), g, m[i])
			if j := vh.CongVec(vh.Unfold(o.Coeffs[i], m[i]), want, m[i]); j >= 0 {
				c.Fatalf("g=%d modulus %d index %d", g, m[i], j)
			}
		}
	})
}

// Galois elements of the parameters obey the group law.
func TestGaloisElements(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 1500, Thorough: 5000, Rule: "rotation amounts of any sign and size; non-trivial: both amounts non-zero"}, func(c *vh.C) {
		logN := c.Uni(4, 12, "logN")
		typ := ring.Standard
		k := uint64(2)
		if c.Bool("ci") {
			typ, k = ring.ConjugateInvariant, 4
		}
		nth := k << uint(logN)
		q := vh.Primes(45, nth, 2, true)
		p, err := rlwe.NewParameters(logN, q[:1], q[1:], 0, 3.2, typ)
		if err != nil {
			c.Fatalf("%v", err)
		}
		amount := func(l string) int {
			switch c.Uni(0, 4, l+".kind") {
			case 0:
				return c.Int(-1<<62, 1<<62, l)
			case 1:
				return int(nth/4)*c.Uni(-5, 5, l) + c.Uni(-1, 1, l+".d")
			}
			return c.Uni(-3<<4, 3<<4, l)
		}
		a, b := amount("a"), amount("b")
		c.NonTrivial(a != 0 && b != 0)
		order := int64(nth / 4)
		def := func(x int) uint64 { // 5^x
			e := ((int64(x) % order) + order) % order
			return vh.PowMod(5, uint64(e), nth)
		}
		ga, gb := p.GaloisElementForColumnRotationBy(a), p.GaloisElementForColumnRotationBy(b)
		if ga != def(a) || gb != def(b) {
			c.Fatalf("rotation by %d, %d gave %d, %d; want %d, %d modulo %d", a, b, ga, gb, def(a), def(b), nth)
		}
		if inv := p.InverseGaloisElement(ga); ga*inv%nth != 1 || inv >= nth || inv != p.GaloisElementForColumnRotationBy(-a) {
			c.Fatalf("inverse of %d is %d modulo %d", ga, inv, nth)
		}
		odd := uint64(2*c.Uni(0, 1<<16, "odd")+1) % nth
		if inv := p.InverseGaloisElement(odd); odd*inv%nth != 1 {
			c.Fatalf("inverse of %d is %d modulo %d", odd, inv, nth)
		}
		els := p.GaloisElementsForRowInnerSum()
		if len(els) != logN {
			c.Fatalf("row inner sum has %d elements", len(els))
		}
		for i := 0; i < logN-1; i++ {
			if els[i] != def(1<<i) {
				c.Fatalf("row inner sum element %d", i)
			}
		}
		if typ == ring.Standard {
			if p.GaloisElementForRowRotation() != nth-1 || els[logN-1] != nth-1 {
				c.Fatalf("row rotation element")
			}
		} else if els[logN-1] != def(1<<(logN-1)) || vh.Panics(func() { p.GaloisElementForRowRotation() }) == "" {
			c.Fatalf("conjugate-invariant row rotation")
		}
		gen := uint64(5)
		if c.Bool("gen") {
			gen = 2*uint64(c.Int(0, int(nth)/2-1, "half")) + 1
		}
		gens := ring.GenGaloisParams(nth/2, gen)
		for i := 0; i < 8; i++ {
			if j := c.Uni(0, len(gens)-1, "i"); gens[j] != vh.PowMod(gen, uint64(j), nth) {
				c.Fatalf("GenGaloisParams(%d, %d)[%d]", nth/2, gen, j)
			}
		}
	})
}

func TestMonomial(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 1500, Thorough: 5000, Rule: "any degree sign and size; monomial product, shift, bit reversal, rotation; non-trivial: amount not a multiple of N"}, func(c *vh.C) {
		rg, m, _ := genRing(c, 8, ring.Standard)
		n := rg.N
		p := c.Poly(n, m, "p")
		p0 := vh.Clone(p)
		d := c.Uni(-40, 40, "d")
		switch c.Uni(0, 2, "kind") {
		case 0:
			d = c.Int(-1<<40, 1<<40, "dd")
		case 1:
			d = n*c.Uni(-5, 5, "mult") + c.Uni(-2, 2, "off")
		}
		c.NonTrivial(d%n != 0)
		mono := ring.NewPoly(n, len(m))
		e := ((d % (2 * n)) + 2*n) % (2 * n)
		shift := ((d % n) + n) % n
		for i, q := range m {
			if e < n {
				mono.Coeffs[i][e] = 1
			} else {
				mono.Coeffs[i][e-n] = q - 1
			}
		}
		alias := c.Bool("inplace")
		run := func(f func(a, b *ring.Poly)) *ring.Poly {
			a := vh.Clone(p)
			b := dirty(c.Rng("dirt"), n, m)
			if alias {
				b = a
			}
			f(a, b)
			if !alias {
				if !vh.Same(a, p0) {
					c.Fatalf("input changed")
				}
				// no shared memory
				for i := range a.Coeffs {
					for j := range a.Coeffs[i] {
						a.Coeffs[i][j] = ^uint64(0)
					}
				}
				for i := range b.Coeffs {
					for j := range b.Coeffs[i] {
						if b.Coeffs[i][j] == ^uint64(0) {
							c.Fatalf("output shares memory with the input")
						}
					}
				}
			}
			return b
		}
		o := run(func(a, b *ring.Poly) { rg.MultByMonomial(a, d, b) })
		o2 := rg.MultByMonomialNew(vh.Clone(p), d)
		for i, q := range m {
			w := vh.NegMul(mono.Coeffs[i], p.Coeffs[i], q)
			if vh.CongVec(o.Coeffs[i], w, q) >= 0 || vh.CongVec(o2.Coeffs[i], w, q) >= 0 {
				c.Fatalf("MultByMonomial by %d", d)
			}
		}
		o = run(func(a, b *ring.Poly) { rg.Shift(a, d, b) })
		for i := range m {
			for j := 0; j < n; j++ {
				if o.Coeffs[i][j] != p.Coeffs[i][(j+shift)%n] {
					c.Fatalf("Shift by %d, coefficient %d", d, j)
				}
			}
		}
		br := func(x int) int {
			y := 0
			for k := 1; k < n; k <<= 1 {
				y = y<<1 | x&1
				x >>= 1
			}
			return y
		}
		o = run(func(a, b *ring.Poly) { rg.BitReverse(a, b) })
		for i := range m {
			for j := 0; j < n; j++ {
				if o.Coeffs[i][br(j)] != p.Coeffs[i][j] {
					c.Fatalf("BitReverse, coefficient %d", j)
				}
			}
		}
		// Rotate: a shift of bit-reversed transform values
		x := vh.Clone(p)
		rg.BitReverse(x, x)
		rg.InvNTT(x, x)
		y := dirty(c.Rng("dirt2"), n, m)
		if alias {
			y = x
		}
		x0 := vh.Clone(x)
		rg.Rotate(x, d, y)
		if !alias && !vh.Same(x, x0) {
			c.Fatalf("Rotate changed its input")
		}
		rg.NTT(y, y)
		rg.BitReverse(y, y)
		if s := vh.Cong(y, o3(p, shift, m), m, len(m)-1); s != "" {
			c.Fatalf("Rotate by %d: %s", d, s)
		}
	})
}

func o3(p *ring.Poly, shift int, m []uint64) *ring.Poly {
	n := len(p.Coeffs[0])
	o := ring.NewPoly(n, len(m))
	for i := range m {
		for j := 0; j < n; j++ {
			o.Coeffs[i][j] = p.Coeffs[i][(j+shift)%n]
		}
	}
	return o
}

func TestEmbedding(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 800, Thorough: 3000, Rule: "degrees n < N, polynomials embedded by X -> X^(N/n) and back, both domains, ciphertexts of degree 0..3; non-trivial: N > n"}, func(c *vh.C) {
		logn := c.Uni(4, 7, "logn")
		logN := c.Uni(logn, 9, "logN")
		n, N := 1<<logn, 1<<logN
		gap := N / n
		m := c.Moduli(c.Count(1, 3, 12, "nQ"), uint64(2*N), 20, 61, "mod")
		small, large := vh.Ring(n, m, ring.Standard), vh.Ring(N, m, ring.Standard)
		c.NonTrivial(gap > 1)
		r := c.Rng("vals")
		deg := c.Uni(0, 3, "degree")
		lv := len(m) - 1
		up := c.Bool("up")
		ctIn, ctOut := new(rlwe.Ciphertext), new(rlwe.Ciphertext)
		var in, want []*ring.Poly
		nin, nout, rin, rout := n, N, small, large
		if !up {
			nin, nout, rin, rout = N, n, large, small
		}
		for k := 0; k <= deg; k++ {
			p := c.Poly(nin, m, "p")
			w := ring.NewPoly(nout, len(m))
			for i := range m {
				for j := 0; j < n; j++ {
					if up {
						w.Coeffs[i][j*gap] = p.Coeffs[i][j]
					} else {
						w.Coeffs[i][j] = p.Coeffs[i][j*gap]
					}
				}
			}
			in, want = append(in, p), append(want, w)
			ctOut.Value = append(ctOut.Value, dirty(r, nout, m))
		}
		ntt := c.Bool("ntt")
		for k := range in {
			x := vh.Clone(in[k])
			if ntt {
				rin.NTT(x, x)
			}
			ctIn.Value = append(ctIn.Value, x)
		}
		before := ctIn.CopyNew()
		if ntt {
			rlwe.SwitchCiphertextRingDegreeNTT(ctIn, small, large, ctOut)
		} else {
			rlwe.SwitchCiphertextRingDegree(ctIn, ctOut)
		}
		for k := range in {
			if !vh.Same(before.Value[k], ctIn.Value[k]) {
				c.Fatalf("input changed")
			}
			o := vh.Clone(ctOut.Value[k])
			if ntt {
				rout.InvNTT(o, o)
			}
			if s := vh.Cong(o, want[k], m, lv); s != "" {
				c.Fatalf("up=%v ntt=%v component %d: %s", up, ntt, k, s)
			}
		}
		if up {
			a, b := vh.Clone(in[0]), dirty(r, N, m)
			small.NTT(a, a)
			ring.MapSmallDimensionToLargerDimensionNTT(a, b)
			large.InvNTT(b, b)
			if s := vh.Cong(b, want[0], m, lv); s != "" {
				c.Fatalf("MapSmallDimensionToLargerDimensionNTT: %s", s)
			}
		}
	})
}
