package c20

import (
	"math"
	"math/big"
	"reflect"
	"testing"

	"fast-ksw/ckks"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"vharness/vh"
)

func same(c *vh.C, what string, got, want [][]uint64, m []uint64) {
	for i, q := range m {
		if j := vh.CongVec(got[i], want[i], q); j >= 0 {
			c.Fatalf("%s: modulus %d (%d of %d) coefficient %d is %d, expected %d", what, q, i, len(m), j, got[i][j]%q, want[i][j]%q)
		}
	}
}

func unfoldRows(x [][]uint64, m []uint64) (o [][]uint64) {
	for i, q := range m {
		o = append(o, vh.Unfold(x[i], q))
	}
	return
}

// foldRow adds x and its conjugate; the result is given by its coefficients of 1, X+1/X, ...
func foldRow(x []uint64, q uint64) []uint64 {
	n := len(x)
	o := make([]uint64, n/2)
	o[0] = vh.AddMod(x[0]%q, x[0]%q, q)
	for i := 1; i < n/2; i++ {
		o[i] = vh.SubMod(x[i]%q, x[n-i]%q, q)
	}
	return o
}

func foldRows(x [][]uint64, m []uint64) (o [][]uint64) {
	for i, q := range m {
		o = append(o, foldRow(x[i], q))
	}
	return
}

func clean(c *vh.C, what string, before, after *ring.Poly) {
	if !vh.Same(before, after) {
		c.Fatalf("%s modifies its input", what)
	}
}

type rings struct {
	ci, std *ring.Ring
	idx     []uint64
	m       []uint64
	level   int
}

func drawRings(c *vh.C) rings {
	logN := c.Deg(4, 7, 13, "logN")
	nm := c.Count(1, 6, 16, "moduli")
	lo := c.PickInt("lo", 14, 30, 50, 58)
	hi := c.PickInt("hi", 30, 45, 60, 61)
	if hi < lo {
		hi = 61
	}
	m := c.Moduli(nm, uint64(4)<<uint(logN), lo, hi, "q")
	x := rings{vh.Ring(1<<uint(logN), m, ring.ConjugateInvariant), vh.Ring(2<<uint(logN), m, ring.Standard), nil, m, 0}
	x.idx = x.std.PermuteNTTIndex(uint64(4)<<uint(logN) - 1)
	x.level = c.Uni(0, nm-1, "level")
	c.Note("logN=%d moduli=%d level=%d", logN, nm, x.level)
	c.Class("logN=%d level=%d/%d", logN, x.level, nm-1)
	return x
}

// poly draws a polynomial at the full level.
func (x rings) poly(r *vh.Rand, n int) *ring.Poly {
	p := ring.NewPoly(n, len(x.m))
	vh.Fill(r, p, x.m, vh.FillKinds[r.IntN(len(vh.FillKinds))])
	return p
}

func untouched(c *vh.C, what string, before, after *ring.Poly, level int) {
	for i := level + 1; i < len(after.Coeffs); i++ {
		if !vh.SameVec(before.Coeffs[i], after.Coeffs[i]) {
			c.Fatalf("%s at level %d writes to limb %d", what, level, i)
		}
	}
}

func (x rings) unfold(c *vh.C, r *vh.Rand, p *ring.Poly) *ring.Poly {
	out := x.poly(r, x.std.N)
	dirty, in := vh.Clone(out), vh.Clone(p)
	rr := x.ci
	if r.IntN(2) == 0 {
		rr = x.std
	}
	rr.UnfoldConjugateInvariantToStandard(x.level, p, out)
	clean(c, "UnfoldConjugateInvariantToStandard", in, p)
	untouched(c, "UnfoldConjugateInvariantToStandard", dirty, out, x.level)
	return out
}

func (x rings) fold(c *vh.C, r *vh.Rand, p *ring.Poly) *ring.Poly {
	out := x.poly(r, x.ci.N)
	dirty, in := vh.Clone(out), vh.Clone(p)
	idx := append([]uint64{}, x.idx...)
	x.ci.FoldStandardToConjugateInvariant(x.level, p, x.idx, out)
	clean(c, "FoldStandardToConjugateInvariant", in, p)
	untouched(c, "FoldStandardToConjugateInvariant", dirty, out, x.level)
	if !vh.SameVec(idx, x.idx) {
		c.Fatalf("FoldStandardToConjugateInvariant modifies the permutation")
	}
	for i := range x.m[:x.level+1] {
		for _, v := range out.Coeffs[i] {
			if v >= x.m[i] {
				c.Fatalf("FoldStandardToConjugateInvariant: %d is not reduced modulo %d", v, x.m[i])
			}
		}
	}
	return out
}

func TestFoldUnfold(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 4000, Thorough: 24000, Rule: "polynomials of eight shapes over 1..6 moduli, every level, dirty outputs: unfolding, folding, arithmetic and automorphisms against the embedding computed on coefficients; non-trivial: a non-zero polynomial"}, func(c *vh.C) {
		x := drawRings(c)
		r := c.Rng("data")
		lv, m := x.level, x.m[:x.level+1]
		ciRows := func(p *ring.Poly) [][]uint64 { return vh.CoeffRows(x.ci, p, lv, true, false) }
		stdRows := func(p *ring.Poly) [][]uint64 { return vh.CoeffRows(x.std, p, lv, true, false) }

		a, b := x.poly(r, x.ci.N), x.poly(r, x.ci.N)
		ua, ub := x.unfold(c, r, a), x.unfold(c, r, b)
		for i := range m {
			for _, v := range a.Coeffs[i] {
				if v != 0 {
					c.NonTrivial(true)
				}
			}
		}
		same(c, "unfolding", stdRows(ua), unfoldRows(ciRows(a), m), m)
		fa := x.fold(c, r, ua)
		twice := ring.NewPoly(x.ci.N, lv+1)
		for i, q := range m {
			for j, v := range a.Coeffs[i] {
				twice.Coeffs[i][j] = vh.AddMod(v, v, q)
			}
		}
		same(c, "folding an unfolded polynomial", fa.Coeffs, twice.Coeffs, m)
		p := x.poly(r, x.std.N)
		fp := x.fold(c, r, p)
		same(c, "folding", ciRows(fp), foldRows(stdRows(p), m), m)
		// unfold(fold(p)) = p + conjugate(p)
		sum := vh.Clone(p)
		x.std.PermuteNTTLvl(lv, p, uint64(2*x.std.N)-1, sum)
		x.std.AddLvl(lv, sum, p, sum)
		same(c, "unfolding a folded polynomial", x.unfold(c, r, fp).Coeffs, sum.Coeffs, m)

		// arithmetic commutes with the embedding, and agrees with the coefficients
		out, uout := x.poly(r, x.ci.N), x.poly(r, x.std.N)
		op := c.Pick("op", "Add", "Sub", "Neg", "Mul", "MulScalar", "Automorphism", "Rescale", "RescaleMany", "Permute")
		c.Class("%s", op)
		switch op {
		case "Add":
			x.ci.AddLvl(lv, a, b, out)
			x.std.AddLvl(lv, ua, ub, uout)
		case "Sub":
			x.ci.SubLvl(lv, a, b, out)
			x.std.SubLvl(lv, ua, ub, uout)
		case "Neg":
			x.ci.NegLvl(lv, a, out)
			x.std.NegLvl(lv, ua, uout)
		case "MulScalar":
			s := c.U64("scalar")
			x.ci.MulScalarLvl(lv, a, s, out)
			x.std.MulScalarLvl(lv, ua, s, uout)
		case "Mul":
			bm, ubm := vh.Clone(b), vh.Clone(ub)
			x.ci.MFormLvl(lv, b, bm)
			x.std.MFormLvl(lv, ub, ubm)
			same(c, "unfolding a Montgomery form", x.unfold(c, r, bm).Coeffs, ubm.Coeffs, m)
			x.ci.MulCoeffsMontgomeryLvl(lv, a, bm, out)
			x.std.MulCoeffsMontgomeryLvl(lv, ua, ubm, uout)
			ra, rb, ro := ciRows(a), ciRows(b), ciRows(out)
			for i, q := range m {
				if j := vh.CongVec(ro[i], vh.RingMul(ra[i], rb[i], q, ring.ConjugateInvariant), q); j >= 0 {
					c.Fatalf("product in the conjugate-invariant ring: coefficient %d", j)
				}
			}
		case "Automorphism":
			g := (uint64(c.Uni(0, 4*x.ci.N/4-1, "g"))*4 + 1)
			x.ci.PermuteNTTLvl(lv, a, g, out)
			x.std.PermuteNTTLvl(lv, ua, g, uout)
			ra, ro := ciRows(a), ciRows(out)
			for i, q := range m {
				if j := vh.CongVec(ro[i], vh.AutoRow(ra[i], q, g, ring.ConjugateInvariant), q); j >= 0 {
					c.Fatalf("automorphism %d of the conjugate-invariant ring: coefficient %d", g, j)
				}
			}
		case "Permute":
			// conjugation is the identity on unfolded polynomials
			x.std.PermuteNTTLvl(lv, ua, uint64(2*x.std.N)-1, uout)
			copyPoly(out, a)
		case "Rescale", "RescaleMany":
			if lv == 0 {
				return
			}
			k := 1
			if op == "RescaleMany" {
				k = c.Uni(1, lv, "k")
			}
			pc, ps := ring.NewPoly(x.ci.N, len(x.m)), ring.NewPoly(x.std.N, len(x.m))
			if k == 1 && op == "Rescale" {
				x.ci.DivRoundByLastModulusNTTLvl(lv, a, pc, out)
				x.std.DivRoundByLastModulusNTTLvl(lv, ua, ps, uout)
			} else {
				x.ci.DivRoundByLastModulusManyNTTLvl(lv, k, a, pc, out)
				x.std.DivRoundByLastModulusManyNTTLvl(lv, k, ua, ps, uout)
			}
			x.level, m, lv = lv-k, m[:lv+1-k], lv-k
		}
		same(c, op+" and unfolding", x.unfold(c, r, out).Coeffs, uout.Coeffs, m)

		// mismatched degrees are refused
		if c.Chance(1, 20, "mismatch") {
			w := x.poly(r, x.ci.N)
			if vh.Panics(func() { x.ci.UnfoldConjugateInvariantToStandard(lv, a, w) }) == "" {
				c.Fatalf("UnfoldConjugateInvariantToStandard accepts an output of the same degree")
			}
			if vh.Panics(func() { x.ci.FoldStandardToConjugateInvariant(lv, a, x.idx, w) }) == "" {
				c.Fatalf("FoldStandardToConjugateInvariant accepts an input of the same degree")
			}
		}
	})
}

func copyPoly(dst, src *ring.Poly) {
	for i := range src.Coeffs {
		copy(dst.Coeffs[i], src.Coeffs[i])
	}
}

// image applies many of a ring's operations to fixed data.
func image(r *ring.Ring, a, b *ring.Poly) (o []*ring.Poly) {
	level := len(r.Modulus) - 1
	n := func() *ring.Poly { p := ring.NewPoly(r.N, level+1); o = append(o, p); return p }
	x := n()
	r.NTT(a, x)
	r.InvNTT(a, n())
	y := n()
	r.NTT(b, y)
	z := n()
	r.MForm(y, y)
	r.MulCoeffsMontgomery(x, y, z)
	r.InvNTT(z, n())
	r.PermuteNTT(x, 5, n())
	r.MulScalarBigint(a, new(big.Int).Lsh(big.NewInt(12345678901), 70), n())
	p := ring.NewPoly(r.N, level+1)
	if level > 0 {
		r.DivRoundByLastModulusNTTLvl(level, x, p, n())
		r.DivFloorByLastModulusLvl(level, a, n())
	}
	return
}

func equalImages(c *vh.C, what string, x, y []*ring.Poly) {
	for i := range x {
		if !vh.Same(x[i], y[i]) {
			c.Fatalf("%s: operation %d gives different results", what, i)
		}
	}
}

func describe(c *vh.C, what string, r *ring.Ring, n int, m []uint64, t ring.Type) {
	if r.N != n || r.Type() != t || !reflect.DeepEqual(r.Modulus, m) {
		c.Fatalf("%s: degree %d, type %v, moduli %v; expected %d, %v, %v", what, r.N, r.Type(), r.Modulus, n, t, m)
	}
	nth := uint64(2 * n)
	if t == ring.ConjugateInvariant {
		nth *= 2
	}
	if r.NthRoot != nth || !r.AllowsNTT {
		c.Fatalf("%s: NthRoot %d (expected %d), AllowsNTT %v", what, r.NthRoot, nth, r.AllowsNTT)
	}
}

func TestRingConversion(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 1200, Thorough: 4000, Rule: "rings of both types converted to the other and back (1..4 conversions), compared by their results on data with rings made directly, and the receiver with itself before; non-trivial: always"}, func(c *vh.C) {
		c.NonTrivial(true)
		logN := c.Deg(3, 7, 13, "logN")
		nm := c.Count(1, 4, 12, "moduli")
		m := c.Moduli(nm, uint64(4)<<uint(logN), 30, 61, "q")
		if logN == 3 { // the smallest standard ring has no conjugate-invariant counterpart
			small, err := ring.NewRing(16, m)
			if err != nil {
				c.Fatalf("NewRing(16): %v", err)
			}
			x, err := small.ConjugateInvariantRing()
			if err == nil {
				a, b := ring.NewPoly(x.N, nm), ring.NewPoly(x.N, nm)
				vh.Fill(c.Rng("data"), a, m, "uniform")
				if msg := vh.Panics(func() { x.NTT(a, b); x.InvNTT(b, b) }); msg != "" {
					c.Fatalf("the conjugate-invariant ring of a ring of degree 16 cannot be used: %s", msg)
				}
				if !vh.Same(a, b) {
					c.Fatalf("the conjugate-invariant ring of a ring of degree 16: InvNTT(NTT(a)) differs from a")
				}
			}
			return
		}
		typ := ring.Standard
		n := 1 << uint(logN+1)
		if c.Bool("ci") {
			typ, n = ring.ConjugateInvariant, n/2
		}
		r := c.Rng("data")
		mk := func(n int, t ring.Type) *ring.Ring {
			x, err := ring.NewRingFromType(n, append([]uint64{}, m...), t)
			if err != nil {
				c.Fatalf("NewRingFromType(%d, %v): %v", n, t, err)
			}
			return x
		}
		data := func(n int) (a, b *ring.Poly) {
			a, b = ring.NewPoly(n, nm), ring.NewPoly(n, nm)
			vh.Fill(r, a, m, "uniform")
			vh.Fill(r, b, m, "uniform")
			return
		}
		cur := mk(n, typ)
		c.Class("from %v, %d moduli", typ, nm)
		type seen struct {
			r    *ring.Ring
			a, b *ring.Poly
			o    []*ring.Poly
		}
		var all []seen
		note := func(r *ring.Ring) {
			a, b := data(r.N)
			all = append(all, seen{r, a, b, image(r, a, b)})
		}
		note(cur)
		for i, k := 0, c.Uni(1, 4, "conversions"); i < k; i++ {
			to := ring.Standard
			if c.Bool("to") {
				to = ring.ConjugateInvariant
			}
			var next *ring.Ring
			var err error
			if to == ring.Standard {
				next, err = cur.StandardRing()
			} else {
				next, err = cur.ConjugateInvariantRing()
			}
			if err != nil {
				c.Fatalf("converting %v (degree %d) to %v: %v", cur.Type(), cur.N, to, err)
			}
			if to == cur.Type() {
				if next != cur {
					c.Fatalf("converting a ring to its own type does not return the receiver")
				}
				continue
			}
			want := cur.N * 2
			if to == ring.ConjugateInvariant {
				want = cur.N / 2
			}
			describe(c, "converted ring", next, want, m, to)
			a, b := data(want)
			equalImages(c, "a converted ring and one made directly", image(next, a, b), image(mk(want, to), a, b))
			cur = next
			note(cur)
		}
		for _, s := range all {
			tt := s.r.Type()
			describe(c, "ring after conversions of it", s.r, s.r.N, m, tt)
			equalImages(c, "a ring before and after it is converted", s.o, image(s.r, s.a, s.b))
		}
	})
}

func TestParameterConversion(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 800, Thorough: 3000, Rule: "rlwe and ckks parameters of both types; the standard parameters are compared with ones made directly, the receiver with itself before; non-trivial: conjugate-invariant ones"}, func(c *vh.C) {
		o := vh.RO{LogNLo: 4, LogNHi: 7, QLo: 1, QHi: 5, PLo: 0, PHi: 3, BitsLo: 30, BitsHi: 60, CI: true, Extra: 1, BigSigma: true}
		p := c.CKKS(o, math.Exp2(float64(c.Uni(20, 60, "scale"))), "p")
		c.NonTrivial(p.CI)
		c.Class("CI=%v", p.CI)
		before := p.Parameters
		bytes, err := p.MarshalBinary()
		if err != nil {
			c.Fatalf("MarshalBinary: %v", err)
		}
		std, err := p.Parameters.StandardParameters()
		if err != nil {
			c.Fatalf("StandardParameters: %v", err)
		}
		stdR, err := p.RP.Parameters.StandardParameters()
		if err != nil {
			c.Fatalf("rlwe StandardParameters: %v", err)
		}
		logN := p.LogN()
		if p.CI {
			logN++
		}
		wantR, err := rlwe.NewParameters(logN, p.Q(), p.P(), p.HammingWeight(), p.Sigma(), ring.Standard)
		if err != nil {
			c.Fatalf("NewParameters: %v", err)
		}
		want, err := ckks.NewParameters(wantR, p.LogSlots(), p.DefaultScale())
		if err != nil {
			c.Fatalf("ckks.NewParameters: %v", err)
		}
		if !std.Equals(want) || std.LogSlots() != p.LogSlots() || std.DefaultScale() != p.DefaultScale() {
			c.Fatalf("the standard ckks parameters of %+v are %+v", p.Parameters, std)
		}
		for i, x := range []rlwe.Parameters{std.Parameters, stdR} {
			if !x.Equals(wantR) || x.LogN() != logN || x.RingType() != ring.Standard || x.HammingWeight() != p.HammingWeight() || x.Sigma() != p.Sigma() || !vh.SameVec(x.Q(), p.Q()) || !vh.SameVec(x.P(), p.P()) {
				c.Fatalf("standard parameters (%d) of %+v are %+v", i, p.Parameters, x)
			}
			describe(c, "ring Q of the standard parameters", x.RingQ(), 1<<uint(logN), p.Q(), ring.Standard)
			if p.PCount() > 0 {
				describe(c, "ring P of the standard parameters", x.RingP(), 1<<uint(logN), p.P(), ring.Standard)
			} else if x.RingP() != nil {
				c.Fatalf("the standard parameters have a ring P, their origin does not")
			}
			r := c.Rng("data")
			a, b := ring.NewPoly(1<<uint(logN), p.QCount()), ring.NewPoly(1<<uint(logN), p.QCount())
			vh.Fill(r, a, p.Q(), "uniform")
			vh.Fill(r, b, p.Q(), "uniform")
			equalImages(c, "ring of the standard parameters", image(x.RingQ(), a, b), image(want.RingQ(), a, b))
		}
		again, err := std.StandardParameters()
		if err != nil || !again.Equals(std) {
			c.Fatalf("StandardParameters of standard parameters: %v %+v", err, again)
		}
		after, err := p.MarshalBinary()
		if err != nil || !reflect.DeepEqual(bytes, after) || !before.Equals(p.Parameters) {
			c.Fatalf("StandardParameters modifies its receiver")
		}
		t := ring.Standard
		if p.CI {
			t = ring.ConjugateInvariant
		}
		describe(c, "ring Q of the receiver", p.RingQ(), p.N(), p.Q(), t)
		if p.CI {
			back, err := std.RingQ().ConjugateInvariantRing()
			if err != nil {
				c.Fatalf("ConjugateInvariantRing: %v", err)
			}
			describe(c, "ring converted back", back, p.N(), p.Q(), ring.ConjugateInvariant)
		}
	})
}

func secret(c *vh.C, p vh.RP, kg rlwe.KeyGenerator, label string) (*rlwe.SecretKey, []int64) {
	var sk *rlwe.SecretKey
	switch c.Uni(0, 2, label) {
	case 0:
		sk = kg.GenSecretKey()
	case 1:
		sk = kg.GenSecretKeyGaussian()
	default:
		sk = kg.GenSecretKeyWithHammingWeight(c.Uni(1, p.N(), label+".w"))
	}
	return sk, vh.Secret(c, p.Parameters, sk)
}

// bound of the error of a key switch
func bound(p vh.RP, levelQ int, sOut []int64) *big.Int {
	levelP := p.PCount() - 1
	b := new(big.Int)
	for i := 0; i <= levelQ; i += levelP + 1 {
		hi := i + levelP + 1
		if hi > levelQ+1 {
			hi = levelQ + 1
		}
		b.Add(b, vh.Prod(p.Q()[i:hi]))
	}
	b.Mul(b, big.NewInt(2*int64(p.N())*p.F*p.Noise))
	b.Div(b, vh.Prod(p.P()))
	return b.Add(b, big.NewInt(3+(1+p.F*vh.L1(sOut))*103/100))
}

func within(c *vh.C, what string, got, want [][]uint64, m []uint64, b *big.Int) {
	e := vh.MaxAbs(vh.BigRows(vh.SubRows(got[:len(m)], want[:len(m)], m), m))
	if e.Cmp(b) > 0 {
		c.Fatalf("%s: error of %d bits exceeds the bound of %d bits (modulus %d bits)", what, e.BitLen(), b.BitLen(), vh.Prod(m).BitLen())
	}
}

func TestBridge(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 500, Thorough: 3000, Rule: "secrets of both rings and their bridge keys; ciphertexts at every level, slot count and scale moved to the other ring and decrypted and decoded there, and back; non-trivial: error bound below a hundredth of the values"}, func(c *vh.C) {
		logN := c.Deg(4, 6, 9, "logN")
		nq, np := c.Uni(1, 6, "q"), c.Uni(1, 4, "p")
		bits := c.PickInt("bits", 36, 45, 55, 60)
		m := c.Moduli(nq+np, uint64(4)<<uint(logN), bits-2, bits, "m")
		h := c.Uni(1, 1<<uint(logN), "h")
		cp, err := rlwe.NewParameters(logN, m[:nq], m[nq:], h, 3.2, ring.ConjugateInvariant)
		if err != nil {
			c.Fatalf("NewParameters: %v", err)
		}
		scale := math.Exp2(float64(bits - c.Uni(5, 12, "scale")))
		logSlots := c.Uni(0, logN, "logSlots")
		pCI, err := ckks.NewParameters(cp, logSlots, scale)
		if err != nil {
			c.Fatalf("ckks.NewParameters: %v", err)
		}
		pStd, err := pCI.StandardParameters()
		if err != nil {
			c.Fatalf("StandardParameters: %v", err)
		}
		ci, std := vh.NewRP(pCI.Parameters), vh.NewRP(pStd.Parameters)
		c.Class("logN=%d q=%d p=%d logSlots=%d", logN, nq, np, logSlots)
		kgC, kgS := ckks.NewKeyGenerator(pCI), ckks.NewKeyGenerator(pStd)
		skC, sC := secret(c, ci, kgC, "skci")
		skS, sS := secret(c, std, kgS, "skstd")
		kC, kS := skC.CopyNew(), skS.CopyNew()
		var toReal *rlwe.SwitchingKey
		var toComplex *rlwe.SwitchingKey
		if c.Bool("used") { // a key generator with history
			kgS.GenRelinearizationKey(skS, 2)
			kgS.GenSwitchingKeyForRotationBy(1, skS)
		}
		if c.Bool("rlwe") {
			toReal, toComplex = kgS.GenSwitchingKeysForRingSwap(skS, skC)
		} else {
			a, b := kgS.GenSwitchingKeysForBridge(skS, skC)
			toReal, toComplex = &a.SwitchingKey, &b.SwitchingKey
		}
		if !kC.Value.Equals(skC.Value) || !kS.Value.Equals(skS.Value) {
			c.Fatalf("generating bridge keys modifies a secret key")
		}
		ks := rlwe.NewKeySwitcher(pStd.Parameters)
		rC, rS := pCI.RingQ(), pStd.RingQ()
		idx := rS.PermuteNTTIndex(uint64(2*rS.N) - 1)
		r := c.Rng("values")
		slots := 1 << uint(logSlots)
		uC := make([]int64, rS.N) // the secret of the other ring, unfolded
		uC[0] = sC[0]
		for i := 1; i < len(sC); i++ {
			uC[i], uC[len(uC)-i] = sC[i], -sC[i]
		}
		encC, encS := ckks.NewEncoder(pCI), ckks.NewEncoder(pStd)
		fresh := int64(0)
		for round := 0; round < 2; round++ {
			lv := c.Uni(0, nq-1, "level")
			q := m[:lv+1]
			v := make([]complex128, slots)
			for i := range v {
				v[i] = complex(r.Float(1), r.Float(1))
			}
			p1, p2 := ring.NewPoly(rS.N, nq), ring.NewPoly(rS.N, nq)
			tol := func(errCoeffs *big.Int, scale float64) float64 {
				e, _ := new(big.Float).SetInt(errCoeffs).Float64()
				return e*float64(2*rS.N)/scale + 1e-9 + float64(2*rS.N)/scale
			}
			fits := func(b *big.Int) bool { // values and errors stay below half the modulus
				s, _ := big.NewFloat(scale * float64(4*slots)).Int(nil)
				return new(big.Int).Lsh(new(big.Int).Add(s, b), 2).Cmp(vh.Prod(q)) < 0
			}
			if c.Bool("direction") {
				// real to complex
				pt := encC.EncodeNew(v, lv, scale, logSlots)
				ct := ckks.NewCiphertext(pCI, 1, lv, scale)
				encryptor := ckks.NewEncryptor(pCI, skC)
				fresh = ci.Noise
				if c.Bool("pk") {
					encryptor = ckks.NewEncryptor(pCI, kgC.GenPublicKey(skC))
					fresh = ci.Noise*(3+ci.F*vh.L1(sC)+2*ci.F*int64(ci.N())) + 2 + 2*ci.F*vh.L1(sC)
				}
				encryptor.Encrypt(pt, ct)
				phase := vh.PhaseRows(rC, ct.Value, true, sC, lv)
				in := ct.CopyNew()
				out := ckks.NewCiphertext(pStd, 1, lv, ct.Scale)
				rS.UnfoldConjugateInvariantToStandard(lv, ct.Value[0], out.Value[0])
				rS.UnfoldConjugateInvariantToStandard(lv, ct.Value[1], out.Value[1])
				same(c, "phase of an unfolded ciphertext", vh.PhaseRows(rS, out.Value, true, uC, lv), unfoldRows(phase, q), q)
				ks.SwitchKeysInPlace(lv, out.Value[1], toComplex, p1, p2)
				rS.AddLvl(lv, out.Value[0], p1, out.Value[0])
				ring.CopyValuesLvl(lv, p2, out.Value[1])
				b := bound(std, lv, sS)
				within(c, "conjugate-invariant to standard", vh.PhaseRows(rS, out.Value, true, sS, lv), unfoldRows(phase, q), q, b)
				for i := range in.Value {
					clean(c, "the bridge", in.Value[i], ct.Value[i])
				}
				b.Add(b, big.NewInt(fresh))
				if !fits(b) {
					continue
				}
				got := encS.Decode(ckks.NewDecryptor(pStd, skS).DecryptNew(out), logSlots)
				e := tol(b, scale)
				c.NonTrivial(e < 0.01)
				for i := range v {
					if math.Abs(real(got[i])-real(v[i])) > e || math.Abs(imag(got[i])) > e {
						c.Fatalf("value %d of %d is %v, decrypted in the standard ring it is %v (bound %g)", i, slots, real(v[i]), got[i], e)
					}
				}
			} else {
				// complex to real
				pt := encS.EncodeNew(v, lv, scale, logSlots)
				ct := ckks.NewCiphertext(pStd, 1, lv, scale)
				encryptor := ckks.NewEncryptor(pStd, skS)
				fresh = std.Noise
				if c.Bool("pk") {
					encryptor = ckks.NewEncryptor(pStd, kgS.GenPublicKey(skS))
					fresh = std.Noise*(3+vh.L1(sS)+2*int64(std.N())) + 2 + 2*vh.L1(sS)
				}
				encryptor.Encrypt(pt, ct)
				phase := vh.PhaseRows(rS, ct.Value, true, sS, lv)
				in := ct.CopyNew()
				out := ckks.NewCiphertext(pCI, 1, lv, 2*ct.Scale)
				ks.SwitchKeysInPlace(lv, ct.Value[1], toReal, p1, p2)
				rS.AddLvl(lv, ct.Value[0], p1, p1)
				b := bound(std, lv, uC)
				within(c, "standard to conjugate-invariant", vh.PhaseRows(rS, []*ring.Poly{p1, p2}, true, uC, lv), phase, q, b)
				rC.FoldStandardToConjugateInvariant(lv, p1, idx, out.Value[0])
				rC.FoldStandardToConjugateInvariant(lv, p2, idx, out.Value[1])
				b.Lsh(b, 1)
				within(c, "standard to conjugate-invariant, folded", vh.PhaseRows(rC, out.Value, true, sC, lv), foldRows(phase, q), q, b)
				for i := range in.Value {
					clean(c, "the bridge", in.Value[i], ct.Value[i])
				}
				b.Add(b, big.NewInt(2*fresh))
				if !fits(b) {
					continue
				}
				got := encC.Decode(ckks.NewDecryptor(pCI, skC).DecryptNew(out), logSlots)
				e := tol(b, scale)
				c.NonTrivial(e < 0.01)
				for i := range v {
					if math.Abs(real(got[i])-real(v[i])) > e || math.Abs(imag(got[i])) > e {
						c.Fatalf("value %d of %d is %v, decrypted in the conjugate-invariant ring it is %v (bound %g)", i, slots, v[i], got[i], e)
					}
				}
			}
		}
	})
}

func TestPad(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 1000, Thorough: 6000, Rule: "PadDefaultRingToConjuateInvariant on polynomials of both forms, every pair of levels, dirty outputs, against the embedding on coefficients; non-trivial: always"}, func(c *vh.C) {
		c.NonTrivial(true)
		x := drawRings(c)
		r := c.Rng("data")
		l1, l2 := c.Uni(0, len(x.m)-1, "l1"), c.Uni(0, len(x.m)-1, "l2")
		lv := l1
		if l2 < lv {
			lv = l2
		}
		m := x.m[:lv+1]
		a, out := x.poly(r, x.ci.N), x.poly(r, x.std.N)
		a.Coeffs, out.Coeffs = a.Coeffs[:l1+1], out.Coeffs[:l2+1]
		a.IsNTT = c.Bool("ntt")
		in, dirty := vh.Clone(a), vh.Clone(out)
		c.Class("ntt=%v", a.IsNTT)
		ring.PadDefaultRingToConjuateInvariant(a, x.std, out)
		clean(c, "PadDefaultRingToConjuateInvariant", in, a)
		untouched(c, "PadDefaultRingToConjuateInvariant", dirty, out, lv)
		if out.IsNTT != a.IsNTT {
			c.Fatalf("PadDefaultRingToConjuateInvariant: NTT flag %v for an input with %v", out.IsNTT, a.IsNTT)
		}
		for i, q := range m {
			for j, v := range out.Coeffs[i] {
				if v >= q {
					c.Fatalf("PadDefaultRingToConjuateInvariant: coefficient %d is %d modulo %d", j, v, q)
				}
			}
		}
		same(c, "PadDefaultRingToConjuateInvariant", vh.CoeffRows(x.std, out, lv, a.IsNTT, false), unfoldRows(vh.CoeffRows(x.ci, a, lv, a.IsNTT, false), m), m)
	})
}
