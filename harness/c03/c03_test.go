package c03

import (
	"math"
	"math/big"
	"testing"

	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"vharness/vh"
)

// genInts draws integers of [0,Q) that stress the correction term.
func genInts(r *vh.Rand, n int, m []uint64) []*big.Int {
	Q := vh.Prod(m)
	o := make([]*big.Int, n)
	for j := range o {
		var x *big.Int
		switch r.IntN(8) {
		case 0:
			x = big.NewInt(int64(r.IntN(5)))
		case 1:
			x = new(big.Int).Sub(Q, big.NewInt(int64(1+r.IntN(5))))
		case 2: // multiples of Q/2^k, +-2
			k := uint(1 + r.IntN(8))
			x = new(big.Int).Mul(Q, big.NewInt(int64(r.IntN(1<<k))))
			x.Rsh(x, k).Add(x, big.NewInt(int64(r.IntN(5)-2)))
		case 3: // multiples of Q/qi
			q := m[r.IntN(len(m))]
			x = new(big.Int).Div(Q, new(big.Int).SetUint64(q))
			x.Mul(x, new(big.Int).SetUint64(vh.Edge(r, q)))
		case 4: // all residues q-1, or edges
			v := make([][]uint64, len(m))
			for i, q := range m {
				v[i] = []uint64{vh.Edge(r, q)}
			}
			x = vh.NewCRT(m).At(v, 0)
		case 5: // small power of two size
			x = new(big.Int).Lsh(big.NewInt(1), uint(r.IntN(Q.BitLen())))
			x.Add(x, big.NewInt(int64(r.IntN(3)-1)))
		default:
			x = randBig(r, Q)
		}
		o[j] = x.Mod(x, Q)
	}
	return o
}

func randBig(r *vh.Rand, Q *big.Int) *big.Int {
	x := new(big.Int)
	for i := 0; i < Q.BitLen()/64+2; i++ {
		x.Lsh(x, 64).Or(x, new(big.Int).SetUint64(r.Uint64()))
	}
	return x.Mod(x, Q)
}

// nearEdge reports whether x/Q is within floating-point distance of 0 or 1 (so that the rounded CRT
// correction may be off by one).
func nearEdge(x, Q *big.Int, n int) bool {
	f, _ := new(big.Float).Quo(new(big.Float).SetInt(x), new(big.Float).SetInt(Q)).Float64()
	eps := float64(n+2) * float64(n+2) * math.Ldexp(1, -52)
	return f < eps || 1-f < eps
}

// checkLift checks that out holds x+kQ for one k in {0} or {-1,0,1}; "" if fine.
func checkLift(c *vh.C, what string, x []*big.Int, Q *big.Int, nsrc int, out [][]uint64, moduli []uint64) {
	t := new(big.Int)
	for j := range x {
		ok := false
		ks := []int64{0}
		if x[j].Sign() != 0 && nearEdge(x[j], Q, nsrc) {
			ks = []int64{0, 1, -1}
		}
		for _, k := range ks {
			v := new(big.Int).Add(x[j], new(big.Int).Mul(Q, big.NewInt(k)))
			all := true
			for i, q := range moduli {
				bq := new(big.Int).SetUint64(q)
				if t.Mod(v, bq).Uint64() != out[i][j]%q {
					all = false
					break
				}
			}
			if all {
				ok = true
				break
			}
		}
		if !ok {
			var got []uint64
			for i, q := range moduli {
				got = append(got, out[i][j]%q)
			}
			c.Fatalf("%s: coefficient %d: %v in [0,%v) extended to %v mod %v", what, j, x[j], Q, got, moduli)
		}
	}
}

type bases struct {
	n, lq, lp int
	q, p      []uint64
	rQ, rP    *ring.Ring
	be        *ring.BasisExtender
	typ       ring.Type
}

func genBases(c *vh.C, maxN int) bases {
	hi := 61
	if maxN > 16 {
		hi = 60
	}
	var b bases
	b.n = 1 << c.Deg(4, 6, 14, "logN")
	nq, np := c.Uni(1, maxN, "nQ"), c.Uni(1, maxN, "nP")
	all := c.Moduli(nq+np, uint64(4*b.n), 20, hi, "mod")
	b.q, b.p = all[:nq], all[nq:]
	b.typ = ring.Standard
	if c.Chance(1, 4, "ci") {
		b.typ = ring.ConjugateInvariant
	}
	b.rQ, b.rP = vh.Ring(b.n, b.q, b.typ), vh.Ring(b.n, b.p, b.typ)
	b.lq, b.lp = c.Uni(0, nq-1, "levelQ"), c.Uni(0, np-1, "levelP")
	if c.Chance(1, 3, "top") {
		b.lq, b.lp = nq-1, np-1
	}
	b.be = ring.NewBasisExtender(b.rQ, b.rP)
	if c.Chance(1, 4, "copy") {
		b.be = b.be.ShallowCopy()
	}
	return b
}

func dirty(r *vh.Rand, n int, moduli []uint64) *ring.Poly {
	p := ring.NewPoly(n, len(moduli))
	vh.Fill(r, p, moduli, "uniform")
	return p
}

func above(c *vh.C, what string, got, before *ring.Poly, level int) {
	for i := level + 1; i < len(before.Coeffs); i++ {
		if !vh.SameVec(got.Coeffs[i], before.Coeffs[i]) {
			c.Fatalf("%s wrote limb %d above level %d", what, i, level)
		}
	}
}

func modUp(c *vh.C, maxN int) {
	b := genBases(c, maxN)
	r := c.Rng("values")
	for _, dir := range []string{"QtoP", "PtoQ"} {
		src, dst, ls, ld := b.q, b.p, b.lq, b.lp
		if dir == "PtoQ" {
			src, dst, ls, ld = b.p, b.q, b.lp, b.lq
		}
		x := genInts(r, b.n, src[:ls+1])
		in := vh.FromBig(x, src)
		if r.IntN(3) == 0 { // lazily reduced input
			for i := range in.Coeffs {
				for j := range in.Coeffs[i] {
					in.Coeffs[i][j] += src[i] * uint64(r.IntN(2))
				}
			}
			c.Class("lazy input")
		}
		in0 := vh.Clone(in)
		out := dirty(r, b.n, dst)
		out0 := vh.Clone(out)
		if c.Chance(1, 4, "earlier") {
			vh.Earlier(func() {
				if dir == "QtoP" {
					b.be.ModUpQtoP(ls, ld, in, vh.Clone(out))
				} else {
					b.be.ModUpPtoQ(ls, ld, in, vh.Clone(out))
				}
			}, in)
		}
		if dir == "QtoP" {
			b.be.ModUpQtoP(ls, ld, in, out)
		} else {
			b.be.ModUpPtoQ(ls, ld, in, out)
		}
		c.Class("moduli<=%d", 8*((ls+8)/8))
		c.NonTrivial(ls > 0)
		if !vh.Same(in, in0) {
			c.Fatalf("ModUp%s changed its input", dir)
		}
		above(c, "ModUp"+dir, out, out0, ld)
		checkLift(c, "ModUp"+dir, x, vh.Prod(src[:ls+1]), ls+1, out.Coeffs, dst[:ld+1])
	}
}

func TestModUp(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 900, Thorough: 2500, Rule: "two bases of 1..6 primes of 20..61 bits, levels, CRT-boundary integers; non-trivial: more than one source modulus"}, func(c *vh.C) { modUp(c, 6) })
}

func TestModUpLong(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 40, Thorough: 200, Rule: "bases of up to 40 primes; non-trivial: more than one source modulus"}, func(c *vh.C) { modUp(c, 40) })
}

// within checks |y - x/D| <= 1 for the integers.
func within(y, x, D *big.Int) bool {
	d := new(big.Int).Mul(y, D)
	// one unit, plus the distance at which the CRT correction may be off
	return d.Sub(d, x).CmpAbs(new(big.Int).Add(D, new(big.Int).Rsh(D, 36))) <= 0
}

func modDown(c *vh.C, maxN int) {
	b := genBases(c, maxN)
	r := c.Rng("values")
	qs, ps := b.q[:b.lq+1], b.p[:b.lp+1]
	all := append(append([]uint64(nil), qs...), ps...)
	Q, P := vh.Prod(qs), vh.Prod(ps)
	QP := vh.Prod(all)
	x := genInts(r, b.n, all)
	// values around half-integer and integer multiples of P or Q
	for j := range x {
		if r.IntN(3) == 0 {
			D := P
			if r.IntN(2) == 0 {
				D = Q
			}
			x[j] = new(big.Int).Mul(D, randBig(r, new(big.Int).Lsh(big.NewInt(1), uint(1+r.IntN(40)))))
			if r.IntN(2) == 0 {
				x[j].Add(x[j], new(big.Int).Rsh(D, 1))
			}
			x[j].Add(x[j], big.NewInt(int64(r.IntN(5)-2)))
			x[j].Mod(x[j], QP)
		}
	}
	inQ, inP := vh.FromBig(x, b.q), vh.FromBig(x, b.p)
	inQ0, inP0 := vh.Clone(inQ), vh.Clone(inP)
	c.NonTrivial(b.lq > 0 && b.lp > 0)
	c.Class("%s", []string{"standard", "conjugate-invariant"}[map[bool]int{false: 0, true: 1}[b.typ == ring.ConjugateInvariant]])

	check := func(name string, out *ring.Poly, kept []uint64, K, D *big.Int) {
		// out = floor or rounded x/D modulo K, up to one unit: the integer is determined modulo K only
		crt := vh.NewCRT(kept)
		for j := range x {
			y := crt.At(out.Coeffs[:len(kept)], j)
			for i, q := range kept {
				if out.Coeffs[i][j] >= q {
					c.Fatalf("%s: limb %d not reduced", name, i)
				}
			}
			ok := within(y, x[j], D) || within(new(big.Int).Sub(y, K), x[j], D) || within(new(big.Int).Add(y, K), x[j], D)
			if !ok {
				c.Fatalf("%s: coefficient %d: x=%v D=%v kept=%v gave %v", name, j, x[j], D, kept, y)
			}
		}
	}

	out := dirty(r, b.n, b.q)
	out0 := vh.Clone(out)
	earlier := func(f func()) {
		if c.Chance(1, 4, "earlier") {
			vh.Earlier(f, inQ, inP)
		}
	}
	earlier(func() { b.be.ModDownQPtoQ(b.lq, b.lp, inQ, inP, vh.Clone(out)) })
	b.be.ModDownQPtoQ(b.lq, b.lp, inQ, inP, out)
	check("ModDownQPtoQ", out, qs, Q, P)
	above(c, "ModDownQPtoQ", out, out0, b.lq)
	if !vh.Same(inQ, inQ0) || !vh.Same(inP, inP0) {
		c.Fatalf("ModDownQPtoQ changed its input")
	}
	ip := vh.Clone(inQ)
	b.be.ModDownQPtoQ(b.lq, b.lp, ip, inP, ip)
	if !vh.SameCoeffs(ip, out, b.lq) {
		c.Fatalf("ModDownQPtoQ in place differs")
	}

	nq, npp := vh.Clone(inQ), vh.Clone(inP)
	b.rQ.NTTLvl(b.lq, inQ, nq)
	b.rP.NTTLvl(b.lp, inP, npp)
	nq0, np0 := vh.Clone(nq), vh.Clone(npp)
	on := dirty(r, b.n, b.q)
	b.be.ModDownQPtoQNTT(b.lq, b.lp, nq, npp, on)
	above(c, "ModDownQPtoQNTT", on, on, b.lq)
	if !vh.Same(nq, nq0) || !vh.Same(npp, np0) {
		c.Fatalf("ModDownQPtoQNTT changed its input")
	}
	b.be.ModDownQPtoQNTT(b.lq, b.lp, nq, npp, nq)
	if !vh.SameCoeffs(nq, on, b.lq) {
		c.Fatalf("ModDownQPtoQNTT in place differs")
	}
	b.rQ.InvNTTLvl(b.lq, on, on)
	if s := vh.Cong(on, out, b.q, b.lq); s != "" {
		c.Fatalf("ModDownQPtoQNTT differs from ModDownQPtoQ: %s", s)
	}

	op := dirty(r, b.n, b.p)
	op0 := vh.Clone(op)
	earlier(func() { b.be.ModDownQPtoP(b.lq, b.lp, inQ, inP, vh.Clone(op)) })
	b.be.ModDownQPtoP(b.lq, b.lp, inQ, inP, op)
	check("ModDownQPtoP", op, ps, P, Q)
	above(c, "ModDownQPtoP", op, op0, b.lp)
	if !vh.Same(inQ, inQ0) || !vh.Same(inP, inP0) {
		c.Fatalf("ModDownQPtoP changed its input")
	}
}

func TestModDown(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 900, Thorough: 2500, Rule: "two bases, levels, integers of [0,QP) at and around multiples and half multiples of P and Q; non-trivial: more than one modulus on each side"}, func(c *vh.C) { modDown(c, 6) })
}

func TestModDownLong(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 40, Thorough: 150, Rule: "bases of up to 40 primes"}, func(c *vh.C) { modDown(c, 40) })
}

func decompose(c *vh.C, maxN int) {
	b := genBases(c, maxN)
	r := c.Rng("values")
	d := ring.NewDecomposer(b.rQ, b.rP)
	alpha := b.lp + 1
	beta := (b.lq + alpha) / alpha
	x := genInts(r, b.n, b.q[:b.lq+1])
	// make the residues modulo one digit extreme
	for j := range x {
		if r.IntN(2) == 0 {
			k := r.IntN(beta)
			e := min((k+1)*alpha, b.lq+1)
			v := genInts(r, 1, b.q[k*alpha:e])[0]
			res := make([][]uint64, b.lq+1)
			for i := range res {
				src := x[j]
				if i >= k*alpha && i < e {
					src = v
				}
				res[i] = []uint64{new(big.Int).Mod(src, new(big.Int).SetUint64(b.q[i])).Uint64()}
			}
			x[j] = vh.NewCRT(b.q[:b.lq+1]).At(res, 0)
		}
	}
	in := vh.FromBig(x, b.q)
	in0 := vh.Clone(in)
	for k := 0; k < beta; k++ {
		oq, op := dirty(r, b.n, b.q), dirty(r, b.n, b.p)
		oq0, op0 := vh.Clone(oq), vh.Clone(op)
		if c.Chance(1, 4, "earlier") {
			vh.Earlier(func() { d.DecomposeAndSplit(b.lq, b.lp, alpha, k, in, vh.Clone(oq), vh.Clone(op)) }, in)
		}
		d.DecomposeAndSplit(b.lq, b.lp, alpha, k, in, oq, op)
		if !vh.Same(in, in0) {
			c.Fatalf("DecomposeAndSplit changed its input")
		}
		above(c, "DecomposeAndSplit Q", oq, oq0, b.lq)
		above(c, "DecomposeAndSplit P", op, op0, b.lp)
		checkDigit(c, b, k, alpha, x, oq, op)
	}
	c.NonTrivial(beta > 1 || alpha > 1)
	c.Class("last digit full: %v", (b.lq+1)%alpha == 0)
	c.Class("alpha<=%d", 4*((alpha+3)/4))
}

func checkDigit(c *vh.C, b bases, k, alpha int, x []*big.Int, oq, op *ring.Poly) {
	e := min((k+1)*alpha, b.lq+1)
	D := vh.Prod(b.q[k*alpha : e])
	dig := make([]*big.Int, len(x))
	for j := range x {
		dig[j] = new(big.Int).Mod(x[j], D)
	}
	out := append(append([][]uint64(nil), oq.Coeffs[:b.lq+1]...), op.Coeffs[:b.lp+1]...)
	mod := append(append([]uint64(nil), b.q[:b.lq+1]...), b.p[:b.lp+1]...)
	checkLift(c, "digit", dig, D, e-k*alpha, out, mod)
}

func TestDecompose(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 900, Thorough: 2500, Rule: "every digit of inputs with extreme residues per digit, every level and digit width; non-trivial: several digits or several moduli per digit"}, func(c *vh.C) { decompose(c, 7) })
}

func TestDecomposeLong(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 25, Thorough: 100, Rule: "bases of up to 40 primes"}, func(c *vh.C) { decompose(c, 40) })
}

// The key switcher's decomposition, in the NTT domain.
func TestKeySwitcherDecompose(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 400, Thorough: 1200, Rule: "key switcher digits of NTT and coefficient-domain inputs at every level; non-trivial: several digits"}, func(c *vh.C) {
		b := genBases(c, 6)
		logN := 0
		for 1<<logN < b.n {
			logN++
		}
		p, err := rlwe.NewParameters(logN, b.q, b.p, 0, 3.2, b.typ)
		if err != nil {
			c.Fatalf("NewParameters: %v", err)
		}
		ks := rlwe.NewKeySwitcher(p)
		r := c.Rng("values")
		x := genInts(r, b.n, b.q[:b.lq+1])
		in := vh.FromBig(x, b.q)
		alpha := b.lp + 1
		beta := (b.lq + alpha) / alpha
		if c.Bool("ntt") {
			b.rQ.NTTLvl(b.lq, in, in)
			in.IsNTT = true
		}
		in0 := vh.Clone(in)
		pool := make([]rlwe.PolyQP, beta)
		for i := range pool {
			pool[i] = rlwe.PolyQP{Q: dirty(r, b.n, b.q), P: dirty(r, b.n, b.p)}
		}
		ks.DecomposeNTT(b.lq, b.lp, alpha, in, pool)
		if !vh.Same(in, in0) {
			c.Fatalf("DecomposeNTT changed its input")
		}
		c.NonTrivial(beta > 1)
		for k := range pool {
			b.rQ.ReduceLvl(b.lq, pool[k].Q, pool[k].Q)
			b.rP.ReduceLvl(b.lp, pool[k].P, pool[k].P)
			b.rQ.InvNTTLvl(b.lq, pool[k].Q, pool[k].Q)
			b.rP.InvNTTLvl(b.lp, pool[k].P, pool[k].P)
			checkDigit(c, b, k, alpha, x, pool[k].Q, pool[k].P)
		}
	})
}

// Extension of a small-norm polynomial, centered.
func TestExtendSmallNorm(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 600, Thorough: 2000, Rule: "small signed integers below half of every modulus; non-trivial: some coefficient negative"}, func(c *vh.C) {
		b := genBases(c, 5)
		r := c.Rng("values")
		m := b.q[0]
		for _, p := range b.p[:b.lp+1] {
			m = min(m, p)
		}
		m /= 2
		x := make([]*big.Int, b.n)
		for j := range x {
			v := int64(r.Uint64N(m + 1))
			switch r.IntN(4) {
			case 0:
				v = int64(m) - int64(r.IntN(2))
			case 1:
				v = int64(r.IntN(4))
			}
			if r.IntN(2) == 0 {
				v = -v
				c.NonTrivial(v != 0)
			}
			x[j] = big.NewInt(v)
		}
		in := vh.FromBig(x, b.q)
		in0 := vh.Clone(in)
		qp := &rlwe.RingQP{RingQ: b.rQ, RingP: b.rP}
		oq, op := dirty(r, b.n, b.q), dirty(r, b.n, b.p)
		op0 := vh.Clone(op)
		want := vh.FromBig(x, b.p)
		switch c.Uni(0, 2, "out") {
		case 0:
			qp.ExtendBasisSmallNormAndCenter(in, b.lp, oq, op)
			if s := vh.Cong(oq, in, b.q, len(b.q)-1); s != "" {
				c.Fatalf("Q part: %s", s)
			}
		case 1:
			qp.ExtendBasisSmallNormAndCenter(in, b.lp, nil, op)
		case 2:
			qp.ExtendBasisSmallNormAndCenter(in, b.lp, in, op)
		}
		if !vh.SameCoeffs(in, in0, len(b.q)-1) {
			c.Fatalf("input changed")
		}
		above(c, "ExtendBasisSmallNormAndCenter", op, op0, b.lp)
		if s := vh.Cong(op, want, b.p, b.lp); s != "" {
			c.Fatalf("P part: %s", s)
		}
	})
}
