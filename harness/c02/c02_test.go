package c02

import (
	"math/big"
	"math/bits"
	"reflect"
	"testing"

	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"vharness/vh"
)

type U = uint64

var two64 = new(big.Int).Lsh(big.NewInt(1), 64)

func bu(x U) *big.Int { return new(big.Int).SetUint64(x) }

func modU(x *big.Int, q U) U { return new(big.Int).Mod(x, bu(q)).Uint64() }

// rinv is 2^-64 mod q (q odd).
func rinv(q U) U { return new(big.Int).ModInverse(new(big.Int).Mod(two64, bu(q)), bu(q)).Uint64() }

func oddModulus(c *vh.C) U {
	b := c.Uni(2, 61, "qbits")
	r := c.Rng("q")
	lo, hi := U(1)<<(b-1), U(1)<<b-1
	switch c.Uni(0, 3, "qkind") {
	case 0:
		return lo | 1
	case 1:
		return hi
	}
	return (lo + r.Uint64N(hi-lo+1)) | 1
}

func any64(r *vh.Rand, q U) U {
	switch r.IntN(6) {
	case 0:
		return ^U(0) - U(r.IntN(3))
	case 1:
		k := r.Uint64N(^U(0)/q + 1)
		return k*q + U(r.IntN(3)) - 1
	case 2:
		return vh.Edge(r, q)
	case 3:
		return r.Uint64() >> uint(r.IntN(64))
	}
	return r.Uint64()
}

func canon(r *vh.Rand, q U) U {
	if r.IntN(2) == 0 {
		return vh.Edge(r, q)
	}
	return r.Uint64() % q
}

// Scalar reductions.
func TestScalars(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 20000, Thorough: 60000, Rule: "odd modulus of 2..61 bits, operands uniform, boundary or multiples of q +-1; non-trivial: q > 3 and a non-zero operand"}, func(c *vh.C) {
		q := oddModulus(c)
		r := c.Rng("operands")
		bp, mp := ring.BRedParams(q), ring.MRedParams(q)
		if mp*q != 1 {
			c.Fatalf("MRedParams(%d)=%d", q, mp)
		}
		w := new(big.Int).Div(new(big.Int).Lsh(big.NewInt(1), 128), bu(q))
		if new(big.Int).Rsh(w, 64).Uint64() != bp[0] || new(big.Int).And(w, new(big.Int).Sub(two64, big.NewInt(1))).Uint64() != bp[1] {
			c.Fatalf("BRedParams(%d)=%v", q, bp)
		}
		ri := rinv(q)
		r64 := modU(two64, q)
		for k := 0; k < 24; k++ {
			a, b := any64(r, q), any64(r, q)
			x, y := canon(r, q), canon(r, q)
			c.NonTrivial(q > 3 && a != 0 && x != 0)
			eq := func(name string, got, want, lim U) {
				if got >= lim || got%q != want {
					c.Fatalf("%s: q=%d a=%d b=%d x=%d y=%d: got %d, want %d mod q below %d", name, q, a, b, x, y, got, want, lim)
				}
			}
			eq("MForm", ring.MForm(a, q, bp), vh.MulMod(a, r64, q), q)
			eq("MFormConstant", ring.MFormConstant(a, q, bp), vh.MulMod(a, r64, q), 2*q)
			eq("InvMForm", ring.InvMForm(a, q, mp), vh.MulMod(a, ri, q), q)
			eq("InvMFormConstant", ring.InvMFormConstant(a, q, mp), vh.MulMod(a, ri, q), 2*q)
			eq("BRedAdd", ring.BRedAdd(a, q, bp), a%q, q)
			eq("BRedAddConstant", ring.BRedAddConstant(a, q, bp), a%q, 2*q)
			eq("BRed", ring.BRed(a, b, q, bp), vh.MulMod(a, b, q), q)
			eq("BRedConstant", ring.BRedConstant(a, b, q, bp), vh.MulMod(a, b, q), 2*q)
			eq("BRed xy", ring.BRed(x, y, q, bp), vh.MulMod(x, y, q), q)
			eq("MRed", ring.MRed(x, y, q, mp), vh.MulMod(vh.MulMod(x, y, q), ri, q), q)
			eq("MRed lazy", ring.MRed(a, y, q, mp), vh.MulMod(vh.MulMod(a, y, q), ri, q), q)
			eq("MRed lazy2", ring.MRed(y, a, q, mp), vh.MulMod(vh.MulMod(a, y, q), ri, q), q)
			eq("MRedConstant", ring.MRedConstant(x, y, q, mp), vh.MulMod(vh.MulMod(x, y, q), ri, q), 2*q)
			eq("MRedConstant lazy", ring.MRedConstant(a, y, q, mp), vh.MulMod(vh.MulMod(a, y, q), ri, q), 2*q)
			eq("CRed", ring.CRed(x+y, q), vh.AddMod(x, y, q), q)
			n := r.IntN(65)
			if n == 64 && r.IntN(2) == 0 {
				n = 0
			}
			eq("PowerOf2", ring.PowerOf2(ring.MForm(x, q, bp), n, q, mp), vh.MulMod(x, modU(new(big.Int).Lsh(big.NewInt(1), uint(n)), q), q), q)
			e := any64(r, q)
			eq("ModExp", ring.ModExp(a, e, q), vh.PowMod(a, e, q), q)
			em := int(e >> uint(1+r.IntN(62)))
			eq("ModexpMontgomery", ring.ModexpMontgomery(ring.MForm(x, q, bp), em, q, mp, bp), vh.MulMod(vh.PowMod(x, U(em), q), r64, q), q)
		}
		// Barrett works for even moduli too
		ev := q - 1
		if ev > 1 {
			bp := ring.BRedParams(ev)
			a, b := any64(r, ev), any64(r, ev)
			if g := ring.BRed(a, b, ev, bp); ev&(ev-1) != 0 && g != vh.MulMod(a, b, ev) {
				c.Fatalf("BRed: q=%d %d*%d: got %d", ev, a, b, g)
			}
			if g := ring.BRedAdd(a, ev, bp); g != a%ev {
				c.Fatalf("BRedAdd: q=%d %d: got %d", ev, a, g)
			}
		}
	})
}

// Rounded big-integer division.
func TestDivRound(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 3000, Thorough: 20000, Rule: "a, b of any sign and size, exact halves included; non-trivial: |b|>1 and a != 0"}, func(c *vh.C) {
		r := c.Rng("ab")
		rb := func(n int) *big.Int {
			v := new(big.Int)
			for i := 0; i < n; i++ {
				v.Lsh(v, 64).Add(v, bu(r.Uint64()))
			}
			v.Rsh(v, uint(r.IntN(64)))
			if r.IntN(2) == 0 {
				v.Neg(v)
			}
			return v
		}
		b := rb(c.Uni(1, 4, "wb"))
		if b.Sign() == 0 {
			b.SetInt64(3)
		}
		var a *big.Int
		switch c.Uni(0, 2, "kind") {
		case 0:
			a = rb(c.Uni(1, 6, "wa"))
		case 1: // near k*b/2
			a = new(big.Int).Mul(b, rb(1))
			a.Quo(a, big.NewInt(2))
			a.Add(a, big.NewInt(int64(c.Uni(-1, 1, "off"))))
		default:
			a = big.NewInt(int64(c.Uni(-4, 4, "small")))
			b = big.NewInt(int64(c.Uni(1, 4, "smallb")))
		}
		c.NonTrivial(a.Sign() != 0 && b.CmpAbs(big.NewInt(1)) > 0)
		ka, kb := new(big.Int).Set(a), new(big.Int).Set(b)
		out := new(big.Int)
		alias := c.Uni(0, 2, "alias")
		switch alias {
		case 1:
			ring.DivRound(a, b, a)
			out = a
		case 2:
			ring.DivRound(a, new(big.Int).Set(b), out)
		default:
			ring.DivRound(a, b, out)
			if a.Cmp(ka) != 0 {
				c.Fatalf("DivRound changed a")
			}
		}
		if b.Cmp(kb) != 0 {
			c.Fatalf("DivRound changed b")
		}
		// |2*(out*b - a)| <= |b|, ties away from zero
		d := new(big.Int).Mul(out, kb)
		d.Sub(d, ka)
		d2 := new(big.Int).Lsh(d, 1)
		if d2.CmpAbs(kb) > 0 {
			c.Fatalf("DivRound(%v,%v)=%v is not nearest", ka, kb, out)
		}
		if d2.CmpAbs(kb) == 0 {
			lo := new(big.Int).Quo(ka, kb)
			if out.CmpAbs(lo) < 0 || out.Cmp(lo) == 0 {
				c.Fatalf("DivRound(%v,%v)=%v does not round the half away from zero", ka, kb, out)
			}
		}
	})
}

// kinds of operand
const (
	none = iota
	can  // [0,q)
	lz   // [0,2q)
	a64  // any 64-bit value
	half // below 2^63 - 2^62 so that sums do not wrap
)

func gen(r *vh.Rand, kind int, q U) U {
	switch kind {
	case can:
		return canon(r, q)
	case lz:
		v := canon(r, q)
		if r.IntN(2) == 0 {
			v += q
		}
		return v
	case half:
		return any64(r, q) >> 2
	}
	return any64(r, q)
}

type kernel struct {
	name    string
	x, y, z int // operand kinds; z != none: the destination accumulates
	s       int // scalar kind
	run     func(p1, p2, p3 []U, s, q U, b []U, m U)
	want    func(x, y, z, s, q, ri U) *big.Int // congruent value
	lo, hi  func(x, y, z, s, q U) U            // inclusive range
}

func mul(x, y U) *big.Int        { return new(big.Int).Mul(bu(x), bu(y)) }
func add(x, y *big.Int) *big.Int { return new(big.Int).Add(x, y) }
func sub(x, y *big.Int) *big.Int { return new(big.Int).Sub(x, y) }
func mont(x, y, ri U) *big.Int   { return mul(x, y).Mul(mul(x, y), bu(ri)) }
func zero(x, y, z, s, q U) U     { return 0 }
func q1(x, y, z, s, q U) U       { return q - 1 }
func q0(x, y, z, s, q U) U       { return q }
func twoq1(x, y, z, s, q U) U    { return 2*q - 1 }
func twoq(x, y, z, s, q U) U     { return 2 * q }
func zlo(x, y, z, s, q U) U      { return z }
func zq(x, y, z, s, q U) U       { return z + q - 1 }
func zq0(x, y, z, s, q U) U      { return z + q }
func z2q(x, y, z, s, q U) U      { return z + 2*q - 1 }
func z2q0(x, y, z, s, q U) U     { return z + 2*q }
func exact(f func(x, y, z, s, q U) U) (func(x, y, z, s, q, ri U) *big.Int, func(x, y, z, s, q U) U, func(x, y, z, s, q U) U) {
	return func(x, y, z, s, q, ri U) *big.Int { return bu(f(x, y, z, s, q)) }, f, f
}

func kernels() (ks []kernel) {
	k := func(name string, x, y, z, s int, run func(p1, p2, p3 []U, s, q U, b []U, m U), want func(x, y, z, s, q, ri U) *big.Int, lo, hi func(x, y, z, s, q U) U) {
		ks = append(ks, kernel{name, x, y, z, s, run, want, lo, hi})
	}
	ke := func(name string, x, y, z, s int, run func(p1, p2, p3 []U, s, q U, b []U, m U), f func(x, y, z, s, q U) U) {
		w, l, h := exact(f)
		k(name, x, y, z, s, run, w, l, h)
	}
	k("AddVec", can, can, none, none, func(a, b, d []U, s, q U, _ []U, m U) { ring.AddVec(a, b, d, q) },
		func(x, y, z, s, q, ri U) *big.Int { return add(bu(x), bu(y)) }, zero, q1)
	ke("AddVecNoMod", half, half, none, none, func(a, b, d []U, s, q U, _ []U, m U) { ring.AddVecNoMod(a, b, d) },
		func(x, y, z, s, q U) U { return x + y })
	k("SubVec", can, can, none, none, func(a, b, d []U, s, q U, _ []U, m U) { ring.SubVec(a, b, d, q) },
		func(x, y, z, s, q, ri U) *big.Int { return sub(bu(x), bu(y)) }, zero, q1)
	ke("SubVecNomod", half, can, none, none, func(a, b, d []U, s, q U, _ []U, m U) { ring.SubVecNomod(a, b, d, q) },
		func(x, y, z, s, q U) U { return x + q - y })
	k("NegVec", can, none, none, none, func(a, _, d []U, s, q U, _ []U, m U) { ring.NegVec(a, d, q) },
		func(x, y, z, s, q, ri U) *big.Int { return new(big.Int).Neg(bu(x)) }, zero, q0)
	id := func(x, y, z, s, q, ri U) *big.Int { return bu(x) }
	k("ReduceVec", a64, none, none, none, func(a, _, d []U, s, q U, b []U, m U) { ring.ReduceVec(a, d, q, b) }, id, zero, q1)
	k("ReduceConstantVec", a64, none, none, none, func(a, _, d []U, s, q U, b []U, m U) { ring.ReduceConstantVec(a, d, q, b) }, id, zero, twoq1)
	k("ModVec", a64, none, none, none, func(a, _, d []U, s, q U, b []U, m U) { ring.ModVec(a, d, q, b) }, id, zero, q1)
	mu := func(x, y, z, s, q, ri U) *big.Int { return mul(x, y) }
	muz := func(x, y, z, s, q, ri U) *big.Int { return add(bu(z), mul(x, y)) }
	k("MulCoeffsVec", a64, a64, none, none, func(a, b, d []U, s, q U, bp []U, m U) { ring.MulCoeffsVec(a, b, d, q, bp) }, mu, zero, q1)
	k("MulCoeffsConstantVec", a64, a64, none, none, func(a, b, d []U, s, q U, bp []U, m U) { ring.MulCoeffsConstantVec(a, b, d, q, bp) }, mu, zero, twoq1)
	k("MulCoeffsAndAddVec", a64, a64, can, none, func(a, b, d []U, s, q U, bp []U, m U) { ring.MulCoeffsAndAddVec(a, b, d, q, bp) }, muz, zero, q1)
	k("MulCoeffsAndAddNoModVec", a64, a64, half, none, func(a, b, d []U, s, q U, bp []U, m U) { ring.MulCoeffsAndAddNoModVec(a, b, d, q, bp) }, muz, zlo, zq)
	mm := func(x, y, z, s, q, ri U) *big.Int { return mont(x, y, ri) }
	mz := func(x, y, z, s, q, ri U) *big.Int { return add(bu(z), mont(x, y, ri)) }
	ms := func(x, y, z, s, q, ri U) *big.Int { return sub(bu(z), mont(x, y, ri)) }
	mn := func(x, y, z, s, q, ri U) *big.Int { return new(big.Int).Neg(mont(x, y, ri)) }
	k("MulCoeffsMontgomeryVec", a64, can, none, none, func(a, b, d []U, s, q U, bp []U, m U) { ring.MulCoeffsMontgomeryVec(a, b, d, q, m) }, mm, zero, q1)
	k("MulCoeffsMontgomeryConstantVec", a64, can, none, none, func(a, b, d []U, s, q U, bp []U, m U) { ring.MulCoeffsMontgomeryConstantVec(a, b, d, q, m) }, mm, zero, twoq1)
	k("MulCoeffsMontgomeryAndAddVec", a64, can, can, none, func(a, b, d []U, s, q U, bp []U, m U) { ring.MulCoeffsMontgomeryAndAddVec(a, b, d, q, m) }, mz, zero, q1)
	k("MulCoeffsMontgomeryAndAddNoModVec", a64, can, half, none, func(a, b, d []U, s, q U, bp []U, m U) { ring.MulCoeffsMontgomeryAndAddNoModVec(a, b, d, q, m) }, mz, zlo, zq)
	k("MulCoeffsMontgomeryConstantAndAddNoModVec", a64, can, half, none, func(a, b, d []U, s, q U, bp []U, m U) {
		ring.MulCoeffsMontgomeryConstantAndAddNoModVec(a, b, d, q, m)
	}, mz, zlo, z2q)
	k("MulCoeffsMontgomeryAndSubVec", a64, can, can, none, func(a, b, d []U, s, q U, bp []U, m U) { ring.MulCoeffsMontgomeryAndSubVec(a, b, d, q, m) }, ms, zero, q1)
	k("MulCoeffsMontgomeryAndSubNoMod", a64, can, half, none, func(a, b, d []U, s, q U, bp []U, m U) { ring.MulCoeffsMontgomeryAndSubNoMod(a, b, d, q, m) }, ms, zlo, zq0)
	k("MulCoeffsMontgomeryConstantAndSubNoMod", a64, can, half, none, func(a, b, d []U, s, q U, bp []U, m U) {
		ring.MulCoeffsMontgomeryConstantAndSubNoMod(a, b, d, q, m)
	}, ms, zlo, z2q0)
	k("MulCoeffsMontgomeryConstantAndNeg", a64, can, none, none, func(a, b, d []U, s, q U, bp []U, m U) { ring.MulCoeffsMontgomeryConstantAndNeg(a, b, d, q, m) }, mn, zero, twoq)
	k("AddVecNoModAndMulScalarMontgomeryVec", half, half, none, can, func(a, b, d []U, s, q U, bp []U, m U) {
		ring.AddVecNoModAndMulScalarMontgomeryVec(a, b, d, s, q, m)
	}, func(x, y, z, s, q, ri U) *big.Int { return mont(x+y, s, ri) }, zero, q1)
	k("AddScalarVec", can, none, none, can, func(a, _, d []U, s, q U, bp []U, m U) { ring.AddScalarVec(a, d, s, q) },
		func(x, y, z, s, q, ri U) *big.Int { return add(bu(x), bu(s)) }, zero, q1)
	ke("AddScalarNoModVec", half, none, none, half, func(a, _, d []U, s, q U, bp []U, m U) { ring.AddScalarNoModVec(a, d, s) },
		func(x, y, z, s, q U) U { return x + s })
	ke("AddScalarNoModAndNegTwoQiNoModVec", lz, none, none, half, func(a, _, d []U, s, q U, bp []U, m U) {
		ring.AddScalarNoModAndNegTwoQiNoModVec(a, d, s, q)
	}, func(x, y, z, s, q U) U { return s + 2*q - x })
	k("SubScalarVec", can, none, none, can, func(a, _, d []U, s, q U, bp []U, m U) { ring.SubScalarVec(a, d, s, q) },
		func(x, y, z, s, q, ri U) *big.Int { return sub(bu(x), bu(s)) }, zero, q1)
	sm := func(x, y, z, s, q, ri U) *big.Int { return mont(x, s, ri) }
	k("MulScalarMontgomeryVec", a64, none, none, can, func(a, _, d []U, s, q U, bp []U, m U) { ring.MulScalarMontgomeryVec(a, d, s, q, m) }, sm, zero, q1)
	k("MulScalarMontgomeryConstantVec", a64, none, none, can, func(a, _, d []U, s, q U, bp []U, m U) { ring.MulScalarMontgomeryConstantVec(a, d, s, q, m) }, sm, zero, twoq1)
	k("MulScalarMontgomeryAndAddVec", a64, none, can, can, func(a, _, d []U, s, q U, bp []U, m U) { ring.MulScalarMontgomeryAndAddVec(a, d, s, q, m) },
		func(x, y, z, s, q, ri U) *big.Int { return add(bu(z), mont(x, s, ri)) }, zero, q1)
	k("SubVecAndMulScalarMontgomeryTwoQiVec", half, lz, none, can, func(a, b, d []U, s, q U, bp []U, m U) {
		ring.SubVecAndMulScalarMontgomeryTwoQiVec(a, b, d, s, q, m)
	}, func(x, y, z, s, q, ri U) *big.Int { v := sub(bu(x), bu(y)); v.Mul(v, bu(s)); return v.Mul(v, bu(ri)) }, zero, q1)
	fm := func(x, y, z, s, q, ri U) *big.Int { return new(big.Int).Mul(bu(x), two64) }
	k("MFormVec", a64, none, none, none, func(a, _, d []U, s, q U, bp []U, m U) { ring.MFormVec(a, d, q, bp) }, fm, zero, q1)
	k("MFormConstantVec", a64, none, none, none, func(a, _, d []U, s, q U, bp []U, m U) { ring.MFormConstantVec(a, d, q, bp) }, fm, zero, twoq1)
	k("InvMFormVec", a64, none, none, none, func(a, _, d []U, s, q U, bp []U, m U) { ring.InvMFormVec(a, d, q, m) },
		func(x, y, z, s, q, ri U) *big.Int { return mul(x, ri) }, zero, q1)
	return
}

// Vector kernels.
func TestKernels(t *testing.T) {
	ks := kernels()
	vh.Check(t, vh.Opts{Quick: 1500, Thorough: 6000, Rule: "every vector kernel on one drawn odd modulus, vectors of 8..64 values inside guard zones, drawn aliasing; non-trivial: q > 3"}, func(c *vh.C) {
		q := oddModulus(c)
		c.NonTrivial(q > 3)
		bp, mp, ri := ring.BRedParams(q), ring.MRedParams(q), rinv(q)
		n := 8 * c.Uni(1, 8, "n8")
		alias := c.Uni(0, 4, "alias")
		r := c.Rng("data")
		for _, k := range ks {
			kx, ky, kz := k.x, k.y, k.z
			al := alias
			if ky == none && al > 1 {
				al = 1
			}
			buf := func(kind int) []U {
				b := make([]U, n+16)
				for i := range b {
					b[i] = gen(r, kind, q)
				}
				return b
			}
			tight := func(a, b int) int { // a kind valid for both
				if a == none || a == a64 {
					return b
				}
				if b == none || b == a64 {
					return a
				}
				if a == can || b == can {
					return can
				}
				if a == lz || b == lz {
					return lz
				}
				return half
			}
			var X, Y, Z []U
			switch al {
			case 0: // all distinct
				X, Y, Z = buf(kx), buf(tight(ky, a64)), buf(tight(kz, a64))
			case 1: // dest = p1
				X = buf(tight(kx, kz))
				Y, Z = buf(tight(ky, a64)), X
			case 2: // dest = p2
				X, Y = buf(kx), buf(tight(ky, kz))
				Z = Y
			case 3: // p1 = p2
				X = buf(tight(kx, ky))
				Y, Z = X, buf(tight(kz, a64))
			default:
				X = buf(tight(tight(kx, ky), kz))
				Y, Z = X, X
			}
			s := gen(r, k.s, q)
			cp := func(a []U) []U { return append([]U(nil), a...) }
			x0, y0, z0 := cp(X), cp(Y), cp(Z)
			k.run(X[8:8+n], Y[8:8+n], Z[8:8+n], s, q, bp, mp)
			for i := range Z {
				if i < 8 || i >= 8+n {
					if Z[i] != z0[i] {
						c.Fatalf("%s wrote outside the destination (q=%d, alias %d)", k.name, q, al)
					}
					continue
				}
				w := modU(k.want(x0[i], y0[i], z0[i], s, q, ri), q)
				lo, hi := k.lo(x0[i], y0[i], z0[i], s, q), k.hi(x0[i], y0[i], z0[i], s, q)
				if Z[i]%q != w || Z[i] < lo || Z[i] > hi {
					c.Fatalf("%s alias %d q=%d x=%d y=%d z=%d s=%d: got %d, want %d mod q in [%d,%d]", k.name, al, q, x0[i], y0[i], z0[i], s, Z[i], w, lo, hi)
				}
			}
			same := func(a, b []U) bool { return &a[0] == &b[0] }
			if !same(X, Z) && !vh.SameVec(X, x0) || !same(Y, Z) && !vh.SameVec(Y, y0) {
				c.Fatalf("%s modified an input (q=%d, alias %d)", k.name, q, al)
			}
		}
	})
}

type rop struct {
	name    string
	x, y, z int
	full    func(r *ring.Ring, a, b, d *ring.Poly, s U, S *big.Int)
	lvl     func(r *ring.Ring, l int, a, b, d *ring.Poly, s U, S *big.Int)
	want    func(x, y, z, s U, S *big.Int, q, ri U) *big.Int
	lo, hi  func(x, y, z, s, q U) U
}

func ringOps() (os []rop) {
	type P = *ring.Poly
	type R = *ring.Ring
	// binary operations
	b := func(name string, x, y, z int, f func(R, P, P, P), fl func(R, int, P, P, P), want func(x, y, z, q, ri U) *big.Int, lo, hi func(x, y, z, s, q U) U) {
		o := rop{name: name, x: x, y: y, z: z, lo: lo, hi: hi,
			want: func(x, y, z, s U, S *big.Int, q, ri U) *big.Int { return want(x, y, z, q, ri) }}
		if f != nil {
			o.full = func(r R, a, b, d P, s U, S *big.Int) { f(r, a, b, d) }
		}
		o.lvl = func(r R, l int, a, b, d P, s U, S *big.Int) { fl(r, l, a, b, d) }
		os = append(os, o)
	}
	u := func(name string, x, z int, f func(r R, a, d P, s U, S *big.Int), fl func(r R, l int, a, d P, s U, S *big.Int), want func(x, z, s U, S *big.Int, q, ri U) *big.Int, lo, hi func(x, y, z, s, q U) U) {
		o := rop{name: name, x: x, z: z, lo: lo, hi: hi,
			want: func(x, y, z, s U, S *big.Int, q, ri U) *big.Int { return want(x, z, s, S, q, ri) }}
		if f != nil {
			o.full = func(r R, a, b, d P, s U, S *big.Int) { f(r, a, d, s, S) }
		}
		if fl != nil {
			o.lvl = func(r R, l int, a, b, d P, s U, S *big.Int) { fl(r, l, a, d, s, S) }
		}
		os = append(os, o)
	}
	ad := func(x, y, z, q, ri U) *big.Int { return add(bu(x), bu(y)) }
	su := func(x, y, z, q, ri U) *big.Int { return sub(bu(x), bu(y)) }
	mu := func(x, y, z, q, ri U) *big.Int { return mul(x, y) }
	muz := func(x, y, z, q, ri U) *big.Int { return add(bu(z), mul(x, y)) }
	mm := func(x, y, z, q, ri U) *big.Int { return mont(x, y, ri) }
	mz := func(x, y, z, q, ri U) *big.Int { return add(bu(z), mont(x, y, ri)) }
	ms := func(x, y, z, q, ri U) *big.Int { return sub(bu(z), mont(x, y, ri)) }
	b("Add", can, can, none, R.Add, R.AddLvl, ad, zero, q1)
	b("AddNoMod", half, half, none, R.AddNoMod, R.AddNoModLvl, ad, func(x, y, z, s, q U) U { return x + y }, func(x, y, z, s, q U) U { return x + y })
	b("Sub", can, can, none, R.Sub, R.SubLvl, su, zero, q1)
	b("SubNoMod", half, can, none, R.SubNoMod, R.SubNoModLvl, su, func(x, y, z, s, q U) U { return x + q - y }, func(x, y, z, s, q U) U { return x + q - y })
	b("MulCoeffs", a64, a64, none, R.MulCoeffs, R.MulCoeffsLvl, mu, zero, q1)
	b("MulCoeffsConstant", a64, a64, none, R.MulCoeffsConstant, R.MulCoeffsConstantLvl, mu, zero, twoq1)
	b("MulCoeffsAndAdd", a64, a64, can, R.MulCoeffsAndAdd, R.MulCoeffsAndAddLvl, muz, zero, q1)
	b("MulCoeffsAndAddNoMod", a64, a64, half, R.MulCoeffsAndAddNoMod, R.MulCoeffsAndAddNoModLvl, muz, zlo, zq)
	b("MulCoeffsMontgomery", a64, can, none, R.MulCoeffsMontgomery, R.MulCoeffsMontgomeryLvl, mm, zero, q1)
	b("MulCoeffsMontgomeryConstant", a64, can, none, R.MulCoeffsMontgomeryConstant, R.MulCoeffsMontgomeryConstantLvl, mm, zero, twoq1)
	b("MulCoeffsMontgomeryConstantAndNegLvl", a64, can, none, nil, R.MulCoeffsMontgomeryConstantAndNegLvl,
		func(x, y, z, q, ri U) *big.Int { return new(big.Int).Neg(mont(x, y, ri)) }, zero, twoq)
	b("MulCoeffsMontgomeryAndAdd", a64, can, can, R.MulCoeffsMontgomeryAndAdd, R.MulCoeffsMontgomeryAndAddLvl, mz, zero, q1)
	b("MulCoeffsMontgomeryAndAddNoMod", a64, can, half, R.MulCoeffsMontgomeryAndAddNoMod, R.MulCoeffsMontgomeryAndAddNoModLvl, mz, zlo, zq)
	b("MulCoeffsMontgomeryConstantAndAddNoMod", a64, can, half, R.MulCoeffsMontgomeryConstantAndAddNoMod, R.MulCoeffsMontgomeryConstantAndAddNoModLvl, mz, zlo, z2q)
	b("MulCoeffsMontgomeryAndSub", a64, can, can, R.MulCoeffsMontgomeryAndSub, R.MulCoeffsMontgomeryAndSubLvl, ms, zero, q1)
	b("MulCoeffsMontgomeryAndSubNoMod", a64, can, half, R.MulCoeffsMontgomeryAndSubNoMod, R.MulCoeffsMontgomeryAndSubNoModLvl, ms, zlo, zq0)
	b("MulCoeffsMontgomeryConstantAndSubNoModLvl", a64, can, half, nil, R.MulCoeffsMontgomeryConstantAndSubNoModLvl, ms, zlo, z2q0)

	u("Neg", can, none, func(r R, a, d P, s U, S *big.Int) { r.Neg(a, d) }, func(r R, l int, a, d P, s U, S *big.Int) { r.NegLvl(l, a, d) },
		func(x, z, s U, S *big.Int, q, ri U) *big.Int { return new(big.Int).Neg(bu(x)) }, zero, q0)
	id := func(x, z, s U, S *big.Int, q, ri U) *big.Int { return bu(x) }
	u("Reduce", a64, none, func(r R, a, d P, s U, S *big.Int) { r.Reduce(a, d) }, func(r R, l int, a, d P, s U, S *big.Int) { r.ReduceLvl(l, a, d) }, id, zero, q1)
	u("ReduceConstant", a64, none, func(r R, a, d P, s U, S *big.Int) { r.ReduceConstant(a, d) }, func(r R, l int, a, d P, s U, S *big.Int) { r.ReduceConstantLvl(l, a, d) }, id, zero, twoq1)
	u("AddScalar", can, none, func(r R, a, d P, s U, S *big.Int) { r.AddScalar(a, s, d) }, func(r R, l int, a, d P, s U, S *big.Int) { r.AddScalarLvl(l, a, s, d) },
		func(x, z, s U, S *big.Int, q, ri U) *big.Int { return add(bu(x), bu(s)) }, zero, q1)
	u("SubScalar", can, none, func(r R, a, d P, s U, S *big.Int) { r.SubScalar(a, s, d) }, func(r R, l int, a, d P, s U, S *big.Int) { r.SubScalarLvl(l, a, s, d) },
		func(x, z, s U, S *big.Int, q, ri U) *big.Int { return sub(bu(x), bu(s)) }, zero, q1)
	u("MulScalar", a64, none, func(r R, a, d P, s U, S *big.Int) { r.MulScalar(a, s, d) }, func(r R, l int, a, d P, s U, S *big.Int) { r.MulScalarLvl(l, a, s, d) },
		func(x, z, s U, S *big.Int, q, ri U) *big.Int { return mul(x, s) }, zero, q1)
	u("AddScalarBigint", can, none, func(r R, a, d P, s U, S *big.Int) { r.AddScalarBigint(a, S, d) }, func(r R, l int, a, d P, s U, S *big.Int) { r.AddScalarBigintLvl(l, a, S, d) },
		func(x, z, s U, S *big.Int, q, ri U) *big.Int { return add(bu(x), S) }, zero, q1)
	u("SubScalarBigint", can, none, func(r R, a, d P, s U, S *big.Int) { r.SubScalarBigint(a, S, d) }, func(r R, l int, a, d P, s U, S *big.Int) { r.SubScalarBigintLvl(l, a, S, d) },
		func(x, z, s U, S *big.Int, q, ri U) *big.Int { return sub(bu(x), S) }, zero, q1)
	u("MulScalarBigint", a64, none, func(r R, a, d P, s U, S *big.Int) { r.MulScalarBigint(a, S, d) }, func(r R, l int, a, d P, s U, S *big.Int) { r.MulScalarBigintLvl(l, a, S, d) },
		func(x, z, s U, S *big.Int, q, ri U) *big.Int { return new(big.Int).Mul(bu(x), S) }, zero, q1)
	fm := func(x, z, s U, S *big.Int, q, ri U) *big.Int { return new(big.Int).Mul(bu(x), two64) }
	u("MForm", a64, none, func(r R, a, d P, s U, S *big.Int) { r.MForm(a, d) }, func(r R, l int, a, d P, s U, S *big.Int) { r.MFormLvl(l, a, d) }, fm, zero, q1)
	u("MFormConstantLvl", a64, none, nil, func(r R, l int, a, d P, s U, S *big.Int) { r.MFormConstantLvl(l, a, d) }, fm, zero, twoq1)
	u("InvMForm", a64, none, func(r R, a, d P, s U, S *big.Int) { r.InvMForm(a, d) }, func(r R, l int, a, d P, s U, S *big.Int) { r.InvMFormLvl(l, a, d) },
		func(x, z, s U, S *big.Int, q, ri U) *big.Int { return mul(x, ri) }, zero, q1)
	u("MulByPow2", a64, none, func(r R, a, d P, s U, S *big.Int) { r.MulByPow2(a, int(s%65), d) }, func(r R, l int, a, d P, s U, S *big.Int) { r.MulByPow2Lvl(l, a, int(s%65), d) },
		func(x, z, s U, S *big.Int, q, ri U) *big.Int { return new(big.Int).Lsh(bu(x), uint(s%65)) }, zero, q1)
	return
}

// Ring operations: values, levels, aliasing, nothing else written.
func TestRingOps(t *testing.T) {
	ops := ringOps()
	vh.Check(t, vh.Opts{Quick: 700, Thorough: 2500, Rule: "every ring operation on a drawn ring, operand levels, requested level, aliasing; operands uniform and boundary; non-trivial: at least two moduli"}, func(c *vh.C) {
		n := 1 << c.Deg(4, 6, 15, "logN")
		m := c.Moduli(c.Count(1, 4, 16, "nmod"), uint64(2*n), 12, 61, "q")
		rg := vh.Ring(n, m, ring.Standard)
		L := len(m) - 1
		c.NonTrivial(L > 0)
		lvl := c.Uni(0, L, "lvl")
		alias := c.Uni(0, 4, "alias")
		useFull := c.Bool("full")
		r := c.Rng("data")
		s := any64(r, m[0])
		S := new(big.Int).Mul(bu(r.Uint64()), bu(r.Uint64()))
		S.Mul(S, bu(any64(r, m[0])))
		S.Rsh(S, uint(r.IntN(192)))
		if r.IntN(2) == 0 {
			S.Neg(S)
		}
		c.Note("lvl=%d alias=%d full=%v moduli=%v s=%d S=%v", lvl, alias, useFull, m, s, S)
		for _, o := range ops {
			full := useFull && o.full != nil || o.lvl == nil
			al := alias
			if o.y == none && al > 1 {
				al = al % 2
			}
			width := n
			lens := [3]int{L, L, L}
			level := lvl
			if full {
				// each operand has its own level, the smallest one counts
				lens = [3]int{r.IntN(L + 1), r.IntN(L + 1), r.IntN(L + 1)}
				if o.y == none {
					lens[1] = L
				}
				switch al {
				case 1:
					lens[2] = lens[0]
				case 2:
					lens[2] = lens[1]
				case 3:
					lens[1] = lens[0]
				case 4:
					lens[1], lens[2] = lens[0], lens[0]
				}
				level = L
				for _, l := range lens {
					if l < level {
						level = l
					}
				}
			} else if r.IntN(4) == 0 {
				width = 2 * n // longer polynomials are allowed, only N coefficients count
			}
			mk := func(kind, l int) *ring.Poly {
				p := ring.NewPoly(width, l+1)
				for i := range p.Coeffs {
					for j := range p.Coeffs[i] {
						p.Coeffs[i][j] = gen(r, kind, m[i])
					}
				}
				return p
			}
			mostTight := func(ks ...int) int {
				best := a64
				for _, k := range ks {
					if k == can || k == half && best != can {
						best = k
					}
				}
				return best
			}
			var X, Y, Z *ring.Poly
			switch al {
			case 0:
				X, Y, Z = mk(o.x, lens[0]), mk(mostTight(o.y), lens[1]), mk(mostTight(o.z), lens[2])
			case 1:
				X = mk(mostTight(o.x, o.z), lens[0])
				Y, Z = mk(mostTight(o.y), lens[1]), X
			case 2:
				X, Y = mk(o.x, lens[0]), mk(mostTight(o.y, o.z), lens[1])
				Z = Y
			case 3:
				X = mk(mostTight(o.x, o.y), lens[0])
				Y, Z = X, mk(mostTight(o.z), lens[2])
			default:
				X = mk(mostTight(o.x, o.y, o.z), lens[0])
				Y, Z = X, X
			}
			x0, y0, z0 := vh.Clone(X), vh.Clone(Y), vh.Clone(Z)
			S0 := new(big.Int).Set(S)
			if full {
				o.full(rg, X, Y, Z, s, S)
			} else {
				o.lvl(rg, lvl, X, Y, Z, s, S)
			}
			if S.Cmp(S0) != 0 {
				c.Fatalf("%s modified the scalar", o.name)
			}
			if X != Z && !vh.Same(X, x0) || Y != Z && !vh.Same(Y, y0) {
				c.Fatalf("%s (full=%v lvl=%d alias=%d) modified an input", o.name, full, lvl, al)
			}
			for i := range Z.Coeffs {
				if i > level {
					if !vh.SameVec(Z.Coeffs[i], z0.Coeffs[i]) {
						c.Fatalf("%s (full=%v) at level %d wrote modulus %d", o.name, full, level, i)
					}
					continue
				}
				q := m[i]
				ri := rinv(q)
				for j := range Z.Coeffs[i] {
					g := Z.Coeffs[i][j]
					if j >= n {
						if g != z0.Coeffs[i][j] {
							c.Fatalf("%s wrote beyond the ring degree", o.name)
						}
						continue
					}
					x, y, z := x0.Coeffs[i][j], y0.Coeffs[i][j], z0.Coeffs[i][j]
					w := modU(o.want(x, y, z, s, S, q, ri), q)
					lo, hi := o.lo(x, y, z, s, q), o.hi(x, y, z, s, q)
					if g%q != w || g < lo || g > hi {
						c.Fatalf("%s full=%v alias=%d q=%d x=%d y=%d z=%d s=%d S=%v: got %d, want %d mod q in [%d,%d]", o.name, full, al, q, x, y, z, s, S, g, w, lo, hi)
					}
				}
			}
		}
	})
}

// Remaining operations with their own shape.
func TestOther(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 1500, Thorough: 5000, Rule: "Mod, MulByVectorMontgomery(+AndAddNoMod), MulByPow2New, BitReverse, Ring.Equal on drawn rings; non-trivial: non-zero polynomial"}, func(c *vh.C) {
		n := 1 << c.Deg(4, 7, 15, "logN")
		m := c.Moduli(c.Count(1, 3, 16, "nmod"), uint64(2*n), 12, 61, "q")
		rg := vh.Ring(n, m, ring.Standard)
		L := len(m) - 1
		lvl := c.Uni(0, L, "lvl")
		r := c.Rng("data")
		p := ring.NewPoly(n, L+1)
		for i := range p.Coeffs {
			for j := range p.Coeffs[i] {
				p.Coeffs[i][j] = any64(r, m[i])
			}
		}
		p0 := vh.Clone(p)
		c.NonTrivial(true)
		chk := func(name string, d, old *ring.Poly, level int, f func(q U, i, j int) U, lo, hi func(q U, i, j int) U) {
			for i := range d.Coeffs {
				if i > level {
					if !vh.SameVec(d.Coeffs[i], old.Coeffs[i]) {
						c.Fatalf("%s at level %d wrote modulus %d", name, level, i)
					}
					continue
				}
				for j, g := range d.Coeffs[i] {
					if g%m[i] != f(m[i], i, j) || g < lo(m[i], i, j) || g > hi(m[i], i, j) {
						c.Fatalf("%s q=%d index %d input %d: got %d, want %d", name, m[i], j, p0.Coeffs[i][j], g, f(m[i], i, j))
					}
				}
			}
			if !vh.Same(p, p0) {
				c.Fatalf("%s modified its input", name)
			}
		}
		z := func(q U, i, j int) U { return 0 }
		qm := func(q U, i, j int) U { return q - 1 }
		dirty := func() *ring.Poly {
			d := ring.NewPoly(n, L+1)
			vh.Fill(vh.NewRand(5), d, m, "uniform")
			return d
		}
		old := dirty()
		// Mod by an unrelated modulus
		mod := oddModulus(c)
		d := dirty()
		level := L
		if c.Bool("lvlvariant") {
			level = lvl
			rg.ModLvl(lvl, p, mod, d)
		} else {
			rg.Mod(p, mod, d)
		}
		for i := 0; i <= level; i++ {
			for j, g := range d.Coeffs[i] {
				if g != p0.Coeffs[i][j]%mod {
					c.Fatalf("Mod %d of %d: got %d", mod, p0.Coeffs[i][j], g)
				}
			}
		}
		for i := level + 1; i <= L; i++ {
			if !vh.SameVec(d.Coeffs[i], old.Coeffs[i]) {
				c.Fatalf("ModLvl wrote modulus %d", i)
			}
		}
		// vector product (vector below every modulus)
		min := m[0]
		for _, q := range m {
			if q < min {
				min = q
			}
		}
		vec := make([]U, n)
		for j := range vec {
			vec[j] = canon(r, min)
		}
		vk := append([]U(nil), vec...)
		mv := func(q U, i, j int) U { return vh.MulMod(vh.MulMod(p0.Coeffs[i][j], vk[j], q), rinv(q), q) }
		d = dirty()
		rg.MulByVectorMontgomeryLvl(lvl, p, vec, d)
		chk("MulByVectorMontgomeryLvl", d, old, lvl, mv, z, qm)
		d = dirty()
		rg.MulByVectorMontgomery(p, vec, d)
		chk("MulByVectorMontgomery", d, old, L, mv, z, qm)
		ma := func(q U, i, j int) U { return vh.AddMod(mv(q, i, j), old.Coeffs[i][j], q) }
		al := func(q U, i, j int) U { return old.Coeffs[i][j] }
		ah := func(q U, i, j int) U { return old.Coeffs[i][j] + q - 1 }
		d = dirty()
		rg.MulByVectorMontgomeryAndAddNoModLvl(lvl, p, vec, d)
		chk("MulByVectorMontgomeryAndAddNoModLvl", d, old, lvl, ma, al, ah)
		d = dirty()
		rg.MulByVectorMontgomeryAndAddNoMod(p, vec, d)
		chk("MulByVectorMontgomeryAndAddNoMod", d, old, L, ma, al, ah)
		if !vh.SameVec(vec, vk) {
			c.Fatalf("vector modified")
		}
		pw := c.Uni(0, 64, "pow2")
		d = rg.MulByPow2New(p, pw)
		chk("MulByPow2New", d, old, L, func(q U, i, j int) U {
			return modU(new(big.Int).Lsh(bu(p0.Coeffs[i][j]), uint(pw)), q)
		}, z, qm)
		// bit reversal
		br := func(j int) int { return int(bits.Reverse64(U(j)) >> uint(64-bits.Len(uint(n))+1)) }
		d = dirty()
		rg.BitReverse(p, d)
		e := vh.Clone(p)
		rg.BitReverse(e, e)
		for i := range m {
			for j := 0; j < n; j++ {
				if d.Coeffs[i][br(j)] != p0.Coeffs[i][j] || e.Coeffs[i][br(j)] != p0.Coeffs[i][j] {
					c.Fatalf("BitReverse index %d", j)
				}
			}
		}
		if !vh.Same(p, p0) {
			c.Fatalf("BitReverse modified its input")
		}
	})
}

// The operations of the ring modulo QP are those of its two rings (checked above), each at its level.
func TestRingQP(t *testing.T) {
	type op struct {
		name string
		args int
	}
	ops := []op{{"AddLvl", 2}, {"AddNoModLvl", 2}, {"SubLvl", 2}, {"MFormLvl", 1}, {"InvMFormLvl", 1}, {"MulCoeffsMontgomeryLvl", 2}, {"MulCoeffsMontgomeryConstantLvl", 2},
		{"MulCoeffsMontgomeryConstantAndAddNoModLvl", 2}, {"MulCoeffsMontgomeryAndSubLvl", 2}, {"MulCoeffsMontgomeryConstantAndSubNoModLvl", 2}, {"MulCoeffsMontgomeryAndAddLvl", 2},
		{"NTTLvl", 1}, {"InvNTTLvl", 1}, {"NTTLazyLvl", 1}, {"CopyValuesLvl", 1}}
	vh.Check(t, vh.Opts{Quick: 400, Thorough: 3000, Rule: "every operation of the union ring over rings with or without Q or P, levels of each, operands apart or the output over one of them; non-trivial: both rings present"}, func(c *vh.C) {
		n := 1 << c.Deg(4, 6, 14, "logN")
		nq, np := c.Uni(0, 5, "nq"), c.Uni(0, 4, "np")
		if nq+np == 0 {
			nq = 1
		}
		all := c.Moduli(nq+np, uint64(2*n), 12, 61, "m")
		q, p := all[:nq], all[nq:]
		var qp rlwe.RingQP
		lq, lp := 0, 0
		if nq > 0 {
			qp.RingQ, lq = vh.Ring(n, q, ring.Standard), c.Uni(0, nq-1, "lq")
		}
		if np > 0 {
			qp.RingP, lp = vh.Ring(n, p, ring.Standard), c.Uni(0, np-1, "lp")
		}
		c.NonTrivial(nq > 0 && np > 0)
		r := c.Rng("data")
		alias := c.Uni(0, 2, "alias")
		mk := func() rlwe.PolyQP {
			x := qp.NewPoly()
			if x.Q != nil {
				vh.Fill(r, x.Q, q, "uniform")
			}
			if x.P != nil {
				vh.Fill(r, x.P, p, "uniform")
			}
			return x
		}
		for _, o := range ops {
			x := []rlwe.PolyQP{mk(), mk(), mk()}
			in, out := x[:o.args], x[2]
			if alias > 0 {
				out = in[alias%o.args]
			}
			half := func(rg *ring.Ring, level int, part func(rlwe.PolyQP) *ring.Poly) (o0 *ring.Poly) {
				if rg == nil {
					return nil
				}
				var a []reflect.Value
				a = append(a, reflect.ValueOf(level))
				same := map[*ring.Poly]*ring.Poly{}
				cp := func(z *ring.Poly) *ring.Poly {
					if same[z] == nil {
						same[z] = vh.Clone(z)
					}
					return same[z]
				}
				for _, y := range in {
					a = append(a, reflect.ValueOf(cp(part(y))))
				}
				o0 = cp(part(out))
				a = append(a, reflect.ValueOf(o0))
				if o.name == "CopyValuesLvl" {
					ring.CopyValuesLvl(level, a[1].Interface().(*ring.Poly), o0)
				} else {
					reflect.ValueOf(rg).MethodByName(o.name).Call(a)
				}
				return
			}
			wq := half(qp.RingQ, lq, func(z rlwe.PolyQP) *ring.Poly { return z.Q })
			wp := half(qp.RingP, lp, func(z rlwe.PolyQP) *ring.Poly { return z.P })
			var keep []rlwe.PolyQP
			for _, y := range in {
				keep = append(keep, y.CopyNew())
			}
			a := []reflect.Value{reflect.ValueOf(lq), reflect.ValueOf(lp)}
			for _, y := range append(append([]rlwe.PolyQP{}, in...), out) {
				a = append(a, reflect.ValueOf(y))
			}
			reflect.ValueOf(&qp).MethodByName(o.name).Call(a)
			for i, pair := range [][2]*ring.Poly{{out.Q, wq}, {out.P, wp}} {
				if pair[1] != nil && !vh.Same(pair[0], pair[1]) {
					c.Fatalf("RingQP.%s (levels %d, %d; aliasing %d): the part modulo %s is not the result of that ring's operation", o.name, lq, lp, alias, [...]string{"Q", "P"}[i])
				}
			}
			for i, y := range in {
				if y != out && (y.Q != nil && !vh.Same(y.Q, keep[i].Q) || y.P != nil && !vh.Same(y.P, keep[i].P)) {
					c.Fatalf("RingQP.%s: operand %d changes", o.name, i)
				}
			}
		}
	})
}
