package c04

import (
	"math"
	"math/big"
	"testing"

	"fast-ksw/ring"
	"vharness/vh"
)

func bu(x uint64) *big.Int { return new(big.Int).SetUint64(x) }

func randBig(r *vh.Rand, Q *big.Int) *big.Int {
	x := new(big.Int)
	for i := 0; i < Q.BitLen()/64+2; i++ {
		x.Lsh(x, 64).Or(x, bu(r.Uint64()))
	}
	return x.Mod(x, Q)
}

// genInts draws integers of [0,Q) around multiples and halves of products of trailing moduli.
func genInts(r *vh.Rand, n int, m []uint64) []*big.Int {
	Q := vh.Prod(m)
	o := make([]*big.Int, n)
	for j := range o {
		D := vh.Prod(m[len(m)-1-r.IntN(len(m)):])
		x := new(big.Int)
		switch r.IntN(5) {
		case 0:
			x.Mul(D, randBig(r, Q)).Add(x, big.NewInt(int64(r.IntN(5)-2)))
		case 1:
			x.Mul(D, randBig(r, Q)).Add(x, new(big.Int).Rsh(D, 1)).Add(x, big.NewInt(int64(r.IntN(5)-2)))
		case 2:
			x.Rsh(D, 1).Add(x, big.NewInt(int64(r.IntN(5)-2)))
		case 3:
			x.Sub(Q, big.NewInt(int64(r.IntN(5)))).Sub(x, new(big.Int).Rsh(D, uint(r.IntN(3))))
		default:
			x = randBig(r, Q)
		}
		o[j] = x.Mod(x, Q)
	}
	return o
}

func dirty(r *vh.Rand, n int, m []uint64) *ring.Poly {
	p := ring.NewPoly(n, len(m))
	vh.Fill(r, p, m, "uniform")
	return p
}

func seq(x []*big.Int, m []uint64, level, nb int, round bool) []*big.Int {
	o := make([]*big.Int, len(x))
	for j := range x {
		v := new(big.Int).Set(x[j])
		for k := 0; k < nb; k++ {
			q := m[level-k]
			if round {
				v.Add(v, bu(q>>1)) // q odd: no ties
			}
			v.Div(v, bu(q))
		}
		o[j] = v
	}
	return o
}

func TestDivide(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 1500, Thorough: 5000, Rule: "chains of 1..6 primes of 20..61 bits, level, number of dropped moduli, integers at and around multiples and halves of the dropped products; non-trivial: at least one modulus dropped"}, func(c *vh.C) {
		n := 1 << c.Deg(4, 6, 14, "logN")
		nq := c.Count(1, 6, 16, "nQ")
		lo := 20
		if c.Chance(1, 4, "big") {
			lo = 61
		}
		m := c.Moduli(nq, uint64(4*n), lo, 61, "mod")
		typ := ring.Standard
		if c.Chance(1, 4, "ci") {
			typ = ring.ConjugateInvariant
		}
		rg := vh.Ring(n, m, typ)
		level := c.Uni(0, nq-1, "level")
		nb := c.Uni(0, level, "drop")
		r := c.Rng("values")
		x := genInts(r, n, m[:level+1])
		in := vh.FromBig(x, m)
		inN := vh.Clone(in)
		rg.NTTLvl(level, in, inN)
		c.NonTrivial(nb > 0)
		c.Class("dropped %d", nb)
		rem := level - nb
		for _, round := range []bool{false, true} {
			want := vh.FromBig(seq(x, m, level, nb, round), m)
			name := map[bool]string{false: "DivFloor", true: "DivRound"}[round]
			one, oneN := rg.DivFloorByLastModulusLvl, rg.DivFloorByLastModulusNTTLvl
			many, manyN := rg.DivFloorByLastModulusManyLvl, rg.DivFloorByLastModulusManyNTTLvl
			if round {
				one, oneN = rg.DivRoundByLastModulusLvl, rg.DivRoundByLastModulusNTTLvl
				many, manyN = rg.DivRoundByLastModulusManyLvl, rg.DivRoundByLastModulusManyNTTLvl
			}
			run := func(what string, ntt bool, f func(a, pool, b *ring.Poly)) {
				src := in
				if ntt {
					src = inN
				}
				for _, alias := range []string{"fresh", "short", "same"} {
					a, pool := vh.Clone(src), dirty(r, n, m)
					b := dirty(r, n, m)
					if alias == "short" {
						b = dirty(r, n, m[:rem+1])
					}
					if alias == "same" {
						b = a
					}
					f(a, pool, b)
					if alias != "same" && !vh.SameCoeffs(a, src, level) {
						c.Fatalf("%s%s changed its input", name, what)
					}
					if ntt {
						d := ring.NewPoly(n, rem+1)
						rg.InvNTTLvl(rem, b, d)
						b = d
					}
					if s := vh.Cong(b, want, m, rem); s != "" {
						c.Fatalf("%s%s (%s) level %d dropped %d: %s", name, what, alias, level, nb, s)
					}
					if !ntt {
						for i := 0; i <= rem; i++ {
							for _, v := range b.Coeffs[i] {
								if v >= m[i] {
									c.Fatalf("%s%s: limb %d not reduced", name, what, i)
								}
							}
						}
					}
				}
			}
			if nb == 1 {
				run("ByLastModulusLvl", false, func(a, pool, b *ring.Poly) { one(level, a, b) })
				run("ByLastModulusNTTLvl", true, func(a, pool, b *ring.Poly) { oneN(level, a, pool, b) })
			}
			run("ManyLvl", false, func(a, pool, b *ring.Poly) { many(level, nb, a, pool, b) })
			run("ManyNTTLvl", true, func(a, pool, b *ring.Poly) { manyN(level, nb, a, pool, b) })
		}
	})
}

func TestScale(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 1200, Thorough: 4000, Rule: "Q of 1..6 primes, t prime of 14..60 bits, integers around multiples and halves of Q/t and edges of [0,Q); non-trivial: several moduli"}, func(c *vh.C) {
		n := 1 << c.Deg(4, 6, 14, "logN")
		nq := c.Count(1, 6, 16, "nQ")
		m := c.Moduli(nq+1, uint64(2*n), 14, 60, "mod")
		tt := m[nq]
		m = m[:nq]
		Q := vh.Prod(m)
		rg, rt := vh.Ring(n, m, ring.Standard), vh.Ring(n, []uint64{tt}, ring.Standard)
		r := c.Rng("values")
		x := make([]*big.Int, n)
		for j := range x {
			v := new(big.Int)
			switch r.IntN(4) {
			case 0: // k*Q/t (+1/2) +- 2
				v.Mul(Q, new(big.Int).Add(new(big.Int).Lsh(bu(vh.Edge(r, tt)), 1), big.NewInt(int64(r.IntN(2)))))
				v.Div(v, new(big.Int).Lsh(bu(tt), 1)).Add(v, big.NewInt(int64(r.IntN(5)-2)))
			case 1:
				v.Sub(Q, big.NewInt(int64(r.IntN(4))))
			case 2:
				v.SetInt64(int64(r.IntN(4)))
			default:
				v = randBig(r, Q)
			}
			x[j] = v.Mod(v, Q)
		}
		in := vh.FromBig(x, m)
		in0 := vh.Clone(in)
		c.NonTrivial(nq > 1)
		scalers := map[string]ring.Scaler{"rns": ring.NewRNSScaler(rg, rt), "simple": ring.NewSimpleScaler(tt, rg)}
		for _, name := range []string{"rns", "simple"} {
			out := dirty(r, n, []uint64{tt})
			for rep := 0; rep < 2; rep++ {
				scalers[name].DivByQOverTRounded(in, out)
			}
			if !vh.Same(in, in0) {
				c.Fatalf("%s changed its input", name)
			}
			for j := range x {
				num := new(big.Int).Mul(x[j], bu(tt))
				num.Lsh(num, 1).Add(num, Q)
				w, rem := new(big.Int).DivMod(num, new(big.Int).Lsh(Q, 1), new(big.Int))
				want := new(big.Int).Mod(w, bu(tt)).Uint64()
				got := out.Coeffs[0][j]
				if got == want {
					continue
				}
				// the RNS scaler may round to the other side within floating-point distance of a half
				f, _ := new(big.Float).Quo(new(big.Float).SetInt(rem), new(big.Float).SetInt(new(big.Int).Lsh(Q, 1))).Float64()
				eps := float64((nq+2)*(nq+2)) * math.Ldexp(1, -52)
				if name == "rns" && rem.Sign() != 0 && got < tt && ((f < eps && vh.AddMod(got, 1, tt) == want) || (1-f < eps && got == vh.AddMod(want, 1, tt))) {
					c.Class("other side of a half")
					continue
				}
				c.Fatalf("%s scaler: x=%v Q=%v t=%d: got %d want %d", name, x[j], Q, tt, got, want)
			}
		}
	})
}
