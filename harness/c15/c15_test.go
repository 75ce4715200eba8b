package c15

import (
	"math"
	"math/big"
	"testing"

	"fast-ksw/ckks"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"vharness/vh"
)

func fill(c *vh.C, g *vh.Prog) {
	for n := 0; n < 2 || len(g.Pool) < 4; n++ {
		if len(g.Pool) < 4 {
			g.Pool = append(g.Pool, g.Fresh(n == 1))
		} else if c.Chance(1, 12, "refresh") {
			g.Pool[c.Uni(0, len(g.Pool)-1, "refreshed")] = g.Fresh(c.Chance(1, 4, "pt"))
		}
	}
}

// the library decrypts and decodes to the same values
func decrypts(c *vh.C, g *vh.Prog) {
	for _, e := range g.Pool {
		if e.Ct == nil || e.Lazy > 1 {
			continue
		}
		want := g.Val(e)
		pt := ckks.NewDecryptor(g.P.Parameters, g.Sk[e.Key]).DecryptNew(e.Ct)
		if pt.Scale != e.Ct.Scale || pt.Level() != e.Ct.Level() {
			c.Fatalf("decryption of level %d scale %g gives level %d scale %g", e.Ct.Level(), e.Ct.Scale, pt.Level(), pt.Scale)
		}
		if e.Ct.Level() > 0 && pt.Scale*vh.MaxC(want)*float64(g.M) > math.Exp2(900) {
			continue
		}
		got := g.Ecd.Decode(pt, g.P.MaxLogSlots())
		tol := 1e-10*vh.MaxC(want) + 1e-9*g.Exp()/e.Ct.Scale
		for i := range want {
			if d := got[i] - want[i]; !(math.Hypot(real(d), imag(d)) <= tol) {
				c.Fatalf("slot %d is decrypted and decoded to %v, it holds %v (tolerance %g)", i, got[i], want[i], tol)
			}
		}
	}
}

func program(ops []string, setup func(c *vh.C, g *vh.Prog)) func(c *vh.C) {
	return func(c *vh.C) {
		g := c.NewProg(c.ProgParams("params"), "keys")
		if setup != nil {
			setup(c, g)
		}
		for i, n := 0, c.Uni(10, 40, "steps"); i < n; i++ {
			fill(c, g)
			if s := g.MakeStep(c.Pick("op", ops...)); s != nil {
				g.Run(s)
			}
		}
		decrypts(c, g)
	}
}

const rule = "at least four operations of the program have a result known to better than 1%"

// Random programs: every operation computes what it says on the values its operands decrypt to.
func TestProgram(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 700, Thorough: 5000, Rule: rule}, program(vh.StepOps, nil))
}

// Products and ciphertexts of degree two.
func TestTensor(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 700, Thorough: 5000, Rule: rule}, program([]string{"Mul", "Mul", "MulRelin", "MulAndAdd", "MulAndAdd", "MulRelinAndAdd",
		"Relinearize", "Relinearize", "Add", "Sub", "Sub", "Neg", "MultByi", "DivByi", "AddConst", "MultByConst", "MultByConstAndAdd", "MultByGaussianInteger",
		"MultByGaussianIntegerAndAdd", "MulByPow2", "Reduce", "AddNoMod", "SubNoMod", "Rescale", "DropLevel"}, nil))
}

// Constants.
func TestConstants(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 700, Thorough: 5000, Rule: rule}, program([]string{"AddConst", "MultByConst", "MultByConstAndAdd", "MultByGaussianInteger",
		"MultByGaussianIntegerAndAdd", "MultByi", "DivByi", "MulByPow2", "Neg", "ScaleUp", "Rescale", "DropLevel", "Mul"}, nil))
}

// Key switching.
func TestSwitch(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 700, Thorough: 5000, Rule: rule}, program([]string{"Rotate", "Rotate", "Conjugate", "SwitchKeys", "MulRelin", "MulRelinAndAdd",
		"Relinearize", "Mul", "Rescale", "DropLevel", "Add", "Sub"}, nil))
}

// Additions of operands of all scales, levels and degrees.
func TestAdditions(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 700, Thorough: 5000, Rule: rule}, program([]string{"Add", "Add", "Sub", "Sub", "AddNoMod", "SubNoMod", "Reduce", "ScaleUp", "SetScale",
		"Mul", "DropLevel", "MulByPow2"}, nil))
}

type hoister interface {
	PermuteNTTHoisted(level int, c0, c1 *ring.Poly, c2DecompQP []rlwe.PolyQP, k int, cOut0, cOut1 *ring.Poly)
	PermuteNTTHoistedNoModDown(level int, c0 *ring.Poly, c2DecompQP []rlwe.PolyQP, k int, ct0OutQ, ct1OutQ, ct0OutP, ct1OutP *ring.Poly)
	RotateHoistedNoModDownNew(level int, rotations []int, c0 *ring.Poly, c2DecompQP []rlwe.PolyQP) map[int][2]rlwe.PolyQP
}

// Hoisted rotations.
func TestHoisted(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 700, Thorough: 5000, Rule: "a rotation by a non-zero amount with a noise bound below a quarter of the modulus"}, func(c *vh.C) {
		g := c.NewProg(c.ProgParams("params"), "keys")
		p := g.P
		ev := g.Eval.(hoister)
		rq, rp := p.RingQ(), p.RingP()
		for n := c.Uni(1, 3, "cts"); n > 0; n-- {
			var e *vh.Ent
			for e = g.Fresh(false); e.Key != 0; e = g.Fresh(false) {
			}
			lvl := e.Ct.Level()
			if c.Bool("below") {
				lvl = c.Uni(0, lvl, "lvl")
			}
			val := func() []complex128 {
				var v []*ring.Poly
				for _, x := range e.Ct.Value {
					v = append(v, &ring.Poly{Coeffs: x.Coeffs[:lvl+1], IsNTT: true})
				}
				return g.Dec(v, lvl, e.Ct.Scale, 0)
			}
			v := val()
			if vh.MaxC(v)*e.Ct.Scale*8 > g.Q(lvl) {
				continue
			}
			before := [2]*ring.Poly{vh.Clone(e.Ct.Value[0]), vh.Clone(e.Ct.Value[1])}
			dec := g.Eval.GetKeySwitcher().PoolDecompQP
			g.Eval.GetKeySwitcher().DecomposeNTT(lvl, p.PCount()-1, p.PCount(), e.Ct.Value[1], dec)
			noise := g.KS(lvl, 0)
			check := func(what string, k int, got []complex128, extra float64) {
				tol := g.Exp()*(noise+extra)/e.Ct.Scale + 1e-12*vh.MaxC(v)
				for i := range got {
					w := v[((i+k)%g.M+g.M)%g.M]
					if d := got[i] - w; !(math.Hypot(real(d), imag(d)) <= tol) {
						c.Fatalf("%s by %d at level %d: slot %d decrypts to %v, expected %v (tolerance %g)", what, k, lvl, i, got[i], w, tol)
					}
				}
				c.NonTrivial(k != 0 && noise*4 < g.Q(lvl))
			}
			for m := c.Uni(1, 4, "rotations"); m > 0; m-- {
				k := g.Rots[c.Uni(0, len(g.Rots)-1, "k")]
				if c.Chance(1, 8, "k0") {
					k = 0
				}
				if noise*8+vh.MaxC(v)*e.Ct.Scale*8 > g.Q(lvl) {
					continue
				}
				fresh := func(r *ring.Ring, l int) *ring.Poly {
					if c.Bool("tall") {
						l = len(r.Modulus) - 1
					}
					x := r.NewPolyLvl(l)
					vh.Fill(g.R, x, r.Modulus[:l+1], "uniform")
					x.IsNTT = true
					return x
				}
				what := c.Pick("which", "PermuteNTTHoisted", "PermuteNTTHoistedNoModDown", "RotateHoistedNoModDownNew")
				if k == 0 && what != "PermuteNTTHoisted" {
					continue
				}
				c.Note("%s by %d at level %d of %d", what, k, lvl, e.Ct.Level())
				if what == "PermuteNTTHoisted" {
					o0, o1 := fresh(rq, lvl), fresh(rq, lvl)
					ev.PermuteNTTHoisted(lvl, e.Ct.Value[0], e.Ct.Value[1], dec, k, o0, o1)
					o0.Coeffs, o1.Coeffs = o0.Coeffs[:lvl+1], o1.Coeffs[:lvl+1]
					check(what, k, g.Dec([]*ring.Poly{o0, o1}, lvl, e.Ct.Scale, 0), 0)
					continue
				}
				var o [2]rlwe.PolyQP
				if what == "PermuteNTTHoistedNoModDown" {
					l := p.PCount() - 1
					o = [2]rlwe.PolyQP{{Q: fresh(rq, lvl), P: fresh(rp, l)}, {Q: fresh(rq, lvl), P: fresh(rp, l)}}
					ev.PermuteNTTHoistedNoModDown(lvl, e.Ct.Value[0], dec, k, o[0].Q, o[1].Q, o[0].P, o[1].P)
				} else {
					res := ev.RotateHoistedNoModDownNew(lvl, []int{0, k}, e.Ct.Value[0], dec)
					if len(res) != 1 {
						c.Fatalf("%s by 0 and %d gives %d results", what, k, len(res))
					}
					o = res[k]
				}
				rows := vh.PhaseRows(rq, []*ring.Poly{o[0].Q, o[1].Q}, true, g.S[0], lvl)
				rows = append(rows, vh.PhaseRows(rp, []*ring.Poly{o[0].P, o[1].P}, true, g.S[0], p.PCount()-1)...)
				x := vh.NewCRT(append(append([]uint64{}, p.Q()[:lvl+1]...), p.P()...)).Centered(rows)
				bigP := new(big.Float).SetInt(vh.Prod(p.P()))
				a := make([]float64, len(x))
				for i := range x {
					f := new(big.Float).SetInt(x[i])
					a[i], _ = f.Quo(f, bigP).Float64()
					a[i] /= e.Ct.Scale
				}
				check(what, k, vh.EvalSlots(a, p.M, g.M, p.CI), 0)
			}
			for i := range before {
				if !vh.Same(before[i], e.Ct.Value[i]) {
					c.Fatalf("hoisted rotations change polynomial %d of the input", i)
				}
			}
		}
	})
}
