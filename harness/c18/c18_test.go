package c18

import (
	"fmt"
	"math"
	"math/big"
	"testing"

	"fast-ksw/ckks"
	"fast-ksw/fckks"
	"fast-ksw/frlwe"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"vharness/vh"
)

type any = interface{}

// ---- evaluators ----

func keep(g *vh.Prog, max int, fresh func() *vh.Ent) {
	c := g.C
	for len(g.Pool) < 4 {
		g.Pool = append(g.Pool, fresh())
	}
	if len(g.Pool) < max && c.Chance(1, 12, "refresh") {
		g.Pool = append(g.Pool, fresh())
	}
}

func evaluator(ops []string) func(c *vh.C) {
	return func(c *vh.C) {
		g := c.NewProg(c.ProgParams("params"), "keys")
		g.Pure = true
		g.Twin = func() func() {
			old := g.Eval
			g.Eval = ckks.NewEvaluator(g.P.Parameters, rlwe.EvaluationKey{Rlk: g.Rlk, Rtks: g.Rtk})
			return func() { g.Eval = old }
		}
		keys := []any{g.Rlk, g.Rtk, g.Swk, g.Sk}
		before := vh.Digest(keys...)
		for i, n := 0, c.Uni(5, 30, "steps"); i < n; i++ {
			keep(g, 10, func() *vh.Ent { return g.Fresh(c.Chance(1, 4, "pt")) })
			if s := g.MakeStep(c.Pick("op", ops...)); s != nil {
				g.Run(s)
			}
			if c.Chance(1, 6, "scribble") {
				g.Scribble()
			}
		}
		if vh.Digest(keys...) != before {
			c.Fatalf("the keys of the evaluator change")
		}
		c.NonTrivial(g.Ops >= 4)
	}
}

const programs = "at least four operations, each also performed by a new evaluator in a new output and compared bit for bit, have a result known to better than 1%"

func TestEvaluator(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 500, Thorough: 3500, Rule: programs}, evaluator(vh.StepOps))
}

// Operations that use the internal buffers, in long programs.
func TestBuffers(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 400, Thorough: 3500, Rule: programs}, evaluator([]string{"Mul", "MulRelin", "MulRelin", "MulAndAdd", "MulRelinAndAdd", "Relinearize", "Relinearize", "Rotate", "Rotate", "Conjugate", "SwitchKeys", "Rescale",
		"Add", "Sub", "MultByConstAndAdd", "AddConst", "MultByi", "DropLevel"}))
}

func TestFastEvaluator(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 400, Thorough: 3000, Rule: programs}, func(c *vh.C) {
		g := c.FSession(c.Uni(1, 3, "rots"))
		g.Twin = func() func() {
			f, e := g.FEval, g.Eval
			g.FEval = fckks.NewEvaluator(g.FP)
			g.Eval = g.FEval.Evaluator
			return func() { g.FEval, g.Eval = f, e }
		}
		keys := []any{g.FRlk, g.FRtk, g.FPk, g.Sk}
		before := vh.Digest(keys...)
		for i, n := 0, c.Uni(5, 25, "steps"); i < n; i++ {
			keep(g.Prog, 10, func() *vh.Ent {
				x := g.Fresh(c.Chance(1, 5, "pt"))
				if x.Ct != nil && c.Chance(1, 5, "s2") { // under s^2
					x = &vh.Ent{Ct: g.Enc[1].EncryptNew(g.Ecd.EncodeNew(g.Vec(), x.Ct.Level(), g.P.DefaultScale()/16, g.P.MaxLogSlots())), Key: len(g.S) - 1, Lazy: 1}
				}
				return x
			})
			switch op := c.Pick("op", "EncryptMsg", "Add", "Sub", "MulRelin", "MulRelin", "MulRelin", "Rotate", "Rotate", "Rotate", "SwitchKeys", "SwitchKeys", "Rescale", "DropLevel", "Decrypt", "MultByConst", "Neg", "Mul"); op {
			case "Decrypt":
				g.Decrypt()
				if x := g.Find("again", func(x *vh.Ent) bool { return x.Ct != nil && x.Lazy == 1 }); x != nil {
					a := g.FDec.DecryptToMsgNew(x.Ct)
					b := fckks.NewDecryptor(g.FP, g.Sk[0]).DecryptToMsgNew(x.Ct)
					if vh.Digest(a) != vh.Digest(b) {
						c.Fatalf("a used decryptor gives another message than a new one")
					}
				}
			default:
				if s := g.Step(op); s != nil {
					g.Run(s)
				}
			}
			if c.Chance(1, 6, "scribble") {
				g.Scribble()
			}
		}
		if vh.Digest(keys...) != before {
			c.Fatalf("the keys change")
		}
		c.NonTrivial(g.Ops >= 4)
	})
}

type hoister interface {
	PermuteNTTHoisted(level int, c0, c1 *ring.Poly, c2DecompQP []rlwe.PolyQP, k int, cOut0, cOut1 *ring.Poly)
	PermuteNTTHoistedNoModDown(level int, c0 *ring.Poly, c2DecompQP []rlwe.PolyQP, k int, ct0OutQ, ct1OutQ, ct0OutP, ct1OutP *ring.Poly)
	RotateHoistedNoModDownNew(level int, rotations []int, c0 *ring.Poly, c2DecompQP []rlwe.PolyQP) map[int][2]rlwe.PolyQP
}

func TestHoisted(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 300, Thorough: 4000, Rule: "at least four rotations with one evaluator"}, func(c *vh.C) {
		g := c.NewProg(c.ProgParams("params"), "keys")
		p, r := g.P, c.Rng("data")
		rq, rp := p.RingQ(), p.RingP()
		lp := p.PCount() - 1
		h := &vh.History{C: c, R: r}
		var rots []int
		seen := map[int]bool{}
		for _, k := range g.Rots {
			if !seen[k] {
				rots = append(rots, k)
			}
			seen[k] = true
		}
		ops := c.Uni(2, 10, "ops")
		c.NonTrivial(ops >= 4)
		var c0, c1 *ring.Poly
		var dec []rlwe.PolyQP
		lvl := 0
		for i := 0; i < ops; i++ {
			if c0 == nil || c.Chance(1, 3, "next") {
				lvl = g.Level()
				c0, c1 = rq.NewPolyLvl(lvl), rq.NewPolyLvl(lvl)
				for _, x := range []*ring.Poly{c0, c1} {
					vh.Fill(r, x, p.Q(), "uniform")
					x.IsNTT = true
				}
				if dec == nil || c.Bool("newdec") {
					dec = nil
					for j := 0; j < (p.QCount()+lp)/(lp+1); j++ {
						dec = append(dec, p.RingQP().NewPoly())
					}
				}
				g.Eval.GetKeySwitcher().DecomposeNTT(lvl, lp, lp+1, c1, dec)
			}
			d := c.Bool("dirty")
			k := rots[c.Uni(0, len(rots)-1, "k")]
			alias := c.Uni(0, 3, "alias")
			out := func(fresh bool, R *ring.Ring, m []uint64, l int) *ring.Poly {
				x := dirty(c, r, fresh, R.NewPolyLvl(l), m, d)
				x.IsNTT = true
				return x
			}
			op := vh.Op{Name: c.Pick("op", "PermuteNTTHoisted", "PermuteNTTHoisted", "PermuteNTTHoistedNoModDown", "RotateHoistedNoModDownNew"), Same: true, In: []any{c0, c1, dec, g.Rtk, rots}}
			op.Run = func(fresh bool) []any {
				ev := g.Eval.(hoister)
				if fresh {
					ev = ckks.NewEvaluator(p.Parameters, rlwe.EvaluationKey{Rlk: g.Rlk, Rtks: g.Rtk}).(hoister)
				}
				x, y := out(fresh, rq, p.Q(), lvl), out(fresh, rq, p.Q(), lvl)
				if op.Name == "PermuteNTTHoisted" {
					a, b := c0, c1
					if !fresh && alias == 0 { // in place
						x, y = vh.Clone(c0), vh.Clone(c1)
						a, b = x, y
					}
					ev.PermuteNTTHoisted(lvl, a, b, dec, k, x, y)
					return []any{x, y}
				}
				if op.Name == "RotateHoistedNoModDownNew" {
					var o []any
					m := ev.RotateHoistedNoModDownNew(lvl, rots, c0, dec)
					for _, k := range rots {
						if k != 0 {
							o = append(o, m[k])
						}
					}
					return o
				}
				if k == 0 {
					return nil
				}
				u, v := out(fresh, rp, p.P(), lp), out(fresh, rp, p.P(), lp)
				ev.PermuteNTTHoistedNoModDown(lvl, c0, dec, k, x, y, u, v)
				return []any{x, y, u, v}
			}
			h.Do(op)
		}
	})
}

// ---- encoders ----

func params(c *vh.C) vh.CK {
	o := vh.RO{LogNLo: 4, LogNHi: 7, QLo: 1, QHi: 5, PLo: 0, PHi: 3, BitsLo: 30, BitsHi: 61, CI: true}
	return c.CKKS(o, math.Exp2(float64(c.Uni(20, 35, "defscale"))), "params")
}

func dirty(c *vh.C, r *vh.Rand, fresh bool, x *ring.Poly, m []uint64, d bool) *ring.Poly {
	if d && !fresh {
		vh.Fill(r, x, m, "uniform")
	}
	return x
}

// the limbs that are used
func view(x *ring.Poly, level int) *ring.Poly {
	o := *x
	o.Coeffs = x.Coeffs[:level+1]
	return &o
}

func TestEncoder(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 900, Thorough: 9000, Rule: "at least six operations with one encoder"}, func(c *vh.C) {
		p := params(c)
		r := c.Rng("values")
		used := ckks.NewEncoder(p.Parameters)
		h := &vh.History{C: c, R: r}
		ops := c.Uni(3, 20, "ops")
		c.NonTrivial(ops >= 6)
		var pts []*ckks.Plaintext
		for i := 0; i < ops; i++ {
			level, logSlots := c.Uni(0, p.MaxLevel(), "level"), c.Uni(0, p.MaxLogSlots(), "logSlots")
			scale := math.Exp2(float64(c.Uni(0, 100, "scale")) + r.Float64())
			n := 1 << uint(logSlots)
			if c.Bool("short") {
				n = c.Uni(0, n, "n")
			}
			v := make([]complex128, n)
			f := make([]float64, n)
			mag := math.Exp2(float64(c.Uni(-3, 3, "mag")))
			for j := range v {
				f[j] = r.Float(mag)
				v[j] = complex(f[j], r.Float(mag))
			}
			d := c.Bool("dirty")
			outPt := func(fresh bool) *ckks.Plaintext {
				pt := ckks.NewPlaintext(p.Parameters, level, scale)
				dirty(c, r, fresh, pt.Value, p.Q(), d)
				return pt
			}
			ecd := func(fresh bool) ckks.Encoder {
				if fresh {
					return ckks.NewEncoder(p.Parameters)
				}
				return used
			}
			o := vh.Op{Name: c.Pick("op", "Encode", "EncodeNew", "EncodeSlots", "EncodeSlotsNew", "EncodeFloat", "EncodeCoeffs", "EncodeCoeffsNew", "Embed", "EmbedQP", "Decode", "DecodeSlots", "DecodePublic", "DecodeSlotsPublic", "DecodeCoeffs", "DecodeCoeffsPublic",
				"Reuse", "GetErrSTDCoeffDomain", "GetErrSTDSlotDomain"), Same: true}
			switch o.Name {
			case "Encode", "EncodeSlots", "EncodeFloat":
				var in any = v
				if o.Name == "EncodeFloat" {
					in = f
				}
				o.In = []any{in}
				o.Run = func(fresh bool) []any {
					pt := outPt(fresh)
					if o.Name == "EncodeSlots" {
						ecd(fresh).EncodeSlots(in, pt, logSlots)
					} else {
						ecd(fresh).Encode(in, pt, logSlots)
					}
					return []any{pt}
				}
			case "EncodeNew":
				o.In = []any{v}
				o.Run = func(fresh bool) []any { return []any{ecd(fresh).EncodeNew(v, level, scale, logSlots)} }
			case "EncodeSlotsNew":
				o.In = []any{f}
				o.Run = func(fresh bool) []any { return []any{ecd(fresh).EncodeSlotsNew(f, level, scale, logSlots)} }
			case "EncodeCoeffs":
				o.In = []any{f}
				o.Run = func(fresh bool) []any {
					pt := outPt(fresh)
					ecd(fresh).EncodeCoeffs(f, pt)
					return []any{pt}
				}
			case "EncodeCoeffsNew":
				o.In = []any{f}
				o.Run = func(fresh bool) []any { return []any{ecd(fresh).EncodeCoeffsNew(f, level, scale)} }
			case "Embed":
				mont := c.Bool("mont")
				o.In = []any{v}
				o.Run = func(fresh bool) []any {
					x := dirty(c, r, fresh, p.RingQ().NewPolyLvl(level), p.Q(), d)
					ecd(fresh).Embed(v, logSlots, scale, mont, x)
					return []any{x}
				}
			case "EmbedQP":
				if p.PCount() == 0 {
					continue
				}
				mont, lp := c.Bool("mont"), c.Uni(0, p.PCount()-1, "lp")
				o.In = []any{v}
				o.Run = func(fresh bool) []any {
					x := p.RingQP().NewPolyLvl(level, lp)
					dirty(c, r, fresh, x.Q, p.Q(), d)
					dirty(c, r, fresh, x.P, p.P(), d)
					ecd(fresh).Embed(v, logSlots, scale, mont, x)
					return []any{x}
				}
			case "Reuse": // into a plaintext used before
				if len(pts) == 0 {
					continue
				}
				pt := pts[c.Uni(0, len(pts)-1, "reused")]
				h.Drop(pt)
				pt.Scale = scale
				coeffs := c.Bool("coeffs")
				o.In = []any{v, f}
				level = pt.Level()
				o.Run = func(fresh bool) []any {
					x := pt
					if fresh {
						x = outPt(true)
					}
					if coeffs {
						ecd(fresh).EncodeCoeffs(f, x)
					} else {
						ecd(fresh).Encode(v, x, logSlots)
					}
					return []any{x}
				}
			case "GetErrSTDCoeffDomain", "GetErrSTDSlotDomain":
				if n == 0 {
					continue
				}
				if o.Name == "GetErrSTDCoeffDomain" && n&(n-1) != 0 {
					n = 1 << uint(logSlots)
					for len(v) < n {
						v = append(v, 0)
					}
				}
				w := make([]complex128, n)
				for j := range w {
					w[j] = v[j] + complex(r.Float(1e-3), r.Float(1e-3))
				}
				o.In = []any{v, w}
				o.Run = func(fresh bool) []any {
					x := 0.0
					if o.Name == "GetErrSTDSlotDomain" {
						x = ecd(fresh).GetErrSTDSlotDomain(v, w, scale)
					} else {
						x = ecd(fresh).GetErrSTDCoeffDomain(v, w, scale)
					}
					return []any{&x}
				}
			default: // decodings
				pt := outPt(false)
				if len(pts) > 0 && c.Chance(2, 3, "known") {
					pt = pts[c.Uni(0, len(pts)-1, "decoded")]
				} else {
					pt.Value.IsNTT = c.Bool("ntt")
					vh.Fill(r, pt.Value, p.Q(), c.Pick("fill", "uniform", "small", "edge"))
				}
				sigma := 0.0
				if c.Chance(1, 4, "sigma") {
					sigma, o.Same = 3.2, false
				}
				o.In = []any{pt}
				o.Run = func(fresh bool) []any {
					e := ecd(fresh)
					switch o.Name {
					case "Decode":
						return []any{e.Decode(pt, logSlots)}
					case "DecodeSlots":
						return []any{e.DecodeSlots(pt, logSlots)}
					case "DecodePublic":
						return []any{e.DecodePublic(pt, logSlots, sigma)}
					case "DecodeSlotsPublic":
						return []any{e.DecodeSlotsPublic(pt, logSlots, sigma)}
					case "DecodeCoeffs":
						return []any{e.DecodeCoeffs(pt)}
					}
					return []any{e.DecodeCoeffsPublic(pt, sigma)}
				}
				if o.Name == "Decode" || o.Name == "DecodeSlots" || o.Name == "DecodeCoeffs" {
					o.Same = true
				}
			}
			for _, x := range h.Do(o) {
				if pt, ok := x.(*ckks.Plaintext); ok {
					pts = append(pts, pt)
				}
			}
		}
	})
}

func bigVec(r *vh.Rand, n int, prec uint) (v []*ring.Complex) {
	for i := 0; i < n; i++ {
		f := func() *big.Float {
			x := new(big.Float).SetPrec(prec).SetFloat64(r.Float(4))
			return x.Add(x, new(big.Float).SetPrec(prec).SetMantExp(big.NewFloat(r.Float(1)), -int(prec)/2))
		}
		v = append(v, ring.NewComplex(f(), f()))
	}
	return
}

func TestBigEncoder(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 250, Thorough: 2500, Rule: "at least four operations with one encoder"}, func(c *vh.C) {
		o := vh.RO{LogNLo: 4, LogNHi: 5, QLo: 1, QHi: 5, PLo: 1, PHi: 1, BitsLo: 30, BitsHi: 61}
		p := c.CKKS(o, 1<<30, "params")
		r := c.Rng("values")
		prec := c.PickInt("prec", 53, 64, 100, 128, 200)
		used := ckks.NewEncoderBigComplex(p.Parameters, prec)
		h := &vh.History{C: c, R: r}
		ops := c.Uni(2, 10, "ops")
		c.NonTrivial(ops >= 4)
		var pts []*ckks.Plaintext
		for i := 0; i < ops; i++ {
			level, logSlots := c.Uni(0, p.MaxLevel(), "level"), c.Uni(0, p.MaxLogSlots(), "logSlots")
			scale := math.Exp2(float64(c.Uni(0, 120, "scale")) + r.Float64())
			v := bigVec(r, 1<<uint(logSlots), uint(prec))
			d := c.Bool("dirty")
			ecd := func(fresh bool) ckks.EncoderBigComplex {
				if fresh {
					return ckks.NewEncoderBigComplex(p.Parameters, prec)
				}
				return used
			}
			outPt := func(fresh bool) *ckks.Plaintext {
				pt := ckks.NewPlaintext(p.Parameters, level, scale)
				dirty(c, r, fresh, pt.Value, p.Q(), d)
				return pt
			}
			o := vh.Op{Name: c.Pick("op", "Encode", "Encode", "EncodeNew", "Decode", "Decode", "DecodePublic", "FFT", "InvFFT"), Same: true, In: []any{v}}
			switch o.Name {
			case "Encode":
				o.Run = func(fresh bool) []any {
					pt := outPt(fresh)
					ecd(fresh).Encode(v, pt, logSlots)
					return []any{pt}
				}
			case "EncodeNew":
				o.Run = func(fresh bool) []any { return []any{ecd(fresh).EncodeNew(v, level, scale, logSlots)} }
			case "FFT", "InvFFT": // in place
				v = bigVec(r, 1<<uint(logSlots), uint(prec))
				o.In = []any{v}
				o.Run = func(fresh bool) []any {
					var w []*ring.Complex
					for _, x := range v {
						w = append(w, ring.NewComplex(new(big.Float).Copy(x[0]), new(big.Float).Copy(x[1])))
					}
					if o.Name == "FFT" {
						ecd(fresh).FFT(w, len(w))
					} else {
						ecd(fresh).InvFFT(w, len(w))
					}
					return []any{w}
				}
			default:
				pt := outPt(false)
				if len(pts) > 0 && c.Chance(2, 3, "known") {
					pt = pts[c.Uni(0, len(pts)-1, "decoded")]
				} else {
					pt.Value.IsNTT = c.Bool("ntt")
					vh.Fill(r, pt.Value, p.Q(), "uniform")
				}
				sigma := 0.0
				if o.Name == "DecodePublic" && c.Bool("sigma") {
					sigma, o.Same = 3.2, false
				}
				o.In = []any{pt}
				o.Run = func(fresh bool) []any {
					if o.Name == "Decode" {
						return []any{ecd(fresh).Decode(pt, logSlots)}
					}
					return []any{ecd(fresh).DecodePublic(pt, logSlots, sigma)}
				}
			}
			for _, x := range h.Do(o) {
				if pt, ok := x.(*ckks.Plaintext); ok {
					pts = append(pts, pt)
				}
			}
		}
	})
}

// ---- key switchers ----

func TestKeySwitcher(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 500, Thorough: 6000, Rule: "at least four operations with one key switcher"}, func(c *vh.C) {
		o := vh.RO{LogNLo: 4, LogNHi: 6, QLo: 1, QHi: 7, PLo: 1, PHi: 4, BitsLo: 30, BitsHi: 61, CI: true}
		p := c.RLWE(o, "p")
		r := c.Rng("data")
		kg := rlwe.NewKeyGenerator(p.Parameters)
		var keys []*rlwe.SwitchingKey
		for i := 0; i < 2; i++ {
			out := kg.GenSecretKey()
			if i > 0 {
				out.Value.Q.Coeffs = out.Value.Q.Coeffs[:c.Uni(1, p.QCount(), "kq")]
				out.Value.P.Coeffs = out.Value.P.Coeffs[:c.Uni(1, p.PCount(), "kp")]
			}
			keys = append(keys, kg.GenSwitchingKey(kg.GenSecretKey(), out))
		}
		used := rlwe.NewKeySwitcher(p.Parameters)
		h := &vh.History{C: c, R: r}
		ops := c.Uni(2, 14, "ops")
		c.NonTrivial(ops >= 4)
		for i := 0; i < ops; i++ {
			key := keys[c.Uni(0, 1, "key")]
			lp := len(key.Value[0][0].P.Coeffs) - 1
			lvl := c.Uni(0, len(key.Value[0][0].Q.Coeffs)-1, "level")
			tall := func(label string) int {
				if c.Bool(label) {
					return p.MaxLevel()
				}
				return lvl
			}
			tin, tout := tall("tin"), tall("tout")
			a := p.RingQ().NewPolyLvl(tin)
			vh.Fill(r, a, p.Q(), c.Pick("fill", "uniform", "uniform", "edge", "zero"))
			a.IsNTT = c.Bool("ntt")
			d := c.Bool("dirty")
			ks := func(fresh bool) *rlwe.KeySwitcher {
				if fresh {
					return rlwe.NewKeySwitcher(p.Parameters)
				}
				return used
			}
			outs := func(fresh bool) (q0, q1, p0, p1 *ring.Poly) {
				return dirty(c, r, fresh, p.RingQ().NewPolyLvl(tout), p.Q(), d), dirty(c, r, fresh, p.RingQ().NewPolyLvl(tout), p.Q(), d),
					dirty(c, r, fresh, p.RingP().NewPoly(), p.P(), d), dirty(c, r, fresh, p.RingP().NewPoly(), p.P(), d)
			}
			pool := func(fresh bool) (o []rlwe.PolyQP) {
				for i := 0; i < (lvl+1+lp)/(lp+1); i++ {
					x := p.RingQP().NewPoly()
					dirty(c, r, fresh, x.Q, p.Q(), d)
					dirty(c, r, fresh, x.P, p.P(), d)
					o = append(o, x)
				}
				return
			}
			views := func(x []rlwe.PolyQP) (o []any) {
				for _, y := range x {
					o = append(o, view(y.Q, lvl), view(y.P, lp))
				}
				return
			}
			op := vh.Op{Name: c.Pick("op", "SwitchKeysInPlace", "SwitchKeysInPlace", "SwitchKeysInPlaceNoModDown", "DecomposeNTT", "KeyswitchHoisted", "KeyswitchHoistedNoModDown", "DecomposeSingleNTT"), Same: true, In: []any{a, keys[0], keys[1]}}
			switch op.Name {
			case "SwitchKeysInPlace":
				op.Run = func(fresh bool) []any {
					x, y, _, _ := outs(fresh)
					ks(fresh).SwitchKeysInPlace(lvl, a, key, x, y)
					return []any{view(x, lvl), view(y, lvl)}
				}
			case "SwitchKeysInPlaceNoModDown":
				op.Run = func(fresh bool) []any {
					x, y, u, v := outs(fresh)
					ks(fresh).SwitchKeysInPlaceNoModDown(lvl, a, key, x, u, y, v)
					return []any{view(x, lvl), view(y, lvl), view(u, lp), view(v, lp)}
				}
			case "DecomposeNTT":
				op.Run = func(fresh bool) []any {
					w := pool(fresh)
					ks(fresh).DecomposeNTT(lvl, lp, lp+1, a, w)
					return views(w)
				}
			case "DecomposeSingleNTT":
				b := p.RingQ().NewPolyLvl(tin)
				if a.IsNTT {
					p.RingQ().InvNTTLvl(tin, a, b)
				} else {
					p.RingQ().NTTLvl(tin, a, b)
					a, b = b, a
				}
				i := c.Uni(0, (lvl+1+lp)/(lp+1)-1, "digit")
				op.In = append(op.In, a, b)
				op.Run = func(fresh bool) []any {
					w := pool(fresh)
					ks(fresh).DecomposeSingleNTT(lvl, lp, lp+1, i, a, b, w[i].Q, w[i].P)
					return views(w[i : i+1])
				}
			default: // hoisted
				w := pool(false)
				if c.Bool("own") && lp+1 == p.PCount() {
					w = used.PoolDecompQP
				}
				used.DecomposeNTT(lvl, lp, lp+1, a, w)
				w = w[:(lvl+1+lp)/(lp+1)]
				op.In = append(op.In, w)
				op.Run = func(fresh bool) []any {
					x, y, u, v := outs(fresh)
					if op.Name == "KeyswitchHoisted" {
						ks(fresh).KeyswitchHoisted(lvl, w, key, x, y, u, v)
						return []any{view(x, lvl), view(y, lvl)}
					}
					ks(fresh).KeyswitchHoistedNoModDown(lvl, w, key, x, y, u, v)
					return []any{view(x, lvl), view(y, lvl), view(u, lp), view(v, lp)}
				}
			}
			h.Do(op)
		}
	})
}

func fparams(c *vh.C) frlwe.Parameters {
	logN := c.Deg(4, 6, 10, "logN")
	nq, np := c.Count(1, 8, 16, "q"), c.Uni(1, 4, "p")
	gamma := c.Uni(1, 4, "gamma")
	lo := c.PickInt("lo", 30, 55)
	m := c.Moduli(nq+np, 2<<uint(logN), lo, 61, "m")
	Q, P := m[:nq], m[nq:]
	c.Note("logN=%d q=%d p=%d gamma=%d", logN, nq, np, gamma)
	return frlwe.NewParametersFromLiteral(frlwe.ParametersLiteral{LogN: logN, Q: Q, P: P, T: c.TModuli(Q, P, gamma, logN, false), Gamma: gamma})
}

func TestFastKeySwitcher(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 400, Thorough: 5000, Rule: "at least four switches with one key switcher"}, func(c *vh.C) {
		p := fparams(c)
		r := c.Rng("data")
		kg := frlwe.NewKeyGenerator(p)
		sk := kg.GenSecretKey()
		rlk, rtk := kg.GenRelinKey(sk), kg.GenRotKey(c.Uni(0, p.N(), "rot"), sk)
		used := frlwe.NewKeySwitcher(p)
		h := &vh.History{C: c, R: r}
		ops := c.Uni(2, 12, "ops")
		c.NonTrivial(ops >= 4)
		for i := 0; i < ops; i++ {
			key := rlk.Value
			if c.Bool("rot") {
				key = rtk.Value
			}
			lvl := c.Uni(0, p.MaxLevel(), "level")
			tin, tout := lvl, lvl
			if c.Bool("tin") {
				tin = p.MaxLevel()
			}
			if c.Bool("tout") {
				tout = p.MaxLevel()
			}
			a := p.RingQ().NewPolyLvl(tin)
			vh.Fill(r, a, p.Q(), c.Pick("fill", "uniform", "uniform", "edge", "zero"))
			d := c.Bool("dirty")
			alias := c.Uni(0, 5, "alias")
			op := vh.Op{Name: "SwitchKey", Same: true, In: []any{a, rlk, rtk}}
			if alias < 2 {
				op.In = op.In[1:]
				op.Name = fmt.Sprintf("SwitchKey into input %d", alias)
				op.Once = true
			}
			keepA := vh.Clone(a)
			op.Run = func(fresh bool) []any {
				x, y := dirty(c, r, fresh, p.RingQ().NewPolyLvl(tout), p.Q(), d), dirty(c, r, fresh, p.RingQ().NewPolyLvl(tout), p.Q(), d)
				if fresh {
					frlwe.NewKeySwitcher(p).SwitchKey(lvl, vh.Clone(keepA), key[0], key[1], x, y)
				} else {
					switch alias {
					case 0:
						x = a
					case 1:
						y = a
					}
					used.SwitchKey(lvl, a, key[0], key[1], x, y)
				}
				return []any{view(x, lvl), view(y, lvl)}
			}
			h.Do(op)
		}
	})
}

// ---- encryptors, decryptors, key generators ----

// settled digests a result without what depends on the order in which a set of rotation keys was drawn.
func settled(o []any) string {
	var x []any
	for _, v := range o {
		if rks, ok := v.(*rlwe.RotationKeySet); ok && len(rks.Keys) > 1 {
			els := make(map[uint64]int)
			for galEl, k := range rks.Keys {
				els[galEl] = len(k.Value)
			}
			x = append(x, els)
			continue
		}
		x = append(x, v)
	}
	return vh.Digest(x...)
}

// twice performs a sequence of calls of the same objects with the same randomness, once with dirty outputs and results overwritten
// as soon as they are compared, once with new outputs and results left alone; the results have to be the same.
// A third run performs the calls before the k-th with other operands (vary(k), undone by what it returns): the result of the k-th, which
// draws the same randomness, is the same.
func twice(c *vh.C, r *vh.Rand, inputs []any, calls []string, setup func() func(i int, fresh bool) []any, vary func(k int) func()) {
	seed := r.Uint64()
	in := vh.Digest(inputs...)
	check := func(what string) {
		if vh.Digest(inputs...) != in {
			c.Fatalf("%s: an input changes", what)
		}
	}
	vh.SeedRandom(seed)
	do := setup()
	var first, want []string // want: settled
	var all []any
	for i, s := range calls {
		var o []any
		if e := vh.Panics(func() { o = do(i, true) }); e != "" {
			c.Fatalf("%s: %s", s, e)
		}
		first = append(first, vh.Digest(o...))
		want = append(want, settled(o))
		all = append(all, o)
		check(s)
	}
	for i, o := range all {
		if vh.Digest(o.([]any)...) != first[i] {
			c.Fatalf("the result of %s (call %d) changes later", calls[i], i)
		}
	}
	for i, o := range all { // disjoint memory
		vh.Scribble(r, o)
		check("overwriting the result of " + calls[i])
		for j := i + 1; j < len(all); j++ {
			if vh.Digest(all[j].([]any)...) != first[j] {
				c.Fatalf("the results of %s (call %d) and %s (call %d) share memory", calls[i], i, calls[j], j)
			}
		}
	}
	vh.SeedRandom(seed)
	do = setup()
	for i, s := range calls {
		var o []any
		if e := vh.Panics(func() { o = do(i, false) }); e != "" {
			c.Fatalf("%s: %s", s, e)
		}
		if settled(o) != want[i] {
			c.Fatalf("%s (call %d of %v): the result depends on earlier results or on what the output held", s, i, calls)
		}
		vh.Scribble(r, o)
		check("overwriting the result of " + s)
		c.Class("%s", s)
	}
	k := c.Uni(1, len(calls)-1, "target")
	undo := vary(k)
	vh.SeedRandom(seed)
	do = setup()
	for i, s := range calls[:k+1] {
		if i == k {
			undo()
		}
		var o []any
		if e := vh.Panics(func() { o = do(i, true) }); e != "" {
			c.Fatalf("%s: %s", s, e)
		}
		if i == k && settled(o) != want[i] {
			c.Fatalf("%s (call %d of %v): the result depends on the operands of earlier calls", s, i, calls)
		}
	}
}

func TestEncryptor(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 500, Thorough: 6000, Rule: "at least three encryptions with one encryptor"}, func(c *vh.C) {
		p := params(c)
		r := c.Rng("data")
		kg := rlwe.NewKeyGenerator(p.RP.Parameters)
		sk := kg.GenSecretKey()
		pk := kg.GenPublicKey(sk)
		var key any = sk
		if c.Bool("pk") {
			key = pk
		}
		isSk := key == any(sk)
		kind := c.Pick("kind", "rlwe", "ckks")
		n := c.Uni(2, 8, "calls")
		c.NonTrivial(n >= 3)
		inputs := []any{sk, pk}
		var calls []string
		var pts []*ckks.Plaintext
		var crps []*ring.Poly
		type shape struct {
			level    int
			ntt, dir bool
		}
		var outs []shape
		for i := 0; i < n; i++ {
			names := []string{"Encrypt", "Encrypt"}
			if kind == "ckks" {
				names = append(names, "EncryptNew")
			}
			if isSk {
				names = append(names, "EncryptFromCRP")
				if kind == "ckks" {
					names = append(names, "EncryptFromCRPNew")
				}
			}
			s := c.Pick("call", names...)
			o := shape{c.Uni(0, p.MaxLevel(), "out"), kind == "ckks" || c.Bool("ctntt"), c.Bool("dirty")}
			pt := ckks.NewPlaintext(p.Parameters, c.Uni(0, p.MaxLevel(), "ptlevel"), math.Exp2(float64(c.Uni(3, 40, "scale"))))
			vh.Fill(r, pt.Value, p.Q(), c.Pick("fill", "uniform", "edge", "zero"))
			pt.Value.IsNTT = kind == "ckks" || c.Bool("ptntt")
			crp := p.RingQ().NewPolyLvl(p.MaxLevel())
			vh.Fill(r, crp, p.Q(), "uniform")
			calls, pts, crps, outs = append(calls, s), append(pts, pt), append(crps, crp), append(outs, o)
			inputs = append(inputs, pt, crp)
		}
		twice(c, r, inputs, calls, func() func(i int, fresh bool) []any {
			re, ce := rlwe.NewEncryptor(p.RP.Parameters, key), ckks.NewEncryptor(p.Parameters, key)
			return func(i int, fresh bool) []any {
				o, pt := outs[i], pts[i]
				lvl := o.level
				if pt.Level() < lvl {
					lvl = pt.Level()
				}
				ct := ckks.NewCiphertext(p.Parameters, 1, o.level, 1)
				for _, v := range ct.Value {
					dirty(c, r, fresh, v, p.Q(), o.dir)
					v.IsNTT = o.ntt
				}
				if !fresh && o.dir {
					ct.Scale = 77
				}
				switch calls[i] {
				case "Encrypt":
					if kind == "rlwe" {
						re.Encrypt(pt.Plaintext, ct.Ciphertext)
						return []any{ct.Ciphertext}
					}
					ce.Encrypt(pt, ct)
				case "EncryptNew":
					ct = ce.EncryptNew(pt)
				case "EncryptFromCRP":
					if kind == "rlwe" {
						re.EncryptFromCRP(pt.Plaintext, crps[i], ct.Ciphertext)
						return []any{ct.Ciphertext}
					}
					ce.EncryptFromCRP(pt, crps[i], ct)
				case "EncryptFromCRPNew":
					ct = ce.EncryptFromCRPNew(pt, crps[i])
				}
				return []any{ct}
			}
		}, func(k int) func() {
			for i := 0; i < k; i++ {
				vh.Fill(r, pts[i].Value, p.Q(), "uniform")
				vh.Fill(r, crps[i], p.Q(), "uniform")
			}
			return func() {}
		})
	})
}

func TestMessageEncryptor(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 250, Thorough: 3000, Rule: "at least three encryptions with one encryptor"}, func(c *vh.C) {
		g := c.FSession(0)
		r := c.Rng("data")
		n := c.Uni(2, 8, "calls")
		c.NonTrivial(n >= 3)
		inputs := []any{g.FPk, g.Sk[0]}
		var calls []string
		var msgs []*fckks.Message
		var pts []*ckks.Plaintext
		var lvls []int
		for i := 0; i < n; i++ {
			calls = append(calls, c.Pick("call", "EncryptMsg", "EncryptMsg", "EncryptMsgNew", "Encrypt"))
			m := &fckks.Message{Value: make([]complex128, c.Uni(1, g.Vals, "values"))}
			for j := range m.Value {
				m.Value[j] = complex(r.Float(1), r.Float(1))
			}
			pt := ckks.NewPlaintext(g.P.Parameters, g.Level(), 1<<20)
			vh.Fill(r, pt.Value, g.P.Q(), "uniform")
			msgs, pts, lvls = append(msgs, m), append(pts, pt), append(lvls, g.Level())
			inputs = append(inputs, m, pt)
		}
		d := c.Bool("dirty")
		twice(c, r, inputs, calls, func() func(i int, fresh bool) []any {
			e := fckks.NewEncryptor(g.FP, g.FPk)
			return func(i int, fresh bool) []any {
				ct := ckks.NewCiphertext(g.P.Parameters, 1, lvls[i], 1)
				for _, v := range ct.Value {
					dirty(c, r, fresh, v, g.P.Q(), d)
				}
				switch calls[i] {
				case "EncryptMsg":
					e.EncryptMsg(msgs[i], ct)
				case "EncryptMsgNew":
					ct = e.EncryptMsgNew(msgs[i])
				default:
					e.Encrypt(pts[i], ct)
				}
				return []any{ct}
			}
		}, func(k int) func() {
			for i := 0; i < k; i++ {
				vh.Fill(r, pts[i].Value, g.P.Q(), "uniform")
				msgs[i] = &fckks.Message{Value: make([]complex128, c.Uni(1, g.Vals, "values'"))}
				for j := range msgs[i].Value {
					msgs[i].Value[j] = complex(r.Float(1), r.Float(1))
				}
			}
			return func() {}
		})
	})
}

func TestDecryptor(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 700, Thorough: 8000, Rule: "at least four decryptions with one decryptor"}, func(c *vh.C) {
		p := params(c)
		r := c.Rng("data")
		sk := rlwe.NewKeyGenerator(p.RP.Parameters).GenSecretKey()
		re, ce := rlwe.NewDecryptor(p.RP.Parameters, sk), ckks.NewDecryptor(p.Parameters, sk)
		h := &vh.History{C: c, R: r}
		ops := c.Uni(2, 14, "ops")
		c.NonTrivial(ops >= 4)
		for i := 0; i < ops; i++ {
			lvl := c.Uni(0, p.MaxLevel(), "level")
			ct := ckks.NewCiphertext(p.Parameters, c.Uni(0, 9, "degree"), lvl, math.Exp2(float64(c.Uni(0, 50, "scale"))))
			op := vh.Op{Name: c.Pick("op", "rlwe.Decrypt", "ckks.Decrypt", "ckks.DecryptNew"), Same: true, In: []any{ct, sk}}
			ntt := op.Name != "rlwe.Decrypt" || c.Bool("ntt")
			for _, v := range ct.Value {
				vh.Fill(r, v, p.Q(), c.Pick("fill", "uniform", "edge", "zero"))
				v.IsNTT = ntt
			}
			pl, pn, d := c.Uni(0, p.MaxLevel(), "ptlevel"), op.Name != "rlwe.Decrypt" || c.Bool("ptntt"), c.Bool("dirty")
			op.Run = func(fresh bool) []any {
				rd, cd := re, ce
				if fresh {
					rd, cd = rlwe.NewDecryptor(p.RP.Parameters, sk), ckks.NewDecryptor(p.Parameters, sk)
				}
				if op.Name == "ckks.DecryptNew" {
					return []any{cd.DecryptNew(ct)}
				}
				pt := ckks.NewPlaintext(p.Parameters, pl, 1)
				dirty(c, r, fresh, pt.Value, p.Q(), d)
				pt.Value.IsNTT = pn
				if op.Name == "rlwe.Decrypt" {
					rd.Decrypt(ct.Ciphertext, pt.Plaintext)
				} else {
					if d && !fresh {
						pt.Scale = 99
					}
					cd.Decrypt(ct, pt)
				}
				return []any{pt}
			}
			h.Do(op)
		}
	})
}

func TestKeyGenerator(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 300, Thorough: 4000, Rule: "at least three keys of one generator"}, func(c *vh.C) {
		o := vh.RO{LogNLo: 4, LogNHi: 5, QLo: 1, QHi: 5, PLo: 1, PHi: 3, BitsLo: 30, BitsHi: 61, CI: true, Extra: 1}
		p := c.RLWE(o, "p")
		std := p.RingType() == ring.Standard
		r := c.Rng("data")
		kg0 := rlwe.NewKeyGenerator(p.Parameters)
		sk, sk2 := kg0.GenSecretKey(), kg0.GenSecretKey()
		low := sk2.CopyNew()
		low.Value.Q.Coeffs = low.Value.Q.Coeffs[:c.Uni(1, p.QCount(), "lowq")]
		low.Value.P.Coeffs = low.Value.P.Coeffs[:c.Uni(1, p.PCount(), "lowp")]
		skCI := sk
		n := c.Uni(2, 7, "calls")
		c.NonTrivial(n >= 3)
		names := []string{"LowKey", "LowInput", "GenSecretKey", "GenSecretKeyGaussian", "GenSecretKeyWithDistrib", "GenSecretKeyWithHammingWeight", "GenPublicKey", "GenKeyPair", "GenRelinearizationKey",
			"GenSwitchingKey", "GenSwitchingKeyForRotationBy", "GenRotationKeysForRotations", "GenRotationKeys", "GenSwitchingKeyForGalois"}
		if std {
			names = append(names, "GenRotationKeysForInnerSum", "GenSwitchingKeyForRowRotation", "GenSwitchingKeysForRingSwap", "SmallerRing", "LargerRing")
			ci, err := rlwe.NewParameters(p.LogN()-1, p.Q(), p.P(), 1<<uint(p.LogN()-2), p.Sigma(), ring.ConjugateInvariant)
			if err == nil {
				skCI = rlwe.NewKeyGenerator(ci).GenSecretKey()
			} else {
				names = names[:len(names)-3]
				names = append(names, "SmallerRing", "LargerRing")
			}
		}
		var calls []string
		var arg []int
		rots := []int{1, 2}[:c.Uni(1, 2, "rots")]
		els := []uint64{5, 25}
		for i := 0; i < n; i++ {
			calls = append(calls, c.Pick("call", names...))
			arg = append(arg, c.Uni(1, p.N(), "arg"))
		}
		large := p.Parameters
		skL := sk
		if std {
			var err error
			if large, err = rlwe.NewParameters(p.LogN()+1, p.Q(), p.P(), p.HammingWeight(), p.Sigma(), ring.Standard); err != nil {
				c.Fatalf("%v", err)
			}
			skL = rlwe.NewKeyGenerator(large).GenSecretKey()
		}
		twice(c, r, []any{sk, sk2, skL, skCI, low, rots, els}, calls, func() func(i int, fresh bool) []any {
			kg, kgL := rlwe.NewKeyGenerator(p.Parameters), rlwe.NewKeyGenerator(large)
			return func(i int, fresh bool) []any {
				switch calls[i] {
				case "GenSwitchingKeysForRingSwap":
					a, b := kg.GenSwitchingKeysForRingSwap(sk, skCI)
					return []any{a, b}
				case "SmallerRing":
					return []any{kgL.GenSwitchingKey(skL, sk)}
				case "LargerRing":
					return []any{kgL.GenSwitchingKey(sk, skL)}
				case "LowKey":
					return []any{kg.GenSwitchingKey(sk, low)}
				case "LowInput":
					return []any{kg.GenSwitchingKey(low, sk)}
				case "GenSecretKey":
					return []any{kg.GenSecretKey()}
				case "GenSecretKeyGaussian":
					return []any{kg.GenSecretKeyGaussian()}
				case "GenSecretKeyWithDistrib":
					return []any{kg.GenSecretKeyWithDistrib(.3)}
				case "GenSecretKeyWithHammingWeight":
					return []any{kg.GenSecretKeyWithHammingWeight(arg[i])}
				case "GenPublicKey":
					return []any{kg.GenPublicKey(sk)}
				case "GenKeyPair":
					s, pk := kg.GenKeyPair()
					return []any{s, pk}
				case "GenRelinearizationKey":
					return []any{kg.GenRelinearizationKey(sk, 1+arg[i]%3)}
				case "GenSwitchingKey":
					return []any{kg.GenSwitchingKey(sk2, sk)}
				case "GenSwitchingKeyForRotationBy":
					return []any{kg.GenSwitchingKeyForRotationBy(arg[i], sk)}
				case "GenRotationKeysForRotations":
					return []any{kg.GenRotationKeysForRotations(rots, std && arg[i]&1 == 0, sk)}
				case "GenRotationKeys":
					return []any{kg.GenRotationKeys(els, sk)}
				case "GenSwitchingKeyForGalois":
					return []any{kg.GenSwitchingKeyForGalois(els[arg[i]&1], sk)}
				case "GenRotationKeysForInnerSum":
					return []any{kg.GenRotationKeysForInnerSum(sk)}
				}
				return []any{kg.GenSwitchingKeyForRowRotation(sk)}
			}
		}, func(k int) func() {
			a, b, l, lo, ci := sk, sk2, skL, low, skCI
			sk, sk2 = kg0.GenSecretKey(), kg0.GenSecretKeyGaussian()
			low = sk.CopyNew()
			low.Value.Q.Coeffs = low.Value.Q.Coeffs[:len(lo.Value.Q.Coeffs)]
			low.Value.P.Coeffs = low.Value.P.Coeffs[:len(lo.Value.P.Coeffs)]
			if std {
				skL = rlwe.NewKeyGenerator(large).GenSecretKey()
			}
			return func() { sk, sk2, skL, low, skCI = a, b, l, lo, ci }
		})
	})
}

func TestFastKeyGenerator(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 250, Thorough: 3000, Rule: "at least three keys of one generator"}, func(c *vh.C) {
		p := fparams(c)
		r := c.Rng("data")
		sk := frlwe.NewKeyGenerator(p).GenSecretKey()
		n := c.Uni(2, 7, "calls")
		c.NonTrivial(n >= 3)
		var calls []string
		var arg []int
		for i := 0; i < n; i++ {
			calls = append(calls, c.Pick("call", "GenSecretKey", "GenPublicKey", "GenKeyPair", "GenRelinKey", "GenRelinKey", "GenRotKey", "GenRotKey", "rlwe"))
			arg = append(arg, c.Uni(-p.N(), 2*p.N(), "arg"))
		}
		twice(c, r, []any{sk}, calls, func() func(i int, fresh bool) []any {
			kg := frlwe.NewKeyGenerator(p)
			return func(i int, fresh bool) []any {
				switch calls[i] {
				case "GenSecretKey":
					return []any{kg.GenSecretKey()}
				case "GenPublicKey":
					return []any{kg.GenPublicKey(sk)}
				case "GenKeyPair":
					s, pk := kg.GenKeyPair()
					return []any{s, pk}
				case "GenRelinKey":
					return []any{kg.GenRelinKey(sk)}
				case "GenRotKey":
					return []any{kg.GenRotKey(arg[i], sk)}
				}
				return []any{kg.GenRelinearizationKey(sk, 1)}
			}
		}, func(k int) func() {
			a := sk
			sk = frlwe.NewKeyGenerator(p).GenSecretKey()
			return func() { sk = a }
		})
	})
}

// ---- objects of package ring ----

func TestRing(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 900, Thorough: 12000, Rule: "at least four operations with the same objects"}, func(c *vh.C) {
		logN := c.Deg(4, 6, 10, "logN")
		nq, np := c.Count(1, 7, 16, "q"), c.Count(1, 5, 9, "p")
		m := c.Moduli(nq+np, 2<<uint(logN), 20, 61, "m")
		Q, P := m[:nq], m[nq:]
		rq, err := ring.NewRing(1<<uint(logN), Q)
		if err != nil {
			c.Fatalf("%v", err)
		}
		rp, err := ring.NewRing(1<<uint(logN), P)
		if err != nil {
			c.Fatalf("%v", err)
		}
		rt, err := ring.NewRing(1<<uint(logN), P[:1])
		if err != nil {
			c.Fatalf("%v", err)
		}
		r := c.Rng("data")
		c.Note("logN=%d q=%v p=%v", logN, Q, P)
		tm := c.PickInt("t", 2, 3, 257, 65537, 1<<16, 12289)
		mk := func() (*ring.BasisExtender, *ring.Decomposer, *ring.SimpleScaler, *ring.RNSScaler) {
			return ring.NewBasisExtender(rq, rp), ring.NewDecomposer(rq, rp), ring.NewSimpleScaler(uint64(tm), rq), ring.NewRNSScaler(rq, rt)
		}
		be, dec, ss, rs := mk()
		pool := rq.NewPoly()
		h := &vh.History{C: c, R: r}
		ops := c.Uni(2, 14, "ops")
		c.NonTrivial(ops >= 4)
		for i := 0; i < ops; i++ {
			lq, lp := c.Uni(0, nq-1, "lq"), c.Uni(0, np-1, "lp")
			tall := c.Bool("tall")
			fill := c.Pick("fill", "uniform", "uniform", "edge", "max", "zero")
			poly := func(R *ring.Ring, l int, k string) *ring.Poly {
				if tall {
					l = len(R.Modulus) - 1
				}
				x := R.NewPolyLvl(l)
				if k != "" {
					vh.Fill(r, x, R.Modulus, k)
				}
				return x
			}
			a, b := poly(rq, lq, fill), poly(rp, lp, fill)
			d := c.Bool("dirty")
			out := func(fresh bool, R *ring.Ring, l int) *ring.Poly {
				if d && !fresh {
					return poly(R, l, "uniform")
				}
				return poly(R, l, "")
			}
			alias := c.Bool("alias")
			op := vh.Op{Name: c.Pick("op", "ModUpQtoP", "ModUpPtoQ", "ModDownQPtoQ", "ModDownQPtoQNTT", "ModDownQPtoP", "DecomposeAndSplit", "SimpleScaler", "RNSScaler",
				"DivFloorMany", "DivRoundMany", "DivFloorManyNTT", "DivRoundManyNTT", "DivRoundNTT", "DivFloorNTT"), Same: true, In: []any{a, b}}
			nb := c.Uni(0, lq, "nb")
			k := c.Uni(1, np, "alpha")
			digit := c.Uni(0, lq/k, "digit")
			if op.Name == "DivRoundNTT" || op.Name == "DivFloorNTT" {
				if lq == 0 {
					continue
				}
				nb = 1
			}
			op.Run = func(fresh bool) []any {
				be, dec, ss, rs, pool := be, dec, ss, rs, pool
				if fresh {
					be, dec, ss, rs = mk()
					pool = rq.NewPoly()
				}
				// in place on a copy of the input
				to := func() *ring.Poly {
					if alias && !fresh {
						return vh.Clone(a)
					}
					return nil
				}
				in := a
				x := to()
				if x != nil {
					in = x
				} else {
					x = out(fresh, rq, lq)
				}
				switch op.Name {
				case "ModUpQtoP":
					x = out(fresh, rp, lp)
					be.ModUpQtoP(lq, lp, a, x)
					return []any{view(x, lp)}
				case "ModUpPtoQ":
					x = out(fresh, rq, lq)
					be.ModUpPtoQ(lp, lq, b, x)
					return []any{view(x, lq)}
				case "ModDownQPtoQ":
					be.ModDownQPtoQ(lq, lp, in, b, x)
				case "ModDownQPtoQNTT":
					bb := vh.Clone(b)
					be.ModDownQPtoQNTT(lq, lp, in, bb, x)
				case "ModDownQPtoP":
					x = out(fresh, rp, lp)
					bb := b
					if alias && !fresh {
						x = vh.Clone(b)
						bb = x
					}
					be.ModDownQPtoP(lq, lp, a, bb, x)
					return []any{view(x, lp)}
				case "DecomposeAndSplit":
					x = out(fresh, rq, lq)
					y := dirty(c, r, fresh, rp.NewPoly(), P, d)
					dec.DecomposeAndSplit(lq, k-1, k, digit, a, x, y)
					return []any{view(x, lq), view(y, k-1)}
				case "SimpleScaler":
					if lq != nq-1 {
						return nil
					}
					y := rq.NewPoly()
					if d && !fresh {
						vh.Fill(r, y, Q, "uniform")
					}
					src := a
					if alias && !fresh {
						y = vh.Clone(a)
						src = y
					}
					ss.DivByQOverTRounded(src, y)
					return []any{view(y, 0)}
				case "RNSScaler":
					if lq != nq-1 {
						return nil
					}
					y := dirty(c, r, fresh, rt.NewPoly(), P, d)
					rs.DivByQOverTRounded(a, y)
					return []any{y}
				case "DivFloorMany":
					rq.DivFloorByLastModulusManyLvl(lq, nb, in, pool, x)
					return []any{view(x, lq-nb)}
				case "DivRoundMany":
					rq.DivRoundByLastModulusManyLvl(lq, nb, in, pool, x)
					return []any{view(x, lq-nb)}
				case "DivFloorManyNTT":
					rq.DivFloorByLastModulusManyNTTLvl(lq, nb, in, pool, x)
					return []any{view(x, lq-nb)}
				case "DivRoundManyNTT":
					rq.DivRoundByLastModulusManyNTTLvl(lq, nb, in, pool, x)
					return []any{view(x, lq-nb)}
				case "DivRoundNTT":
					rq.DivRoundByLastModulusNTTLvl(lq, in, pool, x)
					return []any{view(x, lq-nb)}
				case "DivFloorNTT":
					rq.DivFloorByLastModulusNTTLvl(lq, in, pool, x)
					return []any{view(x, lq-nb)}
				}
				return []any{view(x, lq)}
			}
			h.Do(op)
		}
	})
}
