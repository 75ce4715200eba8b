package c16

import (
	"fmt"
	"math"
	"math/big"
	"testing"

	"fast-ksw/ckks"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"fast-ksw/utils"
	"vharness/vh"
)

func fill(c *vh.C, g *vh.Prog) {
	for len(g.Pool) < 4 {
		g.Pool = append(g.Pool, g.Fresh(len(g.Pool) == 1))
	}
	if c.Chance(1, 12, "refresh") {
		g.Pool[c.Uni(0, len(g.Pool)-1, "refreshed")] = g.Fresh(c.Chance(1, 4, "pt"))
	}
}

func program(ops ...string) func(c *vh.C) {
	return func(c *vh.C) {
		g := c.NewProg(c.ProgParams("params"), "keys")
		g.Pure = true
		for i, n := 0, c.Uni(10, 40, "steps"); i < n; i++ {
			fill(c, g)
			if s := g.MakeStep(c.Pick("op", ops...)); s != nil {
				g.Run(s)
			}
		}
	}
}

const rule = "at least four operations of the program have a result known to better than 1%"

// Programs dominated by operations that change scales and levels.
func TestScales(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 1500, Thorough: 6000, Rule: rule}, program("Rescale", "Rescale", "Rescale", "SetScale", "SetScale", "ScaleUp", "ScaleUp", "DropLevel", "MultByConst",
		"MultByConst", "MultByConstAndAdd", "Mul", "MulRelin", "Add", "Sub", "AddConst"))
}

// Lazy sums, reductions and level drops.
func TestLazy(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 1500, Thorough: 6000, Rule: rule}, program("AddNoMod", "AddNoMod", "AddNoMod", "SubNoMod", "SubNoMod", "Reduce", "Reduce", "DropLevel", "Mul", "Add", "Sub", "Rescale", "MulByPow2", "Neg"))
}

// All operations, results into every shape of output.
func TestOutputs(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 1500, Thorough: 6000, Rule: rule}, program(vh.StepOps...))
}

type evaluator interface {
	ckks.Evaluator
	vh.Extra
}

// like clone, but by hand: the library's copies are under test
func clone(ct *ckks.Ciphertext) *ckks.Ciphertext {
	o := &ckks.Ciphertext{Ciphertext: &rlwe.Ciphertext{}, Scale: ct.Scale}
	for _, v := range ct.Value {
		o.Value = append(o.Value, vh.Clone(v))
	}
	return o
}

func differs(a, b *ckks.Ciphertext) string {
	if a.Scale != b.Scale && !(math.IsNaN(a.Scale) && math.IsNaN(b.Scale)) {
		return fmt.Sprintf("scale %g instead of %g", a.Scale, b.Scale)
	}
	if len(a.Value) != len(b.Value) {
		return fmt.Sprintf("degree %d instead of %d", len(a.Value)-1, len(b.Value)-1)
	}
	for i := range a.Value {
		if !vh.Same(a.Value[i], b.Value[i]) {
			return fmt.Sprintf("polynomial %d", i)
		}
	}
	return ""
}

// random ciphertext with any residues
func random(c *vh.C, p vh.CK, r *vh.Rand, deg, lvl int, scale float64) *ckks.Ciphertext {
	ct := ckks.NewCiphertext(p.Parameters, deg, lvl, scale)
	kind := c.Pick("fill", "uniform", "uniform", "edge", "max", "zero")
	for _, v := range ct.Value {
		vh.Fill(r, v, p.Q()[:lvl+1], kind)
	}
	return ct
}

// Rescaling of any ciphertext by any threshold, into outputs of any shape.
func TestRescale(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 5000, Thorough: 40000, Rule: "a rescaling that was not refused and divides by at least one modulus"}, func(c *vh.C) {
		p := c.ProgParams("params")
		r := c.Rng("rng")
		ev := ckks.NewEvaluator(p.Parameters, rlwe.EvaluationKey{}).(evaluator)
		sk := ckks.NewKeyGenerator(p.Parameters).GenSecretKey()
		s := vh.Secret(c, p.RP.Parameters, sk)
		for n := c.Uni(1, 5, "calls"); n > 0; n-- {
			deg, lvl := c.Uni(1, 2, "deg"), c.Uni(0, p.MaxLevel(), "lvl")
			if c.Chance(2, 3, "top") {
				lvl = p.MaxLevel()
			}
			q := p.Q()[:lvl+1]
			// scale: any, around products of moduli often
			scale := math.Exp2(float64(c.Uni(-4, 60*(lvl+1), "log")) + r.Float64())
			if c.Bool("product") {
				scale = math.Exp2(r.Float(3))
				for i, k := lvl, c.Uni(0, lvl+2, "factors"); i >= 0 && k > 0; i, k = i-1, k-1 {
					scale *= float64(q[i])
				}
			}
			// threshold: any, around a reachable scale often
			min := scale * math.Exp2(-float64(c.Uni(-5, 60*(lvl+1), "below")))
			if c.Chance(2, 3, "near") {
				x := scale
				for i, k := lvl, c.Uni(0, lvl+1, "divisions"); i >= 0 && k > 0; i, k = i-1, k-1 {
					x /= float64(q[i])
				}
				min = 2 * x
				switch c.Uni(0, 3, "side") {
				case 0:
					min *= 1 + 1e-9
				case 1:
					min *= 1 - 1e-9
				case 2:
					min *= 1 + r.Float(0.5)
				}
			}
			// keep every quotient and product well inside float64
			scale = math.Min(scale, math.Exp2(960))
			min = math.Max(math.Min(min, math.Exp2(980)), math.Exp2(-980))
			bad := ""
			switch c.Uni(0, 14, "bad") {
			case 0:
				min, bad = 0, "threshold 0"
			case 1:
				min, bad = -min, "negative threshold"
			case 2:
				scale, bad = 0, "scale 0"
			}
			in := random(c, p, r, deg, lvl, scale)
			if lvl == 0 {
				bad = "level 0"
			}
			if c.Chance(1, 12, "coeffs") {
				bad = "not in the NTT domain"
				if c.Bool("some") {
					in.Value[c.Uni(0, deg, "which")].IsNTT = false
				} else {
					for _, v := range in.Value {
						v.IsNTT = false
					}
				}
			}
			out, place := in, c.Pick("out", "in place", "same", "new", "higher", "degree", "lower")
			maybe := false // an error would do, so would the right result
			switch place {
			case "same":
				out = random(c, p, r, deg, lvl, 3)
			case "higher":
				out = random(c, p, r, deg, c.Uni(lvl, p.MaxLevel(), "outlvl"), 3)
				maybe = out.Level() > lvl
			case "lower":
				out = random(c, p, r, deg, c.Uni(0, lvl, "outlvl"), 3)
				maybe = out.Level() < lvl
			case "degree":
				out, bad = random(c, p, r, (deg+c.Uni(1, 2, "other"))%3, lvl, 3), "degree of the output"
			case "new":
				out = nil
			}
			before := clone(in)
			var outBefore *ckks.Ciphertext
			if out != nil {
				outBefore = clone(out)
			}
			desc := fmt.Sprintf("Rescale of degree %d, level %d, scale %g (2^%.2f), threshold %g, %s", deg, lvl, scale, math.Log2(scale), min, place)
			if out != nil {
				desc += fmt.Sprintf(" output degree %d, level %d", out.Degree(), out.Level())
			}
			c.Note("%s %s", desc, bad)
			var err error
			if e := vh.Panics(func() {
				if out == nil {
					out, err = ev.RescaleNew(in, min)
				} else {
					err = ev.Rescale(in, min, out)
				}
			}); e != "" {
				c.Fatalf("%s: %s", desc, e)
			}
			if err != nil {
				if bad == "" && !maybe {
					c.Fatalf("%s: %v", desc, err)
				}
				if d := differs(in, before); d != "" {
					c.Fatalf("%s: error %v, but the input changed: %s", desc, err, d)
				}
				if outBefore != nil {
					if d := differs(out, outBefore); d != "" {
						c.Fatalf("%s: error %v, but the output changed: %s", desc, err, d)
					}
				}
				c.Class("refused: %s", bad)
				continue
			}
			if bad != "" {
				c.Fatalf("%s: no error for %s", desc, bad)
			}
			if place != "in place" {
				if d := differs(in, before); d != "" {
					c.Fatalf("%s: changed its input: %s", desc, d)
				}
			}
			// number of divisions: as many as leave the scale at half of the threshold at least, and a level above 0
			nb := lvl - out.Level()
			x := scale
			div := big.NewInt(1)
			for i := 0; i < nb; i++ {
				x /= float64(q[lvl-i])
				div.Mul(div, new(big.Int).SetUint64(q[lvl-i]))
			}
			if nb < 0 || out.Level() < 0 {
				c.Fatalf("%s: result at level %d", desc, out.Level())
			}
			if nb > 0 && x < min/2*(1-1e-12) {
				c.Fatalf("%s: result at level %d, scale %g, below half of the threshold", desc, out.Level(), x)
			}
			if out.Level() > 0 && x/float64(q[out.Level()]) > min/2*(1+1e-12) {
				c.Fatalf("%s: stops at level %d with scale %g, the next scale %g is above half of the threshold", desc, out.Level(), x, x/float64(q[out.Level()]))
			}
			if !(math.Abs(out.Scale/x-1) < 1e-14) {
				c.Fatalf("%s: result of scale %g at level %d, expected %g", desc, out.Scale, out.Level(), x)
			}
			if out.Degree() != deg {
				c.Fatalf("%s: result of degree %d", desc, out.Degree())
			}
			for i, v := range out.Value {
				if len(v.Coeffs) != out.Level()+1 || !v.IsNTT {
					c.Fatalf("%s: polynomial %d has %d limbs, IsNTT %v", desc, i, len(v.Coeffs), v.IsNTT)
				}
			}
			// out*div = in up to the rounding, modulo the modulus of the input
			a := vh.Phase(p.RingQ(), before.Value, true, s, lvl)
			b := vh.Phase(p.RingQ(), out.Value, true, s, out.Level())
			f, sum, tt := float64(p.RP.F*vh.L1(s)), 1.0, 1.0
			for i := 0; i < deg; i++ {
				tt *= f
				sum += tt
			}
			lim, _ := new(big.Float).Mul(new(big.Float).SetInt(div), big.NewFloat(0.51*sum+0.5)).Int(nil)
			if nb == 0 {
				lim = new(big.Int)
			}
			crt := vh.NewCRT(q)
			for i := range a {
				d := new(big.Int).Mul(b[i], div)
				if d = crt.Center(d.Sub(d, a[i])); d.CmpAbs(lim) > 0 {
					c.Fatalf("%s: coefficient %d: %v times %v is %v off the input", desc, i, b[i], div, d)
				}
			}
			c.NonTrivial(nb > 0)
			c.Class("%s divisions=%d", place, nb)
		}
	})
}

// Requests that cannot be served are refused: an error or a panic, with the operands as they were.
func TestRefused(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 2500, Thorough: 20000, Rule: "every case is a request that has to be refused"}, func(c *vh.C) {
		g := c.NewProg(c.ProgParams("params"), "keys")
		r := g.R
		p := g.P
		ev := g.Eval.(evaluator)
		bare := ckks.NewEvaluator(p.Parameters, rlwe.EvaluationKey{}).(evaluator)
		lvl := func() int { return c.Uni(0, p.MaxLevel(), "lvl") }
		ct := func(deg int) *ckks.Ciphertext {
			x := random(c, p, r, deg, lvl(), p.DefaultScale()*(1+r.Float64()))
			return x
		}
		pt := func() *ckks.Plaintext { return g.Ecd.EncodeNew(g.Vec(), lvl(), p.DefaultScale(), p.MaxLogSlots()) }
		deg := func() int { return c.Uni(1, 2, "deg") }
		var keep []*ckks.Ciphertext // inputs which must not change
		var f func() error
		no := func(f func()) func() error { return func() error { f(); return nil } }
		kind := c.Pick("request", "DropLevel", "DropLevelNew", "SetScale0", "SetScaleLevel", "ScaleUp", "Reduce", "Neg", "plaintexts", "degree", "small", "coeffs", "MulDegree", "Relinearize",
			"SwitchKeys", "Rotate", "Conjugate", "norlk", "nortk", "norot", "constant", "gauss", "ci")
		binary := []func(a, b ckks.Operand, o *ckks.Ciphertext){ev.Add, ev.Sub, ev.AddNoMod, ev.SubNoMod, ev.Mul, ev.MulRelin, ev.MulAndAdd, ev.MulRelinAndAdd}
		bin := c.Uni(0, len(binary)-1, "binary")
		switch kind {
		case "DropLevel", "DropLevelNew":
			a := ct(deg())
			n := a.Level() + c.Uni(1, 3, "more")
			if c.Bool("negative") {
				full := a
				k := c.Uni(0, a.Level(), "k")
				a = &ckks.Ciphertext{Ciphertext: &rlwe.Ciphertext{}, Scale: full.Scale}
				for _, v := range full.Value { // more limbs lie behind the ciphertext
					a.Value = append(a.Value, &ring.Poly{Coeffs: v.Coeffs[:k+1], IsNTT: true})
				}
				n = -c.Uni(1, 3, "n")
			}
			keep = append(keep, a)
			f = no(func() { ev.DropLevel(a, n) })
			if kind == "DropLevelNew" {
				f = no(func() { ev.DropLevelNew(a, n) })
			}
		case "SetScale0":
			a := ct(deg())
			x := []float64{0, -p.DefaultScale(), math.NaN(), -1}[c.Uni(0, 3, "x")]
			keep = append(keep, a)
			f = no(func() { ev.SetScale(a, x) })
		case "SetScaleLevel":
			a := random(c, p, r, deg(), 0, p.DefaultScale())
			keep = append(keep, a)
			f = no(func() { ev.SetScale(a, a.Scale*(1.5+r.Float64())) })
			for x := a.Scale; a.Scale == x; a.Scale = x * (1 + r.Float64()) {
			}
		case "ScaleUp":
			a, o := ct(deg()), ct(2)
			x := []float64{0, -1, -3.5, 0.3, math.NaN()}[c.Uni(0, 4, "x")]
			keep = append(keep, a)
			f = no(func() { ev.ScaleUp(a, x, o) })
			if c.Bool("new") {
				f = no(func() { ev.ScaleUpNew(a, x) })
			}
		case "Reduce", "Neg":
			d := deg()
			a, o := ct(d), ct(3-d)
			keep = append(keep, a, o)
			f = func() error { return ev.Reduce(a, o) }
			if kind == "Neg" {
				f = no(func() { ev.Neg(a, o) })
			}
		case "plaintexts":
			a, b, o := pt(), pt(), ct(deg())
			keep = append(keep, o)
			f = no(func() { binary[bin](a, b, o) })
		case "degree": // two polynomials do not hold a sum of degree 2
			a, b, o := ct(2), ct(deg()), ct(1)
			bin %= 4
			if c.Bool("swap") {
				a, b = b, a
			}
			keep = append(keep, a, b, o)
			f = no(func() { binary[bin](a, b, o) })
		case "small":
			a, b, o := ct(1), ct(1), ct(0)
			keep = append(keep, a, b, o)
			f = no(func() { binary[bin](a, b, o) })
		case "coeffs":
			a, b, o := ct(1), ct(1), ct(2)
			if c.Bool("second") {
				a, b = b, a
				b.Value[c.Uni(0, 1, "which")].IsNTT = false
			} else {
				a.Value[c.Uni(0, 1, "which")].IsNTT = false
			}
			keep = append(keep, a, b, o)
			f = no(func() { binary[bin](a, b, o) })
		case "MulDegree":
			a, b, o := ct(2), ct(deg()), ct(2)
			if c.Bool("swap") {
				a, b = b, a
			}
			bin = 4 + bin%4
			keep = append(keep, a, b)
			f = no(func() { binary[bin](a, b, o) })
		case "Relinearize":
			a, o := ct(1), ct(deg())
			keep = append(keep, a)
			f = no(func() { ev.Relinearize(a, o) })
			if c.Bool("new") {
				f = no(func() { ev.RelinearizeNew(a) })
			}
		case "SwitchKeys", "Rotate", "Conjugate":
			a, o := ct(2), ct(deg())
			if c.Bool("swap") {
				a, o = ct(1), ct(2)
			}
			keep = append(keep, a, o)
			switch kind {
			case "SwitchKeys":
				f = no(func() { ev.SwitchKeys(a, g.Swk[0][1], o) })
			case "Rotate":
				f = no(func() { ev.Rotate(a, g.Rots[0], o) })
			default:
				f = no(func() { ev.Conjugate(a, o) })
			}
		case "norlk":
			a, b, o := ct(1), ct(1), ct(deg())
			keep = append(keep, a, b)
			f = no(func() { bare.MulRelin(a, b, o) })
			switch c.Uni(0, 3, "which") {
			case 0:
				f = no(func() { bare.MulRelinNew(a, b) })
			case 1:
				f = no(func() { bare.MulRelinAndAdd(a, b, o) })
			case 2:
				d := ct(2)
				f = no(func() { bare.Relinearize(d, o) })
			}
		case "nortk", "norot":
			a, o := ct(1), ct(1)
			keep = append(keep, a)
			e, k := bare, c.Uni(1, g.M-1, "k")
			if kind == "norot" { // an amount without a key
				e = ev
				for _, x := range g.Rots {
					if (x-k)%g.M == 0 {
						k = 0
					}
				}
				if k == 0 {
					return
				}
			}
			f = no(func() { e.Rotate(a, k, o) })
			switch c.Uni(0, 2, "which") {
			case 0:
				f = no(func() { e.RotateNew(a, k) })
			case 1:
				if kind == "nortk" {
					f = no(func() { e.Conjugate(a, o) })
				}
			}
		case "constant":
			a, o := ct(deg()), ct(2)
			var x interface{} = []interface{}{"1", uint32(1), nil, []int{1}, big.NewRat(1, 2), int8(3), complex64(1)}[c.Uni(0, 6, "x")]
			keep = append(keep, a)
			f = []func() error{no(func() { ev.AddConst(a, x, o) }), no(func() { ev.AddConstNew(a, x) }), no(func() { ev.MultByConst(a, x, o) }), no(func() { ev.MultByConstNew(a, x) }),
				no(func() { ev.MultByConstAndAdd(a, x, o) })}[c.Uni(0, 4, "which")]
		case "gauss":
			a, o := ct(deg()), ct(2)
			var x, y interface{} = []interface{}{"1", 1.5, nil, complex(1, 0), uint32(1)}[c.Uni(0, 4, "x")], int64(1)
			if !p.CI && c.Bool("swap") { // the imaginary part is not used in the conjugate-invariant ring
				x, y = y, x
			}
			keep = append(keep, a)
			f = no(func() { ev.MultByGaussianInteger(a, x, y, o) })
			if c.Bool("add") {
				f = no(func() { ev.MultByGaussianIntegerAndAdd(a, x, y, o) })
			}
		case "ci":
			if !p.CI {
				return
			}
			a, o := ct(1), ct(1)
			keep = append(keep, a, o)
			f = []func() error{no(func() { ev.MultByi(a, o) }), no(func() { ev.MultByiNew(a) }), no(func() { ev.DivByi(a, o) }), no(func() { ev.DivByiNew(a) }),
				no(func() { ev.Conjugate(a, o) }), no(func() { ev.ConjugateNew(a) })}[c.Uni(0, 5, "which")]
		}
		c.Note("request %s, operation %d", kind, bin)
		var snap []*ckks.Ciphertext
		for _, k := range keep {
			snap = append(snap, clone(k))
		}
		var err error
		if vh.Panics(func() { err = f() }) == "" && err == nil {
			c.Fatalf("request %q (operation %d) was accepted", kind, bin)
		}
		for i := range keep {
			if d := differs(keep[i], snap[i]); d != "" {
				c.Fatalf("request %q (operation %d) was refused (error %v), but operand %d changed: %s", kind, bin, err, i, d)
			}
		}
		c.NonTrivial(true)
		c.Class("%s", kind)
	})
}

// New ciphertexts and plaintexts have the requested shape, copies the content of the original and their own memory.
func TestShapes(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 600, Thorough: 6000, Rule: "every case creates and copies ciphertexts and plaintexts"}, func(c *vh.C) {
		p := c.ProgParams("params")
		r := c.Rng("rng")
		deg, lvl, scale := c.Uni(0, 3, "deg"), c.Uni(0, p.MaxLevel(), "lvl"), math.Exp2(r.Float(70))
		judge := func(what string, ct *ckks.Ciphertext, deg, lvl int, scale float64) {
			if ct.Degree() != deg || ct.Level() != lvl || ct.Scale != scale || ct.ScalingFactor() != scale {
				c.Fatalf("%s: degree %d level %d scale %g, expected %d, %d, %g", what, ct.Degree(), ct.Level(), ct.Scale, deg, lvl, scale)
			}
			for i, v := range ct.Value {
				if len(v.Coeffs) != lvl+1 || !v.IsNTT || v.IsMForm {
					c.Fatalf("%s: polynomial %d with %d limbs, IsNTT %v, IsMForm %v", what, i, len(v.Coeffs), v.IsNTT, v.IsMForm)
				}
				for j := range v.Coeffs {
					if len(v.Coeffs[j]) != p.N() {
						c.Fatalf("%s: limb %d of %d coefficients", what, j, len(v.Coeffs[j]))
					}
					for _, x := range v.Coeffs[j] {
						if x >= p.Q()[j] {
							c.Fatalf("%s: coefficient %d is not reduced modulo %d", what, x, p.Q()[j])
						}
					}
				}
			}
			if ct.El() != ct.Ciphertext || ct.RLWEElement() != ct.Ciphertext {
				c.Fatalf("%s: El is not the ciphertext", what)
			}
		}
		a := ckks.NewCiphertext(p.Parameters, deg, lvl, scale)
		judge("NewCiphertext", a, deg, lvl, scale)
		for i, v := range a.Value {
			for j := range v.Coeffs {
				for _, x := range v.Coeffs[j] {
					if x != 0 {
						c.Fatalf("NewCiphertext: polynomial %d is not zero", i)
					}
				}
			}
		}
		prng, err := utils.NewKeyedPRNG([]byte{byte(c.Uni(0, 255, "key"))})
		if err != nil {
			c.Fatalf("NewKeyedPRNG: %v", err)
		}
		b := ckks.NewCiphertextRandom(prng, p.Parameters, deg, lvl, scale)
		judge("NewCiphertextRandom", b, deg, lvl, scale)
		if vh.Same(b.Value[0], a.Value[0]) || deg > 0 && vh.Same(b.Value[0], b.Value[1]) {
			c.Fatalf("NewCiphertextRandom: zero or repeated polynomials")
		}
		// copies
		d := b.CopyNew()
		snap := clone(b)
		if x := differs(d, snap); x != "" {
			c.Fatalf("CopyNew: %s", x)
		}
		for _, v := range d.Value {
			vh.Fill(r, v, p.Q(), "max")
		}
		d.SetScalingFactor(scale * 3)
		if d.ScalingFactor() != scale*3 || d.Scale != scale*3 {
			c.Fatalf("SetScalingFactor(%g): scale %g", scale*3, d.Scale)
		}
		if x := differs(b, snap); x != "" {
			c.Fatalf("CopyNew shares memory: %s", x)
		}
		e := random(c, p, r, deg, lvl, 7)
		e.Copy(b)
		if x := differs(e, snap); x != "" {
			c.Fatalf("Copy: %s", x)
		}
		for _, v := range e.Value {
			vh.Fill(r, v, p.Q(), "max")
		}
		if x := differs(b, snap); x != "" {
			c.Fatalf("Copy shares memory: %s", x)
		}
		b.Copy(b)
		if x := differs(b, snap); x != "" {
			c.Fatalf("Copy onto itself: %s", x)
		}
		// degrees
		to := c.Uni(0, 3, "to")
		b.Resize(p.RP.Parameters, to)
		judge("Resize", b, to, lvl, scale)
		for i, v := range b.Value {
			if i <= deg && !vh.Same(v, snap.Value[i]) {
				c.Fatalf("Resize from %d to %d: polynomial %d changed", deg, to, i)
			}
			for j := range v.Coeffs {
				for _, x := range v.Coeffs[j] {
					if i > deg && x != 0 {
						c.Fatalf("Resize from %d to %d: new polynomial %d is not zero", deg, to, i)
					}
				}
			}
		}
		rc := rlwe.NewCiphertext(p.RP.Parameters, deg, lvl)
		rn := rlwe.NewCiphertextNTT(p.RP.Parameters, deg, lvl)
		for _, x := range []*rlwe.Ciphertext{rc, rn} {
			x.Resize(p.RP.Parameters, to)
			if x.Degree() != to || x.Level() != lvl {
				c.Fatalf("NewCiphertext of degree %d level %d, Resize %d: degree %d, level %d", deg, lvl, to, x.Degree(), x.Level())
			}
			for i, v := range x.Value {
				if v.IsNTT != (x == rn) || len(v.Coeffs) != lvl+1 {
					c.Fatalf("Resize from degree %d to %d: polynomial %d has IsNTT %v and %d limbs", deg, to, i, v.IsNTT, len(v.Coeffs))
				}
			}
		}
		// from polynomials
		full := random(c, p, r, 1, c.Uni(lvl, p.MaxLevel(), "full"), 1)
		f := ckks.NewCiphertextAtLevelFromPoly(lvl, [2]*ring.Poly{full.Value[0], full.Value[1]})
		judge("NewCiphertextAtLevelFromPoly", f, 1, lvl, f.Scale)
		for i := range f.Value {
			if &f.Value[i].Coeffs[lvl][0] != &full.Value[i].Coeffs[lvl][0] {
				c.Fatalf("NewCiphertextAtLevelFromPoly does not use the polynomials it was given")
			}
		}
		pt := ckks.NewPlaintext(p.Parameters, lvl, scale)
		if pt.Level() != lvl || pt.Scale != scale || pt.ScalingFactor() != scale || pt.Degree() != 0 || !pt.Value.IsNTT || pt.El().Degree() != 0 || pt.El().Value[0] != pt.Value {
			c.Fatalf("NewPlaintext(%d, %g): level %d scale %g degree %d", lvl, scale, pt.Level(), pt.Scale, pt.Degree())
		}
		pt.SetScalingFactor(scale / 3)
		if pt.ScalingFactor() != scale/3 {
			c.Fatalf("SetScalingFactor(%g): scale %g", scale/3, pt.Scale)
		}
		pf := ckks.NewPlaintextAtLevelFromPoly(lvl, full.Value[0])
		if pf.Level() != lvl || !pf.Value.IsNTT || &pf.Value.Coeffs[0][0] != &full.Value[0].Coeffs[0][0] {
			c.Fatalf("NewPlaintextAtLevelFromPoly: level %d", pf.Level())
		}
		c.NonTrivial(true)
	})
}
