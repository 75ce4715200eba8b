package c21

import (
	"math"
	"math/big"
	"math/cmplx"
	"testing"

	"fast-ksw/ckks"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"vharness/vh"
)

// ---- reference arithmetic -------------------------------------------------------------------------------------------

func flt(prec uint, x float64) *big.Float { return new(big.Float).SetPrec(prec).SetFloat64(x) }

// cosSin is a Taylor evaluation with guard bits after argument halving.
func cosSin(x *big.Float, prec uint) (cos, sin *big.Float) {
	w := prec + 160
	y := new(big.Float).SetPrec(w).Set(x)
	k := 24
	y.SetMantExp(y, -k)
	c, s := flt(w, 1), new(big.Float).SetPrec(w).Set(y)
	term := new(big.Float).SetPrec(w).Set(y)
	for n := 2; ; n++ {
		term.Mul(term, y)
		term.Quo(term, flt(w, float64(n)))
		t := new(big.Float).SetPrec(w).Set(term)
		if n%4 >= 2 {
			t.Neg(t)
		}
		if n%2 == 0 {
			c.Add(c, t)
		} else {
			s.Add(s, t)
		}
		if term.Sign() == 0 || term.MantExp(nil) < -int(w) {
			break
		}
	}
	for ; k > 0; k-- { // double the angle
		c2 := new(big.Float).SetPrec(w).Mul(s, s)
		c2.Mul(c2, flt(w, 2)).Sub(flt(w, 1), c2)
		s.Mul(s, c).Mul(s, flt(w, 2))
		c = c2
	}
	return c, s
}

var pis = map[uint]*big.Float{}

// pi by Machin's formula.
func pi(prec uint) *big.Float {
	if p, ok := pis[prec]; ok {
		return p
	}
	w := prec + 200
	atan := func(inv int64) *big.Float {
		one := new(big.Int).Lsh(big.NewInt(1), w)
		term := new(big.Int).Quo(one, big.NewInt(inv))
		sum := new(big.Int).Set(term)
		sq := big.NewInt(inv * inv)
		for n := int64(3); term.Sign() != 0; n += 2 {
			term.Quo(term, sq)
			t := new(big.Int).Quo(term, big.NewInt(n))
			if n%4 == 3 {
				t.Neg(t)
			}
			sum.Add(sum, t)
		}
		f := new(big.Float).SetPrec(w).SetInt(sum)
		return f.SetMantExp(f, -int(w))
	}
	p := atan(5)
	p.Mul(p, flt(w, 4)).Sub(p, atan(239)).Mul(p, flt(w, 4))
	pis[prec] = p
	return p
}

type rootKey struct {
	m    int
	prec uint
}

var rootCache = map[rootKey][][2]*big.Float{}

func roots(m int, prec uint) [][2]*big.Float {
	k := rootKey{m, prec}
	if r, ok := rootCache[k]; ok {
		return r
	}
	r := make([][2]*big.Float, m)
	p := pi(prec)
	for i := range r {
		a := new(big.Float).SetPrec(prec+160).Mul(p, flt(prec+160, 2*float64(i)/float64(m))) // m is a power of two
		c, s := cosSin(a, prec)
		r[i] = [2]*big.Float{c, s}
	}
	rootCache[k] = r
	return r
}

// absErr returns log2 |a-b| (or -infinity).
func log2diff(a, b *big.Float) float64 {
	d := new(big.Float).SetPrec(4000).Sub(a, b)
	return log2abs(d)
}

func log2abs(d *big.Float) float64 {
	if d.Sign() == 0 {
		return math.Inf(-1)
	}
	m := new(big.Float)
	e := d.MantExp(m)
	f, _ := m.Float64()
	return float64(e) + math.Log2(math.Abs(f))
}

// guard is the slack, in bits, of a result at precision prec that is computed through Cos: a few rounding units per
// iteration.
func guard(prec uint) float64 { return math.Log2(float64(prec)) + 9 }

func bigFloat(c *vh.C, r *vh.Rand, prec uint, label string) *big.Float {
	f := new(big.Float).SetPrec(prec)
	x := new(big.Int)
	for i := uint(0); i <= prec/64; i++ {
		x.Lsh(x, 64).Or(x, new(big.Int).SetUint64(r.Uint64()))
	}
	switch r.IntN(8) {
	case 0:
		x.SetInt64(0)
	case 1:
		x.SetInt64(1)
	case 2:
		x.Rsh(x, uint(r.IntN(x.BitLen()+1)))
	}
	f.SetInt(x)
	if f.Sign() != 0 {
		f.SetMantExp(f, -int(prec)+r.IntN(40)-20)
	}
	if r.IntN(2) == 0 {
		f.Neg(f)
	}
	return f
}

// ---- complex arithmetic ---------------------------------------------------------------------------------------------

func TestComplex(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 3000, Thorough: 150000,
		Rule: "the output aliases an operand, or the multiplier was used before at another precision"}, func(c *vh.C) {
		r := c.Rng("values")
		mul := ring.NewComplexMultiplier()
		reps := c.Uni(1, 4, "reps")
		last := uint(0)
		for k := 0; k < reps; k++ {
			prec := uint(c.PickInt("prec", 24, 53, 64, 100, 200, 1000))
			mk := func(l string) *ring.Complex {
				return ring.NewComplex(bigFloat(c, r, prec, l), bigFloat(c, r, prec, l))
			}
			a, b := mk("a"), mk("b")
			op := c.Pick("op", "Add", "Sub", "Mul", "Div")
			if op == "Div" && b[0].Sign() == 0 && b[1].Sign() == 0 {
				b[0].SetFloat64(.75)
			}
			alias := c.Pick("alias", "none", "a", "b", "ab", "all")
			c.NonTrivial(alias != "none" || last != 0 && last != prec)
			last = prec
			if alias == "ab" || alias == "all" {
				b = a
				if op == "Div" && b[0].Sign() == 0 && b[1].Sign() == 0 {
					b[0].SetFloat64(.75)
				}
			}
			w := uint(4000)
			ex := func(f *big.Float) *big.Float { return new(big.Float).SetPrec(w).Set(f) }
			a0, a1, b0, b1 := ex(a[0]), ex(a[1]), ex(b[0]), ex(b[1])
			nw := func() *big.Float { return new(big.Float).SetPrec(w) }
			var w0, w1 *big.Float
			norm := func(x, y *big.Float) float64 { return math.Max(log2abs(x), log2abs(y)) }
			var bound float64
			switch op {
			case "Add":
				w0, w1 = nw().Add(a0, b0), nw().Add(a1, b1)
			case "Sub":
				w0, w1 = nw().Sub(a0, b0), nw().Sub(a1, b1)
			case "Mul":
				w0 = nw().Sub(nw().Mul(a0, b0), nw().Mul(a1, b1))
				w1 = nw().Add(nw().Mul(a0, b1), nw().Mul(a1, b0))
				bound = norm(a0, a1) + norm(b0, b1) + 3
			case "Div":
				d := nw().Add(nw().Mul(b0, b0), nw().Mul(b1, b1))
				w0 = nw().Quo(nw().Add(nw().Mul(a0, b0), nw().Mul(a1, b1)), d)
				w1 = nw().Quo(nw().Sub(nw().Mul(a1, b0), nw().Mul(a0, b1)), d)
				bound = norm(a0, a1) - norm(b0, b1) + 5
			}
			out := ring.NewComplex(nil, nil)
			switch alias {
			case "a", "all":
				out = a
			case "b":
				out = b
			default:
				if c.Bool("oldout") {
					out = mk("old")
				}
			}
			switch op {
			case "Add":
				out.Add(a, b)
			case "Sub":
				out.Sub(a, b)
			case "Mul":
				mul.Mul(a, b, out)
			case "Div":
				mul.Div(a, b, out)
			}
			for i, want := range []*big.Float{w0, w1} {
				lim := bound
				if op == "Add" || op == "Sub" {
					lim = log2abs(want)
				}
				if d := log2diff(out[i], want); d > lim-float64(prec) {
					c.Fatalf("%s at precision %d (aliasing %s, use %d of the multiplier): part %d of %v %v op %v %v is %v, want %v (off by 2^%.1f, allowed 2^%.1f)",
						op, prec, alias, k, i, a0.Text('g', 10), a1.Text('g', 10), b0.Text('g', 10), b1.Text('g', 10), out[i].Text('g', 30), want.Text('g', 30), d, lim-float64(prec))
				}
			}
			if out != a && (a[0].Cmp(a0) != 0 || a[1].Cmp(a1) != 0) || out != b && (b[0].Cmp(b0) != 0 || b[1].Cmp(b1) != 0) {
				c.Fatalf("%s changed an operand (aliasing %s)", op, alias)
			}
			cp := out.Copy()
			set := mk("set")
			set.Set(out)
			for _, x := range []*ring.Complex{cp, set} {
				if x.Real().Cmp(out.Real()) != 0 || x.Imag().Cmp(out.Imag()) != 0 {
					c.Fatalf("Copy or Set of %v gives %v", out, x)
				}
				x[0].SetFloat64(7)
				x[1].SetFloat64(7)
			}
			g := out.Float64()
			f0, _ := out[0].Float64()
			f1, _ := out[1].Float64()
			if out[0].Cmp(cpOf(out[0])) != 0 || g != complex(f0, f1) {
				c.Fatalf("Float64 of %v gives %v", out, g)
			}
			if log2diff(out[0], w0) > bound-float64(prec) && (op == "Mul" || op == "Div") {
				c.Fatalf("writing to a copy changed the original")
			}
		}
	})
}

func cpOf(f *big.Float) *big.Float { return new(big.Float).Copy(f) }

func TestCos(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 1500, Thorough: 40000,
		Rule: "an argument other than zero"}, func(c *vh.C) {
		r := c.Rng("x")
		prec := uint(c.Uni(24, 400, "prec"))
		if c.Chance(1, 10, "bigprec") {
			prec = uint(c.Uni(400, 2000, "precv"))
		}
		x := bigFloat(c, r, prec, "x")
		switch c.Uni(0, 3, "kind") {
		case 0: // any angle of a turn, as the encoder uses it
			m := 1 << uint(c.Uni(2, 12, "m"))
			x.Mul(pi(prec), flt(prec+60, 2*float64(r.IntN(m+1))/float64(m)))
			if r.IntN(2) == 0 {
				x.Sub(new(big.Float).SetPrec(prec).Quo(pi(prec), flt(prec, 2)), x)
			}
		case 1:
			x.SetFloat64(r.Float(2 * math.Pi))
		}
		for log2abs(x) > 2.7 {
			x.SetMantExp(x, -1)
		}
		c.NonTrivial(x.Sign() != 0)
		keep := cpOf(x)
		got := ring.Cos(x)
		want, _ := cosSin(keep, prec)
		if d := log2diff(got, want); d > guard(prec)-float64(prec) {
			c.Fatalf("Cos(%s) at precision %d is off by 2^%.1f", keep.Text('g', 30), prec, d)
		}
		if x.Cmp(keep) != 0 {
			c.Fatalf("Cos changed its argument")
		}
		f := ring.NewFloat(r.Float(10), int(prec))
		if f.Prec() != prec {
			c.Fatalf("NewFloat(%d bits) has precision %d", prec, f.Prec())
		}
	})
}

// ---- encoder --------------------------------------------------------------------------------------------------------

func draw(c *vh.C) (vh.CK, uint) {
	o := vh.RO{LogNLo: 4, LogNHi: 6, QLo: 1, QHi: 8, PLo: 0, PHi: 1, BitsLo: 30, BitsHi: 61}
	if c.Bool("big") {
		o.BitsLo = 55
	}
	return c.CKKS(o, 1, "params"), uint(c.PickInt("prec", 64, 80, 100, 128, 200, 256, 300, 512))
}

type encKey struct {
	q    uint64
	n    int
	k    int
	prec uint
}

func newEncoder(p vh.CK, prec uint) ckks.EncoderBigComplex {
	return ckks.NewEncoderBigComplex(p.Parameters, int(prec))
}

// eval evaluates sum a_i zeta^(i 5^j), zeta of order m, with complex coefficients.
func eval(re, im []*big.Float, m, j int, prec uint) (x, y *big.Float) {
	rt := roots(m, prec)
	w := prec + 160
	x, y = new(big.Float).SetPrec(w), new(big.Float).SetPrec(w)
	g := 1
	for ; j > 0; j-- {
		g = g * 5 % m
	}
	t := new(big.Float).SetPrec(w)
	for i, k := 0, 0; i < len(re); i, k = i+1, (k+g)%m {
		x.Add(x, t.Mul(re[i], rt[k][0]))
		y.Add(y, t.Mul(re[i], rt[k][1]))
		if im != nil {
			x.Sub(x, t.Mul(im[i], rt[k][1]))
			y.Add(y, t.Mul(im[i], rt[k][0]))
		}
	}
	return
}

func vec(r *vh.Rand, n int, prec uint, kind string) (v []*ring.Complex) {
	for i := 0; i < n; i++ {
		f := func() *big.Float {
			x := new(big.Int)
			for k := uint(0); k <= prec/64; k++ {
				x.Lsh(x, 64).Or(x, new(big.Int).SetUint64(r.Uint64()))
			}
			y := new(big.Float).SetPrec(prec).SetInt(x)
			y.SetMantExp(y, -x.BitLen())
			if kind == "mixed" {
				y.SetMantExp(y, -r.IntN(60))
			}
			if kind == "zero" || kind == "last" && i < n-1 {
				y.SetFloat64(0)
			}
			if r.IntN(2) == 0 {
				y.Neg(y)
			}
			return y
		}
		v = append(v, ring.NewComplex(f(), f()))
	}
	return
}

func copyVec(v []*ring.Complex) (w []*ring.Complex) {
	for _, z := range v {
		w = append(w, z.Copy())
	}
	return
}

func TestFFT(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 120, Thorough: 6000,
		Rule: "at least four values"}, func(c *vh.C) {
		p, prec := draw(c)
		r := c.Rng("values")
		enc := newEncoder(p, prec)
		logSlots := c.Uni(0, p.MaxLogSlots(), "logSlots")
		n := 1 << uint(logSlots)
		c.NonTrivial(n >= 4)
		extra := 0
		if c.Bool("longer") {
			extra = c.Uni(0, 4, "extra")
		}
		v := vec(r, n+extra, prec, c.Pick("kind", "uniform", "mixed", "last"))
		v0 := copyVec(v)
		inv := c.Bool("inverse first")
		if inv {
			enc.InvFFT(v, n)
		} else {
			enc.FFT(v, n)
		}
		// the definition: FFT maps the coefficients c_i to sum_i c_i zeta^(i 5^j), zeta of order 4n
		in, out := v0, v
		if inv {
			in, out = v, v0
		}
		re, im := make([]*big.Float, n), make([]*big.Float, n)
		for i := range re {
			re[i], im[i] = in[i][0], in[i][1]
		}
		lim := guard(prec) - float64(prec) + 2*float64(logSlots) + 4
		for j := 0; j < n; j++ {
			x, y := eval(re, im, 4*n, j, prec)
			if d := math.Max(log2diff(x, out[j][0]), log2diff(y, out[j][1])); d > lim {
				c.Fatalf("FFT (inverse %v) of %d values at precision %d: value %d is off by 2^%.1f", inv, n, prec, j, d)
			}
		}
		if inv {
			enc.FFT(v, n)
		} else {
			enc.InvFFT(v, n)
		}
		for j := range v {
			if d := math.Max(log2diff(v[j][0], v0[j][0]), log2diff(v[j][1], v0[j][1])); d > lim {
				c.Fatalf("transform and inverse (inverse first: %v) of %d of %d values at precision %d: value %d is off by 2^%.1f", inv, n, len(v), prec, j, d)
			}
		}
	})
}

func TestEncode(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 200, Thorough: 8000,
		Rule: "more than one slot, non-zero values and a second encoding or decoding with the same encoder"}, func(c *vh.C) {
		p, prec := draw(c)
		R := p.RingQ()
		r := c.Rng("values")
		enc := newEncoder(p, prec)
		std := ckks.NewEncoder(p.Parameters)
		var pt *ckks.Plaintext
		reps := c.Uni(1, 3, "reps")
		for k := 0; k < reps; k++ {
			level := c.Uni(0, p.MaxLevel(), "level")
			logSlots := c.Uni(0, p.MaxLogSlots(), "logSlots")
			n := 1 << uint(logSlots)
			max := p.QLvl(level).BitLen() - 4
			if max > 1000 { // within float64
				max = 1000
			}
			e := c.Uni(0, max, "scaleexp")
			if c.Bool("topscale") {
				e = max
			}
			scale := math.Exp2(float64(e))
			if e < 1000 && c.Bool("odd") {
				scale *= 1 - r.Float64()/3
			}
			kind := c.Pick("kind", "uniform", "mixed", "zero", "last")
			c.NonTrivial(n > 1 && kind != "zero" && reps > 1)
			v := vec(r, n, prec, kind)
			v0 := copyVec(v)
			if c.Chance(1, 3, "earlier") { // the same vector with other contents
				v[0][0].Add(v[0][0], big.NewFloat(0.5))
				vh.Panics(func() { enc.Encode(v, ckks.NewPlaintext(p.Parameters, level, scale), logSlots) })
				v[0][0].Set(v0[0][0])
			}
			if pt != nil && pt.Level() == level && c.Bool("reuse") {
				pt.Scale = scale
				enc.Encode(v, pt, logSlots)
			} else if c.Bool("new") {
				pt = enc.EncodeNew(v, level, scale, logSlots)
			} else {
				pt = ckks.NewPlaintext(p.Parameters, level, scale)
				vh.Fill(r, pt.Value, p.Q(), "uniform")
				pt.Value.IsNTT = c.Bool("ntt")
				enc.Encode(v, pt, logSlots)
			}
			if !pt.Value.IsNTT || pt.Level() != level || pt.Scale != scale {
				c.Fatalf("encoding has NTT %v, level %d, scale %g", pt.Value.IsNTT, pt.Level(), pt.Scale)
			}
			for i := range v {
				if v[i][0].Cmp(v0[i][0]) != 0 || v[i][1].Cmp(v0[i][1]) != 0 {
					c.Fatalf("Encode changed value %d", i)
				}
			}
			ints := vh.PtInts(R, pt.Value, level, true, false)
			w := uint(p.QLvl(level).BitLen()) + prec + 100
			re := make([]*big.Float, len(ints))
			gap := p.MaxSlots() / n
			for i := range ints {
				re[i] = new(big.Float).SetPrec(w).SetInt(ints[i])
				if i%gap != 0 && ints[i].Sign() != 0 {
					c.Fatalf("coefficient %d of a plaintext with %d of %d slots is %v", i, n, p.MaxSlots(), ints[i])
				}
			}
			// every coefficient: half a unit, plus the precision of the transform
			lim := func(mult float64) float64 {
				return math.Log2(mult*float64(2*n)*.51 + mult*float64(2*n)*math.Exp2(math.Log2(scale)+guard(prec)-float64(prec)+2*float64(logSlots)+4))
			}
			for j := 0; j < n; j++ {
				x, y := eval(re, nil, p.M, j, uint(p.QLvl(level).BitLen())+prec)
				s := new(big.Float).SetPrec(w).SetFloat64(scale)
				wx, wy := new(big.Float).SetPrec(w).Mul(s, v0[j][0]), new(big.Float).SetPrec(w).Mul(s, v0[j][1])
				if d := math.Max(log2diff(x, wx), log2diff(y, wy)); d > lim(1) {
					c.Fatalf("precision %d, scale 2^%.1f, level %d, %d of %d slots: slot %d of the encoding is off by 2^%.1f, allowed 2^%.1f", prec, math.Log2(scale), level, n, p.MaxSlots(), j, d, lim(1))
				}
			}
			// agrees with the double precision encoder
			f := make([]complex128, n)
			for i := range f {
				f[i] = v0[i].Float64()
			}
			dp := std.EncodeNew(f, level, scale, logSlots)
			dints := vh.PtInts(R, dp.Value, level, true, false)
			for i := range ints {
				d, _ := new(big.Float).SetInt(new(big.Int).Sub(dints[i], ints[i])).Float64()
				if math.Abs(d) > 1.1+scale*0x1p-50*float64(logSlots+4) {
					c.Fatalf("coefficient %d is %v, the double precision encoder gives %v (scale %g)", i, ints[i], dints[i], scale)
				}
			}
			// decode
			if c.Bool("coeffs") {
				R.InvNTTLvl(level, pt.Value, pt.Value)
				pt.Value.IsNTT = false
			}
			snap := vh.Clone(pt.Value)
			ls := c.Uni(logSlots, p.MaxLogSlots(), "dec")
			if c.Chance(1, 3, "earlierdec") {
				vh.Earlier(func() { enc.Decode(pt, ls) }, pt)
			}
			got := enc.Decode(pt, ls)
			if len(got) != 1<<uint(ls) {
				c.Fatalf("Decode of 2^%d slots gives %d", ls, len(got))
			}
			for j := range got {
				x, y := v0[j%n][0], v0[j%n][1]
				if d := math.Max(log2diff(got[j][0], x), log2diff(got[j][1], y)); d > lim(2*float64(len(got)/n))-math.Log2(scale) {
					c.Fatalf("precision %d, scale 2^%.1f, level %d (NTT %v): slot %d of %d decodes off by 2^%.1f", prec, math.Log2(scale), level, pt.Value.IsNTT, j, len(got), d)
				}
			}
			if !vh.Same(snap, pt.Value) {
				c.Fatalf("Decode changed the plaintext")
			}
			for _, z := range got { // results are independent of the encoder
				z[0].SetFloat64(1e9)
				z[1].SetFloat64(-1e9)
			}
			dgot := std.Decode(pt, ls)
			for j := range dgot {
				z := v0[j%n].Float64()
				lim := float64(2*len(dgot))*1.02/scale + 0x1p-48*float64(ls+4)*float64(len(dgot))
				if cmplx.Abs(dgot[j]-z) > lim {
					c.Fatalf("the double precision decoder gives %v in slot %d, want %v", dgot[j], j, z)
				}
			}
		}
	})
}

// TestDecode: decoding an arbitrary polynomial.
func TestDecode(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 200, Thorough: 8000,
		Rule: "level above zero"}, func(c *vh.C) {
		p, prec := draw(c)
		R := p.RingQ()
		r := c.Rng("values")
		level := c.Uni(0, p.MaxLevel(), "level")
		c.NonTrivial(level > 0)
		pt := ckks.NewPlaintext(p.Parameters, level, math.Exp2(float64(c.Uni(0, 100, "scale")))*(1+r.Float64()))
		vh.Fill(r, pt.Value, p.Q(), c.Pick("fill", "uniform", "edge", "zero", "max"))
		pt.Value.IsNTT = c.Bool("ntt")
		ints := vh.PtInts(R, pt.Value, level, pt.Value.IsNTT, false)
		half := new(big.Int).Rsh(p.QLvl(level), 1)
		logSlots := c.Uni(0, p.MaxLogSlots(), "logSlots")
		n := 1 << uint(logSlots)
		gap := p.MaxSlots() / n
		w := uint(p.QLvl(level).BitLen()) + prec + 100
		re := make([]*big.Float, len(ints))
		mag := 0.0
		for i := range ints {
			re[i] = new(big.Float).SetPrec(w)
			if i%gap == 0 {
				if new(big.Int).Abs(ints[i]).Cmp(half) == 0 {
					return
				}
				re[i].SetInt(ints[i])
				mag = math.Max(mag, float64(ints[i].BitLen()))
			}
		}
		enc := newEncoder(p, prec)
		if c.Bool("used") {
			q := ckks.NewPlaintext(p.Parameters, p.MaxLevel(), 1)
			vh.Fill(r, q.Value, p.Q(), "uniform")
			enc.Decode(q, c.Uni(0, p.MaxLogSlots(), "ulogSlots"))
		}
		var got []*ring.Complex
		if c.Bool("public0") {
			got = enc.DecodePublic(pt, logSlots, 0)
		} else {
			got = enc.Decode(pt, logSlots)
		}
		for j := 0; j < n; j++ {
			x, y := eval(re, nil, p.M, j, w)
			s := new(big.Float).SetPrec(w).SetFloat64(pt.Scale)
			x.Quo(x, s)
			y.Quo(y, s)
			lim := mag - math.Log2(pt.Scale) - float64(prec) + guard(prec) + 2*float64(logSlots) + 4
			if d := math.Max(log2diff(x, got[j][0]), log2diff(y, got[j][1])); d > lim {
				c.Fatalf("precision %d, level %d of %d, NTT %v: slot %d of %d is off by 2^%.1f, allowed 2^%.1f", prec, level, p.MaxLevel(), pt.Value.IsNTT, j, n, d, lim)
			}
		}
		// decoding noise
		if c.Chance(1, 4, "noise") {
			sigma := math.Exp2(float64(c.Uni(0, 15, "sigma")))
			noisy := enc.DecodePublic(pt, logSlots, sigma)
			bound := math.Sqrt(2*math.Pi)*sigma + 1
			tol := math.Log2(bound*float64(2*n)/pt.Scale+math.Exp2(mag-math.Log2(pt.Scale)-float64(prec)+guard(prec)+2*float64(logSlots)+4)) + .001
			if 2*bound > math.Exp2(float64(p.QLvl(level).BitLen()-2)) || mag > float64(p.QLvl(level).BitLen()-3) {
				return
			}
			for j := range noisy {
				if d := math.Max(log2diff(noisy[j][0], got[j][0]), log2diff(noisy[j][1], got[j][1])); d > tol {
					c.Fatalf("decoding noise of deviation %g moves slot %d by 2^%.1f, allowed 2^%.1f", sigma, j, d, tol)
				}
			}
		}
	})
	_ = rlwe.MinLogN
}

// A request outside the domain is refused, writes nothing and leaves the encoder usable.
func TestRefusals(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 100, Thorough: 800, Rule: "every case is a request that has to be refused, followed by one that has to work"}, func(c *vh.C) {
		p, prec := draw(c)
		r := c.Rng("values")
		enc := newEncoder(p, prec)
		level := c.Uni(0, p.MaxLevel(), "level")
		pt := ckks.NewPlaintext(p.Parameters, level, 1<<15)
		vh.Fill(r, pt.Value, p.Q(), "uniform")
		pt.Value.IsNTT = c.Bool("ntt")
		snap, ntt := vh.Clone(pt.Value), pt.Value.IsNTT
		logSlots := c.Uni(0, p.MaxLogSlots(), "logSlots")
		n := 1 << uint(logSlots)
		kind := c.Pick("kind", "number", "logSlots", "decode")
		var f func()
		switch kind {
		case "number":
			n = []int{n - 1, n + 1, 0, 2 * n, n / 2}[c.Uni(0, 4, "n")]
		case "logSlots":
			logSlots = p.MaxLogSlots() + 1 + c.Uni(0, 2, "more")
			n = 1 << uint(logSlots)
			if c.Bool("few") {
				n >>= 2
			}
		default:
			logSlots = []int{p.MaxLogSlots() + 1, p.MaxLogSlots() + 2, -1}[c.Uni(0, 2, "bad")]
		}
		v := vec(r, n, prec, "uniform")
		switch {
		case kind == "decode" && c.Bool("public"):
			f = func() { enc.DecodePublic(pt, logSlots, 0) }
		case kind == "decode":
			f = func() { enc.Decode(pt, logSlots) }
		case c.Bool("new"):
			f = func() { enc.EncodeNew(v, level, 1<<15, logSlots) }
		default:
			f = func() { enc.Encode(v, pt, logSlots) }
		}
		c.NonTrivial(true)
		c.Class("%s", kind)
		if vh.Panics(f) == "" {
			c.Fatalf("a request with wrong %s (%d values, 2^%d slots of at most 2^%d) is accepted", kind, n, logSlots, p.MaxLogSlots())
		}
		if !vh.Same(pt.Value, snap) || pt.Value.IsNTT != ntt || pt.Scale != 1<<15 {
			c.Fatalf("a request with wrong %s is refused, but changes the plaintext", kind)
		}
		logSlots = c.Uni(0, p.MaxLogSlots(), "then")
		v = vec(r, 1<<uint(logSlots), prec, "uniform")
		a, b := enc.EncodeNew(v, level, 1<<15, logSlots), newEncoder(p, prec).EncodeNew(v, level, 1<<15, logSlots)
		if !vh.Same(a.Value, b.Value) {
			c.Fatalf("after a refused request (%s), the encoder encodes differently from a new one", kind)
		}
	})
}
