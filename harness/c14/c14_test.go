package c14

import (
	"fmt"
	"math"
	"math/big"
	"math/cmplx"
	"testing"

	"fast-ksw/ckks"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"vharness/vh"
)

var shape = vh.RO{LogNLo: 4, LogNHi: 7, QLo: 1, QHi: 5, PLo: 1, PHi: 2, BitsLo: 20, BitsHi: 61, CI: true}

func draw(c *vh.C) vh.CK {
	o := shape
	switch c.Uni(0, 3, "shape") {
	case 0:
		o.BitsLo = 55
	case 1:
		o.BitsHi = 40
	}
	if c.Chance(1, 12, "large") {
		o.LogNLo, o.LogNHi = 8, 10
	}
	return c.CKKS(o, 1<<40, "params")
}

// values draws slot values of one kind; all entries are bounded by the returned magnitude.
func values(c *vh.C, r *vh.Rand, n int, real bool) []complex128 {
	v := make([]complex128, n)
	mag := math.Exp2(float64(c.PickInt("magexp", 0, 0, 0, 1, 10, 30, -10, -30)))
	kind := c.Pick("values", "uniform", "spike", "const", "zero", "unit", "mixed", "last")
	for i := range v {
		switch kind {
		case "uniform":
			v[i] = complex(r.Float(mag), r.Float(mag))
		case "const":
			v[i] = complex(mag, -mag)
		case "unit":
			v[i] = cmplx.Rect(mag, r.Float(math.Pi))
		case "mixed":
			v[i] = complex(r.Float(mag)*math.Exp2(-float64(r.IntN(40))), r.Float(mag)*math.Exp2(-float64(r.IntN(40))))
			if r.IntN(4) == 0 {
				v[i] = complex(0, imag(v[i]))
			}
		}
	}
	if n > 0 && kind == "spike" {
		v[r.IntN(n)] = complex(mag, mag/2)
	}
	if n > 0 && kind == "last" {
		v[n-1] = complex(-mag, mag)
	}
	if real {
		for i := range v {
			v[i] = complex(imagless(v[i]), 0)
		}
	}
	return v
}

func imagless(z complex128) float64 { return real(z) }

func maxAbs(v []complex128) (m float64) {
	for _, z := range v {
		m = math.Max(m, cmplx.Abs(z))
	}
	return
}

func log2(x *big.Int) float64 { return float64(x.BitLen() - 1) }

// scaleFor draws a scale for which encodings of values of that magnitude stay below half of the modulus at the level.
func scaleFor(c *vh.C, p vh.CK, level int, mag float64) float64 {
	q := log2(p.QLvl(level)) - 3
	if mag > 0 {
		q -= math.Max(0, math.Log2(mag)+1)
	}
	if q < 1 {
		q = 1
	}
	var e float64
	switch c.Uni(0, 3, "scalekind") {
	case 0:
		e = q
	case 1:
		e = q - 1
	case 2:
		e = math.Min(q, 40)
	default:
		e = float64(c.Uni(0, int(q), "scaleexp"))
	}
	s := math.Exp2(math.Floor(e))
	if e < 900 && c.Bool("oddscale") {
		s *= 1 - c.Rng("scale").Float64()/3
	}
	return s
}

// dirty returns a plaintext that held something else.
func dirty(c *vh.C, r *vh.Rand, p vh.CK, level int, scale float64) *ckks.Plaintext {
	pt := ckks.NewPlaintext(p.Parameters, level, scale)
	if c.Bool("dirty") {
		vh.Fill(r, pt.Value, p.Q(), "uniform")
		pt.Value.IsNTT = c.Bool("dirtyntt")
		if c.Chance(1, 6, "dirtymf") {
			pt.Value.IsMForm = true
		}
	}
	return pt
}

// TestCoeffs: coefficient encoding is the rounding of value*scale modulo each modulus.
func TestCoeffs(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 1200, Thorough: 60000,
		Rule: "some scaled value exceeds one word or the smallest modulus"}, func(c *vh.C) {
		p := draw(c)
		R := p.RingQ()
		level := c.Uni(0, p.MaxLevel(), "level")
		r := c.Rng("values")
		scale := math.Exp2(float64(c.Uni(0, 120, "scale")))
		if c.Bool("odd") {
			scale *= 1 + r.Float64()
		}
		n := R.N
		if c.Bool("partial") {
			n = c.Uni(0, R.N, "n")
		}
		v := make([]float64, n)
		nt := false
		for i := range v {
			switch r.IntN(7) {
			case 0:
				v[i] = 0
			case 1: // exactly at or next to a power of two
				v[i] = math.Ldexp(1+float64(r.IntN(3)-1)*0x1p-52, r.IntN(70)) / scale
			case 2: // at a modulus
				v[i] = float64(R.Modulus[r.IntN(level+1)]) * float64(1+r.IntN(3)) / scale
			case 3: // near a half
				v[i] = (float64(r.IntN(1000)) + .5 + float64(r.IntN(3)-1)*0x1p-40) / scale
			case 4:
				v[i] = r.Float(1) / scale
			case 5:
				v[i] = r.Float(math.Exp2(float64(r.IntN(60))))
			default:
				v[i] = r.Float(math.Exp2(float64(r.IntN(90)))) / scale
			}
			if r.IntN(2) == 0 {
				v[i] = -v[i]
			}
			x := math.Abs(v[i] * scale)
			nt = nt || x >= 0x1p63 || x >= float64(R.Modulus[0])
		}
		if n > 0 && c.Bool("edge64") {
			e := c.PickInt("edge", 61, 62, 63, 64, 65)
			scale = math.Exp2(float64(c.Uni(0, 60, "escale")))
			i := r.IntN(n)
			v[i] = math.Ldexp(float64(2*r.IntN(2)-1), e) / scale
			nt = true
		}
		c.NonTrivial(nt)
		keep := append([]float64{}, v...)
		enc := ckks.NewEncoder(p.Parameters)
		var pt *ckks.Plaintext
		if c.Chance(1, 3, "earlier") {
			vh.Earlier(func() { enc.EncodeCoeffs(v, ckks.NewPlaintext(p.Parameters, level, scale)) }, v)
		}
		if c.Bool("new") {
			pt = enc.EncodeCoeffsNew(v, level, scale)
		} else {
			pt = dirty(c, r, p, level, scale)
			pt.Value.IsMForm = false
			enc.EncodeCoeffs(v, pt)
		}
		if pt.Level() != level || pt.Scale != scale || !pt.Value.IsNTT {
			c.Fatalf("plaintext has level %d, scale %g, NTT %v", pt.Level(), pt.Scale, pt.Value.IsNTT)
		}
		rows := vh.CoeffRows(R, pt.Value, level, true, false)
		for i := 0; i < R.N; i++ {
			x := 0.0
			if i < n {
				x = v[i] * scale
				if v[i] != keep[i] {
					c.Fatalf("EncodeCoeffs changed its input")
				}
			}
			w, ulp := rounded(x)
			ok := false
			var got []uint64
			for d := int64(-2); d <= 2 && !ok; d++ {
				if d != 0 && x == 0 {
					continue
				}
				y := new(big.Int).Add(w, new(big.Int).Mul(ulp, big.NewInt(d)))
				ok = true
				got = got[:0]
				for j := 0; j <= level; j++ {
					got = append(got, rows[j][i])
					ok = ok && rows[j][i] == new(big.Int).Mod(y, new(big.Int).SetUint64(R.Modulus[j])).Uint64()
				}
			}
			if !ok {
				c.Fatalf("coefficient %d: %g * %g = %v encoded as %v modulo %v", i, at(keep, i), scale, w, got, R.Modulus[:level+1])
			}
		}
		// and back, if it fits
		half := new(big.Int).Rsh(p.QLvl(level), 1)
		crt := vh.NewCRT(R.Modulus[:level+1])
		ints := crt.Centered(rows)
		if c.Bool("coeffdomain") {
			R.InvNTTLvl(level, pt.Value, pt.Value)
			pt.Value.IsNTT = false
		}
		snap := vh.Clone(pt.Value)
		back := enc.DecodeCoeffs(pt)
		if len(back) != R.N {
			c.Fatalf("DecodeCoeffs gives %d values", len(back))
		}
		for i := range back {
			if new(big.Int).Abs(ints[i]).Cmp(half) == 0 {
				continue
			}
			f, _ := new(big.Float).SetInt(ints[i]).Float64()
			if w := f / scale; math.Abs(back[i]-w) > math.Abs(w)*0x1p-51 {
				c.Fatalf("coefficient %v at scale %g decoded as %g, want %g", ints[i], scale, back[i], w)
			}
		}
		if !vh.Same(snap, pt.Value) {
			c.Fatalf("DecodeCoeffs changed the plaintext")
		}
	})
}

func at(v []float64, i int) float64 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

// rounded gives the integer nearest to x and the rounding unit of x, at least one.
func rounded(x float64) (w, ulp *big.Int) {
	f := new(big.Float).SetPrec(200).SetFloat64(x)
	h := big.NewFloat(.5)
	if x < 0 {
		h = big.NewFloat(-.5)
	}
	w, _ = new(big.Float).SetPrec(200).Add(f, h).Int(nil)
	ulp = big.NewInt(1)
	if x != 0 {
		if e := math.Ilogb(x) - 52; e > 0 {
			ulp.Lsh(ulp, uint(e))
		}
	}
	return
}

// TestSlots: the encoded polynomial takes the values scale*v at the roots zeta^(5^j), whichever entry point made it.
func TestSlots(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 1000, Thorough: 40000,
		Rule: "at least two slots, non-zero values, and sparse packing or fewer values than slots or a reused plaintext"}, func(c *vh.C) {
		p := draw(c)
		R := p.RingQ()
		r := c.Rng("values")
		level := c.Uni(0, p.MaxLevel(), "level")
		logSlots := c.Uni(0, p.MaxLogSlots(), "logSlots")
		if c.Chance(1, 3, "fullslots") {
			logSlots = p.MaxLogSlots()
		}
		slots := 1 << uint(logSlots)
		n := slots
		if c.Bool("partial") {
			n = c.Uni(0, slots, "n")
		}
		v := values(c, r, n, false)
		scale := scaleFor(c, p, level, maxAbs(v))
		for _, z := range v { // all scaled values must fit
			if cmplx.Abs(z)*scale*4 > math.Exp2(log2(p.QLvl(level))) {
				return
			}
		}
		isReal := p.CI || c.Chance(1, 3, "float")
		var in interface{}
		vf := make([]float64, n)
		vc := append([]complex128{}, v...)
		if isReal {
			for i := range v {
				vf[i] = real(v[i])
				v[i] = complex(vf[i], 0) // a conjugate-invariant plaintext drops imaginary parts
			}
		}
		asFloat := isReal && (!p.CI || c.Bool("cifloat"))
		enc := ckks.NewEncoder(p.Parameters)
		if c.Bool("used") { // an encoder with history
			w := values(c, r, p.MaxSlots(), false)
			for i := range w {
				w[i] /= complex(1+cmplx.Abs(w[i]), 0)
			}
			enc.Decode(enc.EncodeNew(w, c.Uni(0, p.MaxLevel(), "ulevel"), 1<<15, p.MaxLogSlots()), c.Uni(0, p.MaxLogSlots(), "udec"))
		}
		if asFloat {
			in = vf
		} else {
			in = vc
		}
		pt := dirty(c, r, p, level, scale)
		if c.Chance(1, 3, "earlier") {
			vh.Earlier(func() {
				switch c.Uni(0, 2, "earlierentry") {
				case 0:
					enc.Encode(in, pt, logSlots)
				case 1:
					enc.EncodeSlots(in, ckks.NewPlaintext(p.Parameters, level, scale), logSlots)
				default:
					enc.Embed(in, logSlots, scale, false, ckks.NewPlaintext(p.Parameters, level, scale).Value)
				}
			}, in)
		}
		entry := c.Pick("entry", "Encode", "EncodeSlots", "EncodeNew", "EncodeSlotsNew", "Embed")
		switch entry {
		case "Encode":
			enc.Encode(in, pt, logSlots)
		case "EncodeSlots":
			enc.EncodeSlots(in, pt, logSlots)
		case "EncodeNew":
			pt = enc.EncodeNew(in, level, scale, logSlots)
		case "EncodeSlotsNew":
			pt = enc.EncodeSlotsNew(in, level, scale, logSlots)
		case "Embed":
			enc.Embed(in, logSlots, scale, false, pt.Value)
		}
		c.Class("%s CI=%v logSlots=%d/%d", entry, p.CI, logSlots, p.MaxLogSlots())
		c.NonTrivial(slots > 1 && maxAbs(v) > 0 && (n < slots || logSlots < p.MaxLogSlots() || entry == "Encode"))
		if !pt.Value.IsNTT || pt.Value.IsMForm || pt.Level() != level || pt.Scale != scale {
			c.Fatalf("%s: NTT %v, Montgomery %v, level %d (want %d), scale %g (want %g)", entry, pt.Value.IsNTT, pt.Value.IsMForm, pt.Level(), level, pt.Scale, scale)
		}
		for i := range vc {
			if asFloat && vf[i] != real(vc[i]) || real(v[i]) != real(vc[i]) {
				c.Fatalf("%s changed its input", entry)
			}
		}
		ints := vh.PtInts(R, pt.Value, level, true, false)
		gap := p.MaxSlots() / slots
		for i := range ints {
			if i%gap != 0 && ints[i].Sign() != 0 {
				c.Fatalf("%s: coefficient %d of a plaintext with %d slots of %d is %v", entry, i, slots, p.MaxSlots(), ints[i])
			}
		}
		// the canonical embedding, by definition
		got := vh.EvalSlots(vh.BigFloats(ints), p.M, slots, p.CI)
		for j := range got {
			var w complex128
			if j < n {
				w = v[j]
			}
			w *= complex(scale, 0)
			d := cmplx.Abs(got[j] - w)
			if d > tol(slots, scale, maxAbs(v)) {
				c.Fatalf("%s (CI %v, %d of %d slots, %d values): slot %d of the encoding is %v, want %v (difference %g > %g)", entry, p.CI, slots, p.MaxSlots(), n, j, got[j], w, d, tol(slots, scale, maxAbs(v)))
			}
		}
		// equivalent entry points, types and levels
		ref := enc.EncodeNew(v, level, scale, logSlots)
		if !vh.SameCoeffs(ref.Value, pt.Value, level) {
			c.Fatalf("%s of %T and EncodeNew of complex values differ", entry, in)
		}
		if l := c.Uni(0, level, "lower"); true {
			low := enc.EncodeNew(in, l, scale, logSlots)
			if !vh.SameCoeffs(low.Value, pt.Value, l) {
				c.Fatalf("encodings at levels %d and %d differ", l, level)
			}
		}
		mont := c.Bool("mont")
		qp := p.RingQP().NewPolyLvl(level, len(p.P())-1)
		if c.Bool("dirtyqp") {
			vh.Fill(r, qp.Q, p.Q(), "uniform")
			vh.Fill(r, qp.P, p.P(), "uniform")
		}
		enc.Embed(in, logSlots, scale, mont, qp)
		m := vh.CoeffRows(R, qp.Q, level, true, mont)
		for i := range m {
			if b := vh.CongVec(m[i], vh.CoeffRows(R, pt.Value, level, true, false)[i], R.Modulus[i]); b >= 0 {
				c.Fatalf("Embed into a PolyQP (montgomery %v) differs from %s in limb %d, coefficient %d", mont, entry, i, b)
			}
		}
		mp := vh.CoeffRows(p.RingP(), qp.P, len(p.P())-1, true, mont)
		for i, pi := range p.P() {
			for j := range mp[i] {
				// both halves are roundings of the same numbers (the integer is below Q/2)
				if w := new(big.Int).Mod(ints[j], new(big.Int).SetUint64(pi)).Uint64(); mp[i][j]%pi != w {
					c.Fatalf("Embed into a PolyQP: coefficient %d is %d modulo the special prime %d, want %d", j, mp[i][j], pi, w)
				}
			}
		}
		single := ring.NewPoly(R.N, level+1)
		enc.Embed(in, logSlots, scale, mont, single)
		if !vh.SameCoeffs(single, qp.Q, level) {
			c.Fatalf("Embed into a Poly and into a PolyQP differ (montgomery %v)", mont)
		}
	})
}

// TestLarge: degrees up to the largest supported ones, with the embedding evaluated at some of the slots.
func TestLarge(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 24, Thorough: 300, Rule: "degree 2^11..2^16 (2^17 in the thorough tier), any number of slots: the definition at 16 slots and decode of encode; non-trivial: at least 2^9 slots"}, func(c *vh.C) {
		hi := 16
		if vh.Thorough() {
			hi = 17
		}
		logN := c.Uni(11, hi, "logN")
		typ, mx := ring.Standard, logN-1
		if c.Bool("ci") {
			typ, mx = ring.ConjugateInvariant, logN
		}
		nq := c.Uni(1, 2, "nq")
		m := c.Moduli(nq+1, 4<<uint(logN), 50, 61, "q")
		rp, err := rlwe.NewParameters(logN, m[:nq], m[nq:], 64, 3.2, typ)
		if err != nil {
			c.Fatalf("NewParameters(logN %d, %v): %v", logN, m, err)
		}
		p, err := ckks.NewParameters(rp, mx, 1<<30)
		if err != nil {
			c.Fatalf("ckks.NewParameters: %v", err)
		}
		logSlots := c.Uni(0, mx, "logSlots")
		if c.Bool("many") {
			logSlots = c.Uni(mx-2, mx, "logSlotsMany")
		}
		slots := 1 << uint(logSlots)
		n := slots
		if c.Chance(1, 3, "partial") {
			n = c.Uni(1, slots, "n")
		}
		r := c.Rng("values")
		v := make([]complex128, n)
		for i := range v {
			v[i] = complex(r.Float(1), r.Float(1))
			if typ == ring.ConjugateInvariant {
				v[i] = complex(real(v[i]), 0)
			}
		}
		scale := math.Exp2(float64(c.Uni(20, 40, "scale")))
		level := c.Uni(0, nq-1, "level")
		c.NonTrivial(slots >= 512)
		c.Class("logN=%d %v", logN, typ)
		c.Note("logN=%d type=%v slots=%d values=%d scale=%g level=%d", logN, typ, slots, n, scale, level)
		enc := ckks.NewEncoder(p)
		pt := enc.EncodeNew(v, level, scale, logSlots)
		x := vh.BigFloats(vh.PtInts(p.RingQ(), pt.Value, level, true, false))
		w := func(j int) (z complex128) {
			if j < n {
				z = v[j]
			}
			return
		}
		M := int(p.RingQ().NthRoot)
		cos, sin := make([]float64, M), make([]float64, M)
		for k := range cos {
			sin[k], cos[k] = math.Sincos(2 * math.Pi * float64(k) / float64(M))
		}
		for i := 0; i < 16; i++ {
			j := c.Uni(0, 63, "slot") * slots / 64
			if c.Bool("lowslot") {
				j = r.IntN(slots)
			}
			g := 1
			for k := 0; k < j; k++ {
				g = g * 5 % M
			}
			var re, im float64
			k := 0
			for i, y := range x {
				if typ == ring.ConjugateInvariant {
					if i > 0 {
						y *= 2
					}
					re += y * cos[k]
				} else {
					re += y * cos[k]
					im += y * sin[k]
				}
				k = (k + g) % M
			}
			if d := cmplx.Abs(complex(re, im) - w(j)*complex(scale, 0)); d > tol(slots, scale, 2) {
				c.Fatalf("slot %d of %d of the encoding: %v, want %v (difference %g > %g)", j, slots, complex(re, im), w(j)*complex(scale, 0), d, tol(slots, scale, 2))
			}
		}
		for j, z := range enc.Decode(pt, logSlots) {
			if d := cmplx.Abs(z-w(j)) * scale; d > 2*tol(slots, scale, 2) {
				c.Fatalf("slot %d of %d decodes to %v, want %v", j, slots, z, w(j))
			}
		}
	})
}

// tol bounds the error of an encoding: every coefficient is rounded by at most one half, plus the double precision error
// of the transform.
func tol(slots int, scale, mag float64) float64 {
	n := float64(2 * slots)
	return n*.51 + n*(math.Log2(n)+4)*scale*mag*0x1p-51 + 0x1p-40
}

// TestDecode: decoding any polynomial evaluates it at the roots, and divides by the scale.
func TestDecode(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 1500, Thorough: 60000,
		Rule: "level above zero, or coefficients close to half of the modulus"}, func(c *vh.C) {
		p := draw(c)
		R := p.RingQ()
		r := c.Rng("values")
		level := c.Uni(0, p.MaxLevel(), "level")
		logSlots := c.Uni(0, p.MaxLogSlots(), "logSlots")
		slots := 1 << uint(logSlots)
		gap := p.MaxSlots() / slots
		Q := p.QLvl(level)
		half := new(big.Int).Rsh(Q, 1)
		bits := c.Uni(1, half.BitLen(), "bits")
		ints := make([]*big.Int, R.N)
		sub := make([]float64, R.N)
		sum := 0.0
		for i := range ints {
			x := new(big.Int)
			for k := 0; k <= bits/64; k++ {
				x.Lsh(x, 64).Or(x, new(big.Int).SetUint64(r.Uint64()))
			}
			x.And(x, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(bits)), big.NewInt(1)))
			if r.IntN(8) == 0 {
				x.Sub(half, big.NewInt(1+int64(r.IntN(3))))
			}
			if x.Cmp(half) >= 0 {
				x.Sub(half, big.NewInt(1))
			}
			if r.IntN(2) == 0 {
				x.Neg(x)
			}
			ints[i] = x
			if i%gap == 0 { // a decoder with fewer slots reads the coefficients of Y = X^gap
				sub[i], _ = new(big.Float).SetInt(x).Float64()
				sum += math.Abs(sub[i])
			}
		}
		if sum > 0x1p990 {
			return
		}
		scale := math.Exp2(float64(c.Uni(0, 200, "scale"))) * (1 + r.Float64())
		ntt := c.Bool("ntt")
		c.NonTrivial(level > 0 || bits == half.BitLen())
		c.Class("level=%d CI=%v ntt=%v", level, p.CI, ntt)
		poly := vh.FromBig(ints, R.Modulus[:level+1])
		if ntt {
			R.NTTLvl(level, poly, poly)
		}
		poly.IsNTT = ntt
		pt := &ckks.Plaintext{Plaintext: &rlwe.Plaintext{Value: poly}, Scale: scale}
		snap := vh.Clone(poly)
		enc := ckks.NewEncoder(p.Parameters)
		if c.Bool("used") {
			enc.DecodeCoeffs(enc.EncodeNew([]complex128{complex(r.Float(1), r.Float(1))}, c.Uni(0, p.MaxLevel(), "ulevel"), 1<<10, 0))
			enc.Decode(enc.EncodeNew([]complex128{1, -1i, 2, 3}, p.MaxLevel(), 1<<10, 3), 3)
		}
		var got []complex128
		if c.Chance(1, 3, "earlier") {
			vh.Earlier(func() { enc.Decode(pt, logSlots) }, pt)
		}
		switch c.Uni(0, 3, "entry") {
		case 0:
			got = enc.Decode(pt, logSlots)
		case 1:
			got = enc.DecodeSlots(pt, logSlots)
		case 2:
			got = enc.DecodePublic(pt, logSlots, 0)
		default:
			got = enc.DecodeSlotsPublic(pt, logSlots, 0)
		}
		if len(got) != slots {
			c.Fatalf("decoding %d slots gives %d values", slots, len(got))
		}
		want := vh.EvalSlots(sub, p.M, slots, p.CI)
		eps := sum / scale * 0x1p-50 * (float64(logSlots) + 4)
		for j := range got {
			w := want[j] / complex(scale, 0)
			if p.CI && imag(got[j]) != 0 && math.Abs(imag(got[j])) > eps {
				c.Fatalf("slot %d of a conjugate-invariant plaintext has imaginary part %g", j, imag(got[j]))
			}
			if d := cmplx.Abs(got[j] - w); !(d <= eps) {
				c.Fatalf("slot %d of %d (max %d) decodes to %v, want %v (difference %g > %g)", j, slots, p.MaxSlots(), got[j], w, d, eps)
			}
		}
		if !vh.Same(poly, snap) || pt.Scale != scale {
			c.Fatalf("decoding changed the plaintext")
		}
	})
}

// TestHistory: a long-lived encoder and a few reused plaintexts over a sequence of operations; every result is bit for bit
// what a new encoder gives, and decoding returns the values.
func TestHistory(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 300, Thorough: 12000,
		Rule: "at least four operations with at least two slot counts or levels"}, func(c *vh.C) {
		p := draw(c)
		r := c.Rng("values")
		enc := ckks.NewEncoder(p.Parameters)
		pts := map[int]*ckks.Plaintext{}
		type held struct {
			v      []complex128
			slots  int
			scale  float64
			coeffs []float64
		}
		now := map[int]*held{}
		kinds := map[string]bool{}
		steps := c.Uni(2, 12, "steps")
		done := 0
		for s := 0; s < steps; s++ {
			level := c.Uni(0, p.MaxLevel(), "level")
			switch op := c.Pick("op", "slots", "slots", "decode", "decode", "coeffs", "err"); op {
			case "slots", "coeffs":
				pt := pts[level]
				if pt == nil {
					pt = ckks.NewPlaintext(p.Parameters, level, 1)
					pts[level] = pt
				}
				logSlots := c.Uni(0, p.MaxLogSlots(), "logSlots")
				n := c.Uni(0, 1<<uint(logSlots), "n")
				if c.Bool("all") {
					n = 1 << uint(logSlots)
				}
				v := values(c, r, n, p.CI)
				pt.Scale = scaleFor(c, p, level, maxAbs(v))
				if maxAbs(v)*pt.Scale*4 > math.Exp2(log2(p.QLvl(level))) {
					for i := range v {
						v[i] = 0
					}
				}
				fresh := ckks.NewPlaintext(p.Parameters, level, pt.Scale)
				if op == "slots" {
					enc.Encode(v, pt, logSlots)
					ckks.NewEncoder(p.Parameters).Encode(v, fresh, logSlots)
					now[level] = &held{v, 1 << uint(logSlots), pt.Scale, nil}
				} else {
					f := make([]float64, n)
					for i := range f {
						f[i] = real(v[i])
					}
					enc.EncodeCoeffs(f, pt)
					ckks.NewEncoder(p.Parameters).EncodeCoeffs(f, fresh)
					now[level] = &held{nil, 0, pt.Scale, f}
				}
				if !vh.Same(pt.Value, fresh.Value) {
					c.Fatalf("step %d: encoding (%s) with a used encoder into a used plaintext differs from a fresh one", s, op)
				}
				kinds[fmt.Sprint(op, logSlots, level)] = true
				done++
			case "decode":
				h := now[level]
				if h == nil {
					continue
				}
				if h.coeffs != nil {
					got := enc.DecodeCoeffs(pts[level])
					for i := range got {
						if d := math.Abs(got[i] - at(h.coeffs, i)); d > .51/h.scale+math.Abs(at(h.coeffs, i))*0x1p-50 {
							c.Fatalf("step %d: coefficient %d decodes to %g, want %g", s, i, got[i], at(h.coeffs, i))
						}
					}
				} else {
					ls := 0
					for 1<<uint(ls) < h.slots {
						ls++
					}
					more := c.Uni(ls, p.MaxLogSlots(), "dec") // decoding more slots repeats the values
					got := enc.Decode(pts[level], more)
					for i := range got {
						var w complex128
						if k := i % h.slots; k < len(h.v) {
							w = h.v[k]
						}
						if d := cmplx.Abs(got[i] - w); d > 2*tol(len(got), h.scale, maxAbs(h.v))/h.scale {
							c.Fatalf("step %d: slot %d (encoded %d slots, decoded %d) is %v, want %v", s, i, h.slots, len(got), got[i], w)
						}
					}
					for i, z := range ckks.NewEncoder(p.Parameters).Decode(pts[level], more) {
						if z != got[i] {
							c.Fatalf("step %d: a used decoder gives %v in slot %d, a new one %v", s, got[i], i, z)
						}
					}
				}
				done++
			case "err":
				n := 1 << uint(c.Uni(0, p.MaxLogSlots(), "errn"))
				a, b := make([]complex128, n), make([]complex128, n)
				for i := range a {
					a[i], b[i] = complex(r.Float(1), r.Float(1)), complex(r.Float(1), r.Float(1))
				}
				enc.GetErrSTDSlotDomain(a, b, 1)
				enc.GetErrSTDCoeffDomain(a, b, 1)
			}
		}
		c.NonTrivial(done >= 4 && len(kinds) > 1)
	})
}

// TestPublic: decoding with noise moves every coefficient by at most the announced bound, with the announced deviation.
func TestPublic(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 60, Thorough: 1500,
		Rule: "a deviation of at least one"}, func(c *vh.C) {
		o := shape
		o.LogNLo, o.LogNHi, o.BitsLo = 8, 11, 40
		p := c.CKKS(o, 1<<30, "params")
		r := c.Rng("values")
		level := c.Uni(0, p.MaxLevel(), "level")
		sigma := math.Exp2(float64(c.Uni(-2, 24, "sigmaexp"))) * (1 + r.Float64())
		bound := math.Floor(math.Sqrt(2*math.Pi) * sigma)
		if bound < 1 {
			sigma, bound = .5, 1
		}
		c.NonTrivial(sigma >= 1)
		scale := math.Exp2(float64(c.Uni(5, 20, "scale")))
		N := p.N()
		pt := ckks.NewPlaintext(p.Parameters, level, scale)
		f := make([]float64, N)
		for i := range f {
			f[i] = float64(r.IntN(1<<20)-1<<19) / scale
		}
		enc := ckks.NewEncoder(p.Parameters)
		enc.EncodeCoeffs(f, pt)
		vh.SeedRandom(r.Uint64())
		defer vh.SeedRandom(1)
		snap := vh.Clone(pt.Value)
		noise := func(e ckks.Encoder) []float64 {
			got := e.DecodeCoeffsPublic(pt, sigma)
			for i := range got {
				d := (got[i] - f[i]) * scale
				if math.Abs(d-math.Round(d)) > 1e-3 || math.Abs(d) > bound+1e-3 {
					c.Fatalf("sigma %g: coefficient %d moved by %g, more than %g", sigma, i, d, bound)
				}
				got[i] = math.Round(d)
			}
			return got
		}
		a, b := noise(enc), noise(ckks.NewEncoder(p.Parameters))
		differ := 0
		var s1, s2 float64
		for i := range a {
			if a[i] != b[i] {
				differ++
			}
			s1 += a[i] + b[i]
			s2 += a[i]*a[i] + b[i]*b[i]
		}
		if sigma >= 1 && differ < N/8 {
			c.Fatalf("sigma %g: two decodings differ in only %d of %d coefficients", sigma, differ, N)
		}
		if sigma >= 4 {
			// standard deviation of a normal truncated at sqrt(2 pi) sigma
			x := bound / sigma
			phi := math.Exp(-x*x/2) / math.Sqrt(2*math.Pi)
			z := math.Erf(x / math.Sqrt2)
			want := sigma * math.Sqrt(1-2*x*phi/z)
			n := float64(2 * N)
			got := math.Sqrt(s2 / n)
			if math.Abs(got-want) > want*8/math.Sqrt(2*n)+.2 {
				c.Fatalf("sigma %g: measured deviation %g over %d draws, want %g", sigma, got, 2*N, want)
			}
			if math.Abs(s1/n) > 8*want/math.Sqrt(n) {
				c.Fatalf("sigma %g: measured mean %g over %d draws", sigma, s1/n, 2*N)
			}
		}
		// slots: the noise is that of the coefficients, seen through the embedding
		slots := p.MaxSlots()
		clean := enc.Decode(pt, p.MaxLogSlots())
		noisy := enc.DecodePublic(pt, p.MaxLogSlots(), sigma)
		diff := make([]complex128, slots)
		for j := range diff {
			diff[j] = noisy[j] - clean[j]
		}
		moved := false
		for i, x := range vh.PtInts(p.RingQ(), enc.EncodeNew(diff, level, scale, p.MaxLogSlots()).Value, level, true, false) {
			moved = moved || x.Sign() != 0
			if f, _ := new(big.Float).SetInt(x).Float64(); math.Abs(f) > bound+math.Exp2(-20)*scale {
				c.Fatalf("sigma %g: the noise on coefficient %d of the decoded slots is %v, more than %g", sigma, i, x, bound)
			}
		}
		if !moved && sigma >= 1 {
			c.Fatalf("DecodePublic adds no noise")
		}
		s2 = 0
		for j := range noisy {
			d := noisy[j] - clean[j]
			if p.CI && math.Abs(imag(noisy[j])) > 1e-6*(1+cmplx.Abs(noisy[j])) {
				c.Fatalf("imaginary part %g in the conjugate-invariant ring", imag(noisy[j]))
			}
			s2 += real(d)*real(d) + imag(d)*imag(d)
		}
		if sigma >= 4 {
			x := bound / sigma
			phi := math.Exp(-x*x/2) / math.Sqrt(2*math.Pi)
			tr := math.Sqrt(1 - 2*x*phi/math.Erf(x/math.Sqrt2))
			k := 2.0 // |value|^2 expectation per slot: N coefficients of variance sigma^2, or 2N for the doubled terms
			if !p.CI {
				k = 1
			}
			want := tr * sigma / scale * math.Sqrt(k*float64(N))
			got := math.Sqrt(s2 / float64(slots))
			if got < want*.5 || got > want*1.7 {
				c.Fatalf("sigma %g: slot deviation %g, want about %g", sigma, got, want)
			}
		}
		if !vh.Same(snap, pt.Value) {
			c.Fatalf("decoding with noise changed the plaintext")
		}
	})
}

// TestErrSTD: the error statistics are those of the slot and coefficient differences.
func TestErrSTD(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 300, Thorough: 10000,
		Rule: "at least four values"}, func(c *vh.C) {
		p := c.CKKS(vh.RO{LogNLo: 4, LogNHi: 8, QLo: 1, QHi: 2, PLo: 0, PHi: 1, BitsLo: 30, BitsHi: 50}, 1, "params")
		r := c.Rng("values")
		enc := ckks.NewEncoder(p.Parameters)
		n := 1 << uint(c.Uni(0, p.MaxLogSlots(), "n"))
		c.NonTrivial(n >= 4)
		a, b := make([]complex128, n), make([]complex128, n)
		for i := range a {
			a[i] = complex(r.Float(10), r.Float(10))
			b[i] = a[i] + complex(r.Float(.1), r.Float(.1))
		}
		scale := math.Exp2(float64(c.Uni(0, 60, "scale")))
		std := func(v []float64) float64 {
			m, s := 0.0, 0.0
			for _, x := range v {
				m += x / float64(len(v))
			}
			for _, x := range v {
				s += (x - m) * (x - m)
			}
			return math.Sqrt(s/float64(len(v))) * scale
		}
		var d []float64
		for i := range a {
			d = append(d, real(a[i]-b[i]), imag(a[i]-b[i]))
		}
		if w, g := std(d), enc.GetErrSTDSlotDomain(a, b, scale); math.Abs(w-g) > w*1e-9 {
			c.Fatalf("GetErrSTDSlotDomain=%g want %g", g, w)
		}
		if w, g := std(d), ckks.StandardDeviation(d, scale); math.Abs(w-g) > w*1e-9 {
			c.Fatalf("StandardDeviation=%g want %g", g, w)
		}
		// coefficients of the polynomial over the ring with n slots, by inverting the embedding from its definition:
		// c_i = 1/n sum_j Re(z_j conj(zeta^(i 5^j)))
		co := make([]float64, 2*n)
		g := 1
		for j := 0; j < n; j++ {
			z := a[j] - b[j]
			for i := range co {
				co[i] += real(z*cmplx.Conj(cmplx.Rect(1, 2*math.Pi*float64(i*g%(4*n))/float64(4*n)))) / float64(n)
			}
			g = g * 5 % (4 * n)
		}
		if w, gg := std(co), enc.GetErrSTDCoeffDomain(a, b, scale); math.Abs(w-gg) > w*1e-6 {
			c.Fatalf("GetErrSTDCoeffDomain=%g want %g", gg, w)
		}
	})
}

// TestRefusals: a request outside the domain is refused, writes nothing and leaves the encoder usable.
func TestRefusals(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 600, Thorough: 4000, Rule: "every case is a request that has to be refused, followed by one that has to work"}, func(c *vh.C) {
		p := draw(c)
		r := c.Rng("values")
		enc := ckks.NewEncoder(p.Parameters)
		level := c.Uni(0, p.MaxLevel(), "level")
		pt := dirty(c, r, p, level, 1<<15)
		before, ntt, mf := vh.Clone(pt.Value), pt.Value.IsNTT, pt.Value.IsMForm
		logSlots := c.Uni(0, p.MaxLogSlots(), "logSlots")
		n := c.Uni(0, 1<<uint(logSlots), "n")
		var in interface{}
		var v []complex128
		mk := func(n int) {
			v = make([]complex128, n)
			f := make([]float64, n)
			for i := range v {
				f[i] = r.Float(1)
				v[i] = complex(f[i], r.Float(1))
			}
			in = v
			if c.Bool("float") {
				in = f
			}
		}
		mk(n)
		kind := c.Pick("kind", "logSlots", "many", "type", "out", "coeffs", "decode")
		switch kind {
		case "logSlots", "decode":
			logSlots = []int{p.MaxLogSlots() + 1, p.MaxLogSlots() + 2, p.LogN() + 2, 62, -1, -5}[c.Uni(0, 5, "bad")]
		case "many":
			mk(1<<uint(logSlots) + c.Uni(1, 3, "more"))
		case "type":
			in = []interface{}{nil, []int{1}, []float32{1}, "1", 1.5, []uint64{1, 2}, pt, &v}[c.Uni(0, 7, "what")]
		case "coeffs":
			f := make([]float64, p.N()+c.Uni(1, 3, "more"))
			in = f
		}
		var f func()
		entry := c.Pick("entry", "Encode", "EncodeSlots", "EncodeNew", "EncodeSlotsNew", "Embed")
		switch {
		case kind == "decode":
			entry = c.Pick("dentry", "Decode", "DecodeSlots", "DecodePublic", "DecodeSlotsPublic")
			if entry == "Decode" {
				f = func() { enc.Decode(pt, logSlots) }
			} else if entry == "DecodeSlots" {
				f = func() { enc.DecodeSlots(pt, logSlots) }
			} else if entry == "DecodePublic" {
				f = func() { enc.DecodePublic(pt, logSlots, 0) }
			} else {
				f = func() { enc.DecodeSlotsPublic(pt, logSlots, 0) }
			}
		case kind == "coeffs":
			entry = "EncodeCoeffs"
			f = func() { enc.EncodeCoeffs(in.([]float64), pt) }
			if c.Bool("new") {
				f = func() { enc.EncodeCoeffsNew(in.([]float64), level, 1<<15) }
			}
		case kind == "out":
			entry = "Embed"
			var o interface{} = []interface{}{nil, pt, *pt.Value, []uint64{1}}[c.Uni(0, 3, "what")]
			f = func() { enc.Embed(in, logSlots, 1<<15, false, o) }
		case entry == "Encode":
			f = func() { enc.Encode(in, pt, logSlots) }
		case entry == "EncodeSlots":
			f = func() { enc.EncodeSlots(in, pt, logSlots) }
		case entry == "EncodeNew":
			f = func() { enc.EncodeNew(in, level, 1<<15, logSlots) }
		case entry == "EncodeSlotsNew":
			f = func() { enc.EncodeSlotsNew(in, level, 1<<15, logSlots) }
		default:
			f = func() { enc.Embed(in, logSlots, 1<<15, false, pt.Value) }
		}
		c.NonTrivial(true)
		c.Class("%s/%s", kind, entry)
		if vh.Panics(f) == "" {
			c.Fatalf("%s accepts a request with wrong %s (2^%d slots of at most 2^%d, %T)", entry, kind, logSlots, p.MaxLogSlots(), in)
		}
		if !vh.Same(pt.Value, before) || pt.Value.IsNTT != ntt || pt.Value.IsMForm != mf || pt.Scale != 1<<15 || pt.Level() != level {
			c.Fatalf("%s refuses a request with wrong %s, but changes the plaintext", entry, kind)
		}
		logSlots = c.Uni(0, p.MaxLogSlots(), "then")
		mk(c.Uni(0, 1<<uint(logSlots), "nthen"))
		a, b := enc.EncodeNew(in, level, 1<<15, logSlots), ckks.NewEncoder(p.Parameters).EncodeNew(in, level, 1<<15, logSlots)
		if !vh.Same(a.Value, b.Value) {
			c.Fatalf("after a refused %s (%s), the encoder encodes differently from a new one", entry, kind)
		}
	})
}
