package c09

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"testing"

	"fast-ksw/ckks"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"vharness/vh"
)

// ---- generators

func words(r *vh.Rand, v []uint64, max uint64) {
	for i := range v {
		switch r.IntN(6) {
		case 0:
			v[i] = 0
		case 1:
			v[i] = max
		case 2:
			v[i] = uint64(1) << uint(r.IntN(64)) & max
		default:
			v[i] = r.Uint64() & max
		}
	}
}

func poly(c *vh.C, r *vh.Rand, n, mods int, max uint64) *ring.Poly {
	p := ring.NewPoly(n, mods)
	for i := range p.Coeffs {
		words(r, p.Coeffs[i], max)
	}
	p.IsNTT = r.IntN(2) == 0
	p.IsMForm = r.IntN(2) == 0
	return p
}

type shape struct{ logN, q, p int }

func (s shape) n() int { return 1 << uint(s.logN) }

func drawShape(c *vh.C, label string) shape {
	s := shape{c.Uni(0, 7, label+".logN"), c.Uni(1, 6, label+".q"), c.Uni(0, 4, label+".p")}
	if c.Chance(1, 20, label+".many") {
		s = shape{c.Uni(0, 3, label+".logN2"), c.Uni(100, 255, label+".q2"), c.Uni(0, 100, label+".p2")}
	}
	return s
}

func qp(c *vh.C, r *vh.Rand, s shape) rlwe.PolyQP {
	var v rlwe.PolyQP
	v.Q = poly(c, r, s.n(), s.q, math.MaxUint64)
	if s.p > 0 {
		v.P = poly(c, r, s.n(), s.p, math.MaxUint64)
	}
	return v
}

func swk(c *vh.C, r *vh.Rand, s shape, digits int) *rlwe.SwitchingKey {
	k := &rlwe.SwitchingKey{Value: make([][2]rlwe.PolyQP, digits)}
	for i := range k.Value {
		k.Value[i] = [2]rlwe.PolyQP{qp(c, r, s), qp(c, r, s)}
	}
	return k
}

// ---- comparisons, written from the definition

func samePoly(a, b *ring.Poly, flags bool) bool {
	if a == nil || b == nil {
		return a == b
	}
	if len(a.Coeffs) != len(b.Coeffs) {
		return false
	}
	for i := range a.Coeffs {
		if !vh.SameVec(a.Coeffs[i], b.Coeffs[i]) {
			return false
		}
	}
	return !flags || a.IsNTT == b.IsNTT && a.IsMForm == b.IsMForm
}

func sameQP(a, b rlwe.PolyQP, flags bool) bool {
	return samePoly(a.Q, b.Q, flags) && samePoly(a.P, b.P, flags)
}

func sameSwk(a, b *rlwe.SwitchingKey, flags bool) bool {
	if len(a.Value) != len(b.Value) {
		return false
	}
	for i := range a.Value {
		if !sameQP(a.Value[i][0], b.Value[i][0], flags) || !sameQP(a.Value[i][1], b.Value[i][1], flags) {
			return false
		}
	}
	return true
}

type object interface {
	MarshalBinary() ([]byte, error)
	UnmarshalBinary([]byte) error
}

func sorted(m map[string]object) (k []string) {
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return
}

// trip checks the whole contract for one object: announced length, decoding into each receiver, re-encoding.
func trip(c *vh.C, what string, x object, announced int, same func(y object) bool, receivers map[string]object) []byte {
	data, err := x.MarshalBinary()
	if err != nil {
		c.Fatalf("%s: MarshalBinary: %v", what, err)
	}
	if announced >= 0 && len(data) != announced {
		c.Fatalf("%s: encoded in %d bytes, announced %d", what, len(data), announced)
	}
	if again, err := x.MarshalBinary(); err != nil || !bytes.Equal(again, data) {
		c.Fatalf("%s: encoding twice gives different bytes", what)
	}
	for _, name := range sorted(receivers) {
		y := receivers[name]
		if len(data) > 0 && c.Chance(1, 3, "cut") {
			k := c.Uni(0, len(data)-1, "at")
			if c.Bool("near") {
				k = len(data) - 1 - c.Uni(0, min(len(data)-1, 16), "missing")
			}
			vh.Panics(func() { y.UnmarshalBinary(append([]byte(nil), data[:k]...)) }) // an attempt with incomplete data leaves the receiver usable
		}
		in := append([]byte(nil), data...)
		var e error
		if p := vh.Panics(func() { e = y.UnmarshalBinary(in) }); p != "" {
			c.Fatalf("%s: decoding into a %s receiver panics: %s", what, name, p)
		}
		if e != nil {
			c.Fatalf("%s: decoding into a %s receiver: %v", what, name, e)
		}
		if !bytes.Equal(in, data) {
			c.Fatalf("%s: decoding modifies its input", what)
		}
		if !same(y) {
			c.Fatalf("%s: decoded into a %s receiver, the object differs", what, name)
		}
		for i := range in { // what was decoded must not live in the caller's bytes
			in[i] ^= 0xa5
		}
		if !same(y) {
			c.Fatalf("%s: the decoded object aliases the input bytes", what)
		}
		back, err := y.MarshalBinary()
		if err != nil || !bytes.Equal(back, data) {
			c.Fatalf("%s: re-encoding the object decoded into a %s receiver gives different bytes", what, name)
		}
	}
	return data
}

func TestPoly(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 4000, Thorough: 12000, Rule: "polynomials of 1..128 coefficients, 1..255 moduli, any flags, decoded into an empty receiver and one that held another polynomial; non-trivial: at least two moduli or another shape in the receiver"}, func(c *vh.C) {
		s, s2 := drawShape(c, "s"), drawShape(c, "s2")
		if c.Chance(1, 3, "samelen") {
			s2.q = s.q
		}
		r := c.Rng("v")
		p := poly(c, r, s.n(), s.q, math.MaxUint64)
		c.Note("N=%d moduli=%d flags=%v,%v; receiver N=%d moduli=%d", s.n(), s.q, p.IsNTT, p.IsMForm, s2.n(), s2.q)
		c.NonTrivial(s.q > 1 || s2 != s)
		same := func(y object) bool { return samePoly(y.(*ring.Poly), p, true) }
		data := trip(c, "Poly", p, p.GetDataLen(true), same, map[string]object{"fresh": new(ring.Poly), "used": poly(c, r, s2.n(), s2.q, math.MaxUint64)})
		// WriteTo a dirty, longer buffer; DecodePolyNew from it
		buf := make([]byte, len(data)+9)
		for i := range buf {
			buf[i] = byte(r.Uint64())
		}
		tail := append([]byte(nil), buf[len(data):]...)
		n, err := p.WriteTo(buf)
		if err != nil || n != len(data) || !bytes.Equal(buf[:n], data) || !bytes.Equal(buf[n:], tail) {
			c.Fatalf("WriteTo into a dirty buffer: n=%d err=%v, bytes as MarshalBinary: %v", n, err, bytes.Equal(buf[:len(data)], data))
		}
		for name, y := range map[string]*ring.Poly{"fresh": new(ring.Poly), "used": poly(c, r, s2.n(), s2.q, math.MaxUint64)} {
			var k int
			if pan := vh.Panics(func() { k, err = y.DecodePolyNew(buf) }); pan != "" {
				c.Fatalf("DecodePolyNew into a %s receiver panics: %s", name, pan)
			}
			if err != nil || k != len(data) || !samePoly(y, p, true) {
				c.Fatalf("DecodePolyNew into a %s receiver: read %d of %d, err=%v, equal=%v", name, k, len(data), err, samePoly(y, p, true))
			}
		}
		if _, err := p.WriteTo(buf[:len(data)-1]); err == nil {
			c.Fatalf("WriteTo accepts a buffer that is too small")
		}
		if err := new(ring.Poly).UnmarshalBinary(append(append([]byte(nil), data...), make([]byte, 8*c.Uni(1, 4, "extra"))...)); err == nil {
			c.Fatalf("UnmarshalBinary accepts bytes of another length")
		}
		// without metadata
		raw := make([]byte, p.GetDataLen(false))
		if n, err = p.WriteCoeffs(raw); err != nil || n != len(raw) || !bytes.Equal(raw, data[len(data)-len(raw):]) {
			c.Fatalf("WriteCoeffs: n=%d err=%v", n, err)
		}
		y := ring.NewPoly(s.n(), s.q)
		words(r, y.Coeffs[0], math.MaxUint64)
		if n, err = ring.DecodeCoeffs(0, s.n(), s.q, y.Coeffs, raw); err != nil || n != len(raw) || !samePoly(y, p, false) {
			c.Fatalf("DecodeCoeffs: n=%d err=%v", n, err)
		}
		z := &ring.Poly{Coeffs: make([][]uint64, s.q)}
		if n, err = ring.DecodeCoeffsNew(0, s.n(), s.q, z.Coeffs, raw); err != nil || n != len(raw) || !samePoly(z, p, false) {
			c.Fatalf("DecodeCoeffsNew: n=%d err=%v", n, err)
		}
	})
}

func TestPoly32(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 3000, Thorough: 10000, Rule: "polynomials with 32-bit coefficients in the 32-bit format; non-trivial: at least two moduli or another shape in the receiver"}, func(c *vh.C) {
		s, s2 := drawShape(c, "s"), drawShape(c, "s2")
		if c.Chance(1, 3, "samelen") {
			s2.q = s.q
		}
		r := c.Rng("v")
		p := poly(c, r, s.n(), s.q, math.MaxUint32)
		c.Note("N=%d moduli=%d", s.n(), s.q)
		c.NonTrivial(s.q > 1 || s2 != s)
		want := p.GetDataLen32(true)
		if want != 4+4*s.q*s.n() || p.GetDataLen32(false) != want-4 {
			c.Fatalf("announced length %d / %d", want, p.GetDataLen32(false))
		}
		buf := make([]byte, want+7)
		for i := range buf {
			buf[i] = byte(r.Uint64())
		}
		tail := append([]byte(nil), buf[want:]...)
		n, err := p.WriteTo32(buf)
		if err != nil || n != want || !bytes.Equal(buf[want:], tail) {
			c.Fatalf("WriteTo32: n=%d err=%v, announced %d", n, err, want)
		}
		data := append([]byte(nil), buf...)
		for name, y := range map[string]*ring.Poly{"fresh": new(ring.Poly), "used": poly(c, r, s2.n(), s2.q, math.MaxUint64)} {
			var k int
			if pan := vh.Panics(func() { k, err = y.DecodePolyNew32(buf) }); pan != "" {
				c.Fatalf("DecodePolyNew32 into a %s receiver panics: %s", name, pan)
			}
			if err != nil || k != want || !samePoly(y, p, true) {
				c.Fatalf("DecodePolyNew32 into a %s receiver: read %d, err=%v, equal=%v", name, k, err, samePoly(y, p, true))
			}
			if n, err = y.WriteTo32(buf); err != nil || n != want || !bytes.Equal(buf, data) {
				c.Fatalf("re-encoding differs")
			}
		}
		if _, err := p.WriteTo32(buf[:want-1]); err == nil {
			c.Fatalf("WriteTo32 accepts a buffer that is too small")
		}
	})
}

func TestQP(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 3000, Thorough: 10000, Rule: "union polynomials with either part absent; non-trivial: both parts present, or the receiver held a part the encoding has not"}, func(c *vh.C) {
		s, s2 := drawShape(c, "s"), drawShape(c, "s2")
		r := c.Rng("v")
		mk := func(s shape, drop int) *rlwe.PolyQP {
			v := qp(c, r, s)
			if drop == 0 && v.P != nil {
				v.Q = nil
			}
			return &v
		}
		a, old := mk(s, c.Uni(0, 3, "drop")), mk(s2, c.Uni(0, 3, "drop2"))
		c.Note("Q=%v P=%v; receiver Q=%v P=%v", a.Q != nil, a.P != nil, old.Q != nil, old.P != nil)
		c.NonTrivial(a.Q != nil && a.P != nil || (a.Q == nil) != (old.Q == nil) || (a.P == nil) != (old.P == nil))
		want := a.GetDataLen(true)
		buf := make([]byte, want+5)
		for i := range buf {
			buf[i] = byte(r.Uint64())
		}
		var n int
		var err error
		if p := vh.Panics(func() { n, err = a.WriteTo(buf) }); p != "" {
			c.Fatalf("WriteTo panics: %s", p)
		}
		if err != nil || n != want {
			c.Fatalf("WriteTo: n=%d err=%v, announced %d", n, err, want)
		}
		for name, y := range map[string]*rlwe.PolyQP{"fresh": {}, "used": old} {
			if n, err = y.DecodePolyNew(buf); err != nil || n != want || !sameQP(*y, *a, true) {
				c.Fatalf("DecodePolyNew into a %s receiver: n=%d err=%v equal=%v", name, n, err, sameQP(*y, *a, true))
			}
			if !y.Equals(*a) || !a.Equals(*y) {
				c.Fatalf("the decoded object is not Equal to the original")
			}
			b2 := make([]byte, want)
			if n, err = y.WriteTo(b2); err != nil || n != want || !bytes.Equal(b2, buf[:want]) {
				c.Fatalf("re-encoding differs")
			}
		}
	})
}

func TestCiphertext(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 3000, Thorough: 10000, Rule: "rlwe and ckks ciphertexts of degree 0..4 (now and then up to 254), any level, flags and scale, decoded into an empty and a used receiver; non-trivial: degree at least 1"}, func(c *vh.C) {
		r := c.Rng("v")
		mk := func(label string) *rlwe.Ciphertext {
			s := drawShape(c, label)
			if s.logN < 1 {
				s.logN = 1
			}
			deg := c.Uni(1, 5, label+".deg")
			if s.logN <= 6 && c.Chance(1, 12, label+".many") { // the count is one byte
				deg = c.PickInt(label+".degs", 8, 9, 16, 17, 33, 64, 127, 128, 129, 255)
				s.q = 1
			}
			ct := &rlwe.Ciphertext{Value: make([]*ring.Poly, deg)}
			for i := range ct.Value {
				ct.Value[i] = poly(c, r, s.n(), s.q, math.MaxUint64)
			}
			return ct
		}
		a, old := mk("a"), mk("old")
		c.Note("degree %d level %d; receiver degree %d level %d", a.Degree(), a.Level(), old.Degree(), old.Level())
		c.NonTrivial(a.Degree() >= 1)
		sameCt := func(y *rlwe.Ciphertext) bool {
			if y == nil || len(y.Value) != len(a.Value) {
				return false
			}
			for i := range a.Value {
				if !samePoly(y.Value[i], a.Value[i], true) {
					return false
				}
			}
			return true
		}
		data := trip(c, "rlwe.Ciphertext", a, a.GetDataLen(true), func(y object) bool { return sameCt(y.(*rlwe.Ciphertext)) },
			map[string]object{"fresh": new(rlwe.Ciphertext), "used": old.CopyNew()})
		if err := new(rlwe.Ciphertext).UnmarshalBinary(append(append([]byte(nil), data...), 0)); err == nil {
			c.Fatalf("trailing byte accepted")
		}
		sum := 0
		for _, p := range a.Value {
			sum += p.GetDataLen(false)
		}
		if a.GetDataLen(false) != sum {
			c.Fatalf("GetDataLen(false) = %d, the coefficients take %d bytes", a.GetDataLen(false), sum)
		}
		scale := math.Float64frombits(r.Uint64())
		if math.IsNaN(scale) || r.IntN(2) == 0 {
			scale = math.Exp2(float64(r.IntN(120))) * (1 + r.Float64())
		}
		b := &ckks.Ciphertext{Ciphertext: a, Scale: scale}
		trip(c, "ckks.Ciphertext", b, b.GetDataLen(true), func(y object) bool {
			z := y.(*ckks.Ciphertext)
			return z.Scale == scale && sameCt(z.Ciphertext)
		}, map[string]object{"fresh": new(ckks.Ciphertext), "used": &ckks.Ciphertext{Ciphertext: old.CopyNew(), Scale: 3}})
		if b.GetDataLen(false) != sum {
			c.Fatalf("ckks GetDataLen(false) = %d, the coefficients take %d bytes", b.GetDataLen(false), sum)
		}
	})
}

func TestKeys(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 2500, Thorough: 8000, Rule: "secret, public, switching, relinearization keys and rotation key sets of every shape (digits, moduli, auxiliary moduli or none, number of keys), decoded into empty and used receivers; non-trivial: auxiliary moduli present, or more than one key or digit"}, func(c *vh.C) {
		r := c.Rng("v")
		small := func(label string) shape {
			return shape{c.Uni(0, 4, label+".logN"), c.Count(1, 5, 16, label+".q"), c.Uni(0, 3, label+".p")}
		}
		s, s2 := small("s"), small("s2")
		kind := c.Pick("kind", "sk", "pk", "swk", "rlk", "rtks")
		digits, digits2 := c.Uni(1, 5, "digits"), c.Uni(1, 5, "digits2")
		c.Note("%s N=%d Q=%d P=%d digits=%d", kind, s.n(), s.q, s.p, digits)
		c.Class("%s", kind)
		switch kind {
		case "sk":
			c.NonTrivial(s.p > 0)
			a := &rlwe.SecretKey{Value: qp(c, r, s)}
			trip(c, kind, a, a.GetDataLen(true), func(y object) bool { return sameQP(y.(*rlwe.SecretKey).Value, a.Value, true) },
				map[string]object{"fresh": new(rlwe.SecretKey), "used": &rlwe.SecretKey{Value: qp(c, r, s2)}})
		case "pk":
			c.NonTrivial(s.p > 0)
			mk := func(s shape) *rlwe.PublicKey {
				return &rlwe.PublicKey{Value: [2]rlwe.PolyQP{qp(c, r, s), qp(c, r, s)}}
			}
			a := mk(s)
			trip(c, kind, a, a.GetDataLen(true), func(y object) bool {
				z := y.(*rlwe.PublicKey)
				return sameQP(z.Value[0], a.Value[0], true) && sameQP(z.Value[1], a.Value[1], true) && z.Equals(a) && a.Equals(z)
			}, map[string]object{"fresh": new(rlwe.PublicKey), "used": mk(s2)})
		case "swk":
			c.NonTrivial(s.p > 0 || digits > 1)
			a := swk(c, r, s, digits)
			trip(c, kind, a, a.GetDataLen(true), func(y object) bool {
				z := y.(*rlwe.SwitchingKey)
				return sameSwk(z, a, true) && z.Equals(a) && a.Equals(z)
			}, map[string]object{"fresh": new(rlwe.SwitchingKey), "used": swk(c, r, s2, digits2)})
		case "rlk":
			mk := func(s shape, d, n int) *rlwe.RelinearizationKey {
				k := &rlwe.RelinearizationKey{Keys: make([]*rlwe.SwitchingKey, n)}
				for i := range k.Keys {
					k.Keys[i] = swk(c, r, s, d)
				}
				return k
			}
			n := c.Uni(1, 4, "n")
			c.NonTrivial(s.p > 0 || n > 1)
			a := mk(s, digits, n)
			trip(c, kind, a, a.GetDataLen(true), func(y object) bool {
				z := y.(*rlwe.RelinearizationKey)
				if len(z.Keys) != n || !z.Equals(a) || !a.Equals(z) {
					return false
				}
				for i := range a.Keys {
					if !sameSwk(z.Keys[i], a.Keys[i], true) {
						return false
					}
				}
				return true
			}, map[string]object{"fresh": new(rlwe.RelinearizationKey), "used": mk(s2, digits2, c.Uni(1, 4, "n2"))})
		case "rtks":
			mk := func(s shape, d, n int) *rlwe.RotationKeySet {
				k := &rlwe.RotationKeySet{Keys: map[uint64]*rlwe.SwitchingKey{}}
				for i := 0; i < n; i++ {
					k.Keys[uint64(r.IntN(1<<uint(1+r.IntN(20))))|1] = swk(c, r, s, d)
				}
				return k
			}
			n := c.Uni(0, 4, "n")
			a := mk(s, digits, n)
			c.NonTrivial(len(a.Keys) > 1)
			trip(c, kind, a, a.GetDataLen(true), func(y object) bool {
				z := y.(*rlwe.RotationKeySet)
				if len(z.Keys) != len(a.Keys) || !z.Equals(a) || !a.Equals(z) || !z.Includes(a) {
					return false
				}
				for g, k := range a.Keys {
					if z.Keys[g] == nil || !sameSwk(z.Keys[g], k, true) {
						return false
					}
				}
				return true
			}, map[string]object{"fresh": new(rlwe.RotationKeySet), "used": mk(s2, digits2, c.Uni(0, 3, "n2"))})
		}
	})
}

// ---- parameters and rings

type spec struct {
	logN     int
	q, p     []uint64
	h        int
	sigma    float64
	typ      ring.Type
	logSlots int
	scale    float64
}

func drawSpec(c *vh.C, label string) spec {
	s := spec{logN: c.Uni(4, 7, label+".logN"), typ: ring.Type(c.Uni(0, 1, label+".type"))}
	nth := uint64(2) << uint(s.logN)
	if s.typ == ring.ConjugateInvariant {
		nth *= 2
	}
	nq, np := c.Count(1, 5, 16, label+".q"), c.Uni(0, 3, label+".p")
	m := c.Moduli(nq+np, nth, 25, 60, label)
	s.q, s.p = m[:nq:nq], append([]uint64{}, m[nq:]...)
	s.h = c.PickInt(label+".h", 1, 7, 1<<uint(s.logN-1), 1<<uint(s.logN), 0)
	s.sigma = []float64{3.2, 1, 0.125, 1e-9, 1e6, 0}[c.Uni(0, 5, label+".sigma")]
	max := s.logN
	if s.typ == ring.Standard {
		max--
	}
	s.logSlots = c.Uni(0, max, label+".logSlots")
	s.scale = math.Exp2(float64(c.Uni(0, 80, label+".scale"))) * (1 + c.Rng(label+".sc").Float64())
	return s
}

func (s spec) rlwe(c *vh.C) rlwe.Parameters {
	p, err := rlwe.NewParameters(s.logN, s.q, s.p, s.h, s.sigma, s.typ)
	if err != nil {
		c.Fatalf("NewParameters: %v", err)
	}
	return p
}

func (s spec) ckks(c *vh.C) ckks.Parameters {
	p, err := ckks.NewParameters(s.rlwe(c), s.logSlots, s.scale)
	if err != nil {
		c.Fatalf("ckks.NewParameters: %v", err)
	}
	return p
}

func (s spec) isRLWE(p rlwe.Parameters) string {
	if p.LogN() != s.logN || p.HammingWeight() != s.h || p.Sigma() != s.sigma || p.RingType() != s.typ || !vh.SameVec(p.Q(), s.q) || !vh.SameVec(p.P(), s.p) {
		return fmt.Sprintf("logN=%d H=%d sigma=%v type=%v Q=%v P=%v", p.LogN(), p.HammingWeight(), p.Sigma(), p.RingType(), p.Q(), p.P())
	}
	if p.RingQ() == nil || !p.RingQ().AllowsNTT || !vh.SameVec(p.RingQ().Modulus, s.q) || p.RingQ().Type() != s.typ || p.RingQ().N != 1<<uint(s.logN) {
		return "ring Q is wrong"
	}
	if (p.RingP() != nil) != (len(s.p) > 0) || p.RingP() != nil && (!vh.SameVec(p.RingP().Modulus, s.p) || p.RingP().Type() != s.typ || p.RingP().N != 1<<uint(s.logN)) {
		return "ring P is wrong"
	}
	return ""
}

func (s spec) isCKKS(p ckks.Parameters) string {
	if p.LogSlots() != s.logSlots || p.DefaultScale() != s.scale {
		return fmt.Sprintf("logSlots=%d scale=%v", p.LogSlots(), p.DefaultScale())
	}
	return s.isRLWE(p.Parameters)
}

func (s spec) eq(t spec, ckks bool) bool {
	return s.logN == t.logN && vh.SameVec(s.q, t.q) && vh.SameVec(s.p, t.p) && s.h == t.h && s.sigma == t.sigma && s.typ == t.typ && (!ckks || s.logSlots == t.logSlots && s.scale == t.scale)
}

// zeroJSON: the JSON format is the literal's, where a zero H, Sigma or LogSlots means "unset". These values cannot be
// carried; recorded as known findings and kept out of the generated JSON cases.
func (s spec) zeroJSON(ckks bool) bool { return s.h == 0 || s.sigma == 0 || ckks && s.logSlots == 0 }

func TestParams(t *testing.T) {
	known := spec{logN: 5, q: vh.Primes(40, 128, 2, true), p: vh.Primes(41, 128, 1, true), h: 8, sigma: 3.2, logSlots: 3, scale: 1 << 30}
	probe := func(mod func(s *spec), want func(p ckks.Parameters) bool) func() string {
		return func() string {
			s := known
			mod(&s)
			rp, err := rlwe.NewParameters(s.logN, s.q, s.p, s.h, s.sigma, s.typ)
			if err != nil {
				return ""
			}
			p, err := ckks.NewParameters(rp, s.logSlots, s.scale)
			if err != nil {
				return ""
			}
			data, err := json.Marshal(p)
			if err != nil {
				return "json.Marshal: " + err.Error()
			}
			var y ckks.Parameters
			if err := json.Unmarshal(data, &y); err != nil || !want(y) {
				return fmt.Sprintf("ckks.Parameters changed by JSON: H=%d sigma=%v logSlots=%d", y.HammingWeight(), y.Sigma(), y.LogSlots())
			}
			return ""
		}
	}
	vh.Known(t, "C09", "json-h0", probe(func(s *spec) { s.h = 0 }, func(p ckks.Parameters) bool { return p.HammingWeight() == 0 }))
	vh.Known(t, "C09", "json-sigma0", probe(func(s *spec) { s.sigma = 0 }, func(p ckks.Parameters) bool { return p.Sigma() == 0 }))
	vh.Known(t, "C09", "json-logslots0", probe(func(s *spec) { s.logSlots = 0 }, func(p ckks.Parameters) bool { return p.LogSlots() == 0 }))
	vh.Check(t, vh.Opts{Quick: 1500, Thorough: 6000, Rule: "rlwe and ckks parameter sets of both ring types, with and without auxiliary moduli, in binary and JSON, into empty and used receivers; non-trivial: auxiliary moduli present or conjugate-invariant"}, func(c *vh.C) {
		s, s2 := drawSpec(c, "s"), drawSpec(c, "s2")
		c.Note("%+v", s)
		c.NonTrivial(len(s.p) > 0 || s.typ == ring.ConjugateInvariant)
		a, b := s.rlwe(c), s.ckks(c)
		oldA, oldB := s2.rlwe(c), s2.ckks(c)
		trip(c, "rlwe.Parameters", &a, a.MarshalBinarySize(), func(y object) bool {
			z := *y.(*rlwe.Parameters)
			return s.isRLWE(z) == "" && z.Equals(a) && a.Equals(z)
		}, map[string]object{"fresh": new(rlwe.Parameters), "used": &oldA})
		trip(c, "ckks.Parameters", &b, b.MarshalBinarySize(), func(y object) bool {
			z := *y.(*ckks.Parameters)
			return s.isCKKS(z) == "" && z.Equals(b) && b.Equals(z)
		}, map[string]object{"fresh": new(ckks.Parameters), "used": &oldB})
		if !s.zeroJSON(false) {
			data, err := json.Marshal(a)
			if err != nil {
				c.Fatalf("json: %v", err)
			}
			old := s2.rlwe(c)
			for name, y := range map[string]*rlwe.Parameters{"fresh": {}, "used": &old} {
				if err := json.Unmarshal(data, y); err != nil {
					c.Fatalf("rlwe JSON into a %s receiver: %v\n%s", name, err, data)
				}
				if d := s.isRLWE(*y); d != "" || !y.Equals(a) {
					c.Fatalf("rlwe JSON into a %s receiver: %s\n%s", name, d, data)
				}
				if d2, err := json.Marshal(*y); err != nil || !bytes.Equal(data, d2) {
					c.Fatalf("rlwe JSON: re-encoding differs:\n%s\n%s", data, d2)
				}
			}
		}
		if !s.zeroJSON(true) {
			data, err := json.Marshal(b)
			if err != nil {
				c.Fatalf("json: %v", err)
			}
			old := s2.ckks(c)
			for name, y := range map[string]*ckks.Parameters{"fresh": {}, "used": &old} {
				if err := json.Unmarshal(data, y); err != nil {
					c.Fatalf("ckks JSON into a %s receiver: %v\n%s", name, err, data)
				}
				if d := s.isCKKS(*y); d != "" || !y.Equals(b) {
					c.Fatalf("ckks JSON into a %s receiver: %s\n%s", name, d, data)
				}
				if d2, err := json.Marshal(*y); err != nil || !bytes.Equal(data, d2) {
					c.Fatalf("ckks JSON: re-encoding differs:\n%s\n%s", data, d2)
				}
			}
			bad := []byte(`{"LogN": "x"}`)
			var y ckks.Parameters
			if err := y.UnmarshalJSON(bad); err == nil {
				c.Fatalf("malformed JSON accepted")
			}
		}
		// equality, against a neighbour differing in one field
		n := s
		n.q, n.p = append([]uint64{}, s.q...), append([]uint64{}, s.p...)
		nth := uint64(4) << uint(s.logN)
		extra := vh.Primes(61, nth, 1, false)[0]
		switch c.Pick("diff", "none", "h", "sigma", "dropq", "addq", "addp", "dropp", "swapq", "type", "slots", "scale", "logN") {
		case "h":
			n.h++
		case "sigma":
			n.sigma += 0.5
		case "dropq":
			if len(n.q) > 1 {
				n.q = n.q[:len(n.q)-1]
			}
		case "addq":
			n.q = append(n.q, extra)
		case "addp":
			n.p = append(n.p, extra)
		case "dropp":
			if len(n.p) > 0 {
				n.p = n.p[:len(n.p)-1]
			}
		case "swapq":
			if len(n.q) > 1 {
				n.q[0], n.q[1] = n.q[1], n.q[0]
			}
		case "type":
			if n.typ == ring.ConjugateInvariant {
				n.typ, n.logSlots = ring.Standard, 0
			}
		case "slots":
			if n.logSlots > 0 {
				n.logSlots--
			} else {
				n.logSlots++
			}
		case "scale":
			n.scale *= 2
		case "logN":
			if n.logN > 4 {
				n.logN--
				n.logSlots = 0
			}
		}
		na, nb := n.rlwe(c), n.ckks(c)
		if w := s.eq(n, false); a.Equals(na) != w || na.Equals(a) != w {
			c.Fatalf("rlwe Equals = %v / %v, want %v for %+v", a.Equals(na), na.Equals(a), w, n)
		}
		if w := s.eq(n, true); b.Equals(nb) != w || nb.Equals(b) != w {
			c.Fatalf("ckks Equals = %v / %v, want %v for %+v", b.Equals(nb), nb.Equals(b), w, n)
		}
	})
}

func TestRing(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 1500, Thorough: 5000, Rule: "rings of both types, degree 16..256, 1..6 moduli, decoded into an empty and a used receiver, then used; non-trivial: at least two moduli or conjugate-invariant"}, func(c *vh.C) {
		mk := func(label string) (*ring.Ring, ring.Type) {
			n := 1 << uint(c.Uni(4, 8, label+".logN"))
			typ := ring.Type(c.Uni(0, 1, label+".type"))
			nth := uint64(2 * n)
			if typ == ring.ConjugateInvariant {
				nth *= 2
			}
			r, err := ring.NewRingFromType(n, c.Moduli(c.Count(1, 6, 20, label+".n"), nth, 20, 61, label), typ)
			if err != nil {
				c.Fatalf("%v", err)
			}
			return r, typ
		}
		a, typ := mk("a")
		old, _ := mk("old")
		g := c.Rng("v")
		c.Note("N=%d type=%v moduli=%v", a.N, typ, a.Modulus)
		c.NonTrivial(len(a.Modulus) > 1 || typ == ring.ConjugateInvariant)
		p, q := a.NewPoly(), a.NewPoly()
		vh.Fill(g, p, a.Modulus, "uniform")
		vh.Fill(g, q, a.Modulus, "uniform")
		use := func(r *ring.Ring) []*ring.Poly {
			x, y, z := r.NewPoly(), r.NewPoly(), r.NewPoly()
			r.NTT(p, x)
			r.MForm(q, y)
			r.NTT(y, y)
			r.MulCoeffsMontgomery(x, y, z)
			r.InvNTT(z, z)
			w := z.CopyNew()
			if len(r.Modulus) > 1 {
				buf := r.NewPoly()
				r.DivRoundByLastModulusLvl(len(r.Modulus)-1, z.CopyNew(), w)
				r.DivFloorByLastModulusNTTLvl(len(r.Modulus)-1, x, buf, y)
			}
			return []*ring.Poly{x, y, z, w}
		}
		want := use(a)
		same := func(y object) bool {
			r := y.(*ring.Ring)
			if r.N != a.N || r.NthRoot != a.NthRoot || !vh.SameVec(r.Modulus, a.Modulus) || !r.AllowsNTT || r.ModulusBigint.Cmp(a.ModulusBigint) != 0 || !vh.SameVec(r.Mask, a.Mask) {
				return false
			}
			ok := true
			if pan := vh.Panics(func() {
				ok = r.Type() == typ
				for i, x := range use(r) {
					ok = ok && samePoly(x, want[i], false)
				}
			}); pan != "" {
				c.Fatalf("the decoded ring cannot be used: %s", pan)
			}
			return ok
		}
		trip(c, "Ring", a, -1, same, map[string]object{"fresh": new(ring.Ring), "used": old})
		for _, ty := range []ring.Type{ring.Standard, ring.ConjugateInvariant} {
			b, err := json.Marshal(ty)
			var back = ring.Type(5)
			if err != nil || json.Unmarshal(b, &back) != nil || back != ty {
				c.Fatalf("ring.Type %v by JSON: %s -> %v", ty, b, back)
			}
		}
	})
}

// TestEquals compares the equality predicates with the definition on pairs that are equal or differ in one place.
func TestEquals(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 5000, Thorough: 20000, Rule: "pairs of polynomials, union polynomials, public, switching, relinearization keys and rotation key sets, equal or differing in one coefficient, shape, presence or key; non-trivial: the pair differs"}, func(c *vh.C) {
		r := c.Rng("v")
		s := shape{c.Uni(0, 3, "logN"), c.Uni(1, 4, "q"), c.Uni(0, 3, "p")}
		kind := c.Pick("kind", "poly", "qp", "pk", "swk", "rlk", "rtks")
		diff := c.Pick("diff", "none", "coeff", "fewer", "more", "length", "nop", "addp", "keys", "nil")
		c.Note("%s %s %+v", kind, diff, s)
		c.Class("%s/%s", kind, diff)
		a := qp(c, r, s)
		b := a.CopyNew()
		changed := mutate(r, &b, diff, s)
		nilDiff := diff == "nil"
		check := func(x, y, w bool) {
			c.NonTrivial(!w)
			if x != w || y != w {
				c.Fatalf("%s with difference %q: Equals = %v, %v; want %v", kind, diff, x, y, w)
			}
		}
		other := qp(c, r, s)
		oc := other.CopyNew()
		w := !changed
		switch kind {
		case "poly":
			pa, pb := a.Q, b.Q
			if s.p > 0 && r.IntN(2) == 0 {
				pa, pb = a.P, b.P
			}
			if nilDiff {
				pb = nil
			}
			check(pa.Equals(pb), pb.Equals(pa), samePoly(pa, pb, false))
		case "qp":
			check(a.Equals(b), b.Equals(a), w)
		case "pk":
			x, y := &rlwe.PublicKey{Value: [2]rlwe.PolyQP{a, other}}, &rlwe.PublicKey{Value: [2]rlwe.PolyQP{b, oc}}
			if r.IntN(2) == 0 {
				x.Value[0], x.Value[1] = x.Value[1], x.Value[0]
				y.Value[0], y.Value[1] = y.Value[1], y.Value[0]
			}
			check(x.Equals(y), y.Equals(x), w)
		default:
			n := 1 + r.IntN(3)
			at := r.IntN(n)
			half := r.IntN(2)
			k1, k2 := &rlwe.SwitchingKey{Value: make([][2]rlwe.PolyQP, n)}, &rlwe.SwitchingKey{Value: make([][2]rlwe.PolyQP, n)}
			for i := range k1.Value {
				k1.Value[i] = [2]rlwe.PolyQP{other, other}
				k2.Value[i] = [2]rlwe.PolyQP{oc, oc}
			}
			k1.Value[at][half], k2.Value[at][half] = a, b
			if diff == "keys" {
				k2.Value = append(k2.Value, [2]rlwe.PolyQP{other, other})
				w = false
			}
			switch kind {
			case "swk":
				if nilDiff {
					k2, w = nil, false
				}
				check(k1.Equals(k2), k2.Equals(k1), w)
			case "rlk":
				l1, l2 := &rlwe.RelinearizationKey{Keys: []*rlwe.SwitchingKey{k1}}, &rlwe.RelinearizationKey{Keys: []*rlwe.SwitchingKey{k2}}
				if r.IntN(2) == 0 {
					o := swk(c, r, s, 1)
					l1.Keys, l2.Keys = append([]*rlwe.SwitchingKey{o}, l1.Keys...), append([]*rlwe.SwitchingKey{o.CopyNew()}, l2.Keys...)
				}
				if r.IntN(6) == 0 {
					l2.Keys = append(l2.Keys, k2)
					w = false
				}
				if nilDiff {
					l2, w = nil, false
				}
				check(l1.Equals(l2), l2.Equals(l1), w)
			default:
				o := swk(c, r, s, 1)
				r1 := &rlwe.RotationKeySet{Keys: map[uint64]*rlwe.SwitchingKey{5: o, 25: k1}}
				r2 := &rlwe.RotationKeySet{Keys: map[uint64]*rlwe.SwitchingKey{5: o.CopyNew(), 25: k2}}
				inc := true
				switch r.IntN(5) {
				case 0:
					delete(r2.Keys, 25)
					r2.Keys[125] = k2
					w, inc = false, false
				case 1:
					delete(r2.Keys, 5)
					w = false
					if r2.Includes(r1) {
						c.Fatalf("Includes holds although a key is missing")
					}
				}
				if r1.Includes(r2) != inc {
					c.Fatalf("Includes = %v, want %v", !inc, inc)
				}
				if nilDiff {
					r2, w = nil, false
					if r1.Includes(nil) {
						c.Fatalf("Includes(nil)")
					}
				}
				check(r1.Equals(r2), r2.Equals(r1), w)
			}
		}
	})
}

// mutate changes b in one place, as far as its shape allows, and tells whether it did.
func mutate(r *vh.Rand, b *rlwe.PolyQP, diff string, s shape) bool {
	p := b.Q
	if s.p > 0 && r.IntN(2) == 0 {
		p = b.P
	}
	switch diff {
	case "coeff":
		i, j := r.IntN(len(p.Coeffs)), r.IntN(s.n())
		p.Coeffs[i][j] ^= 1 << uint(r.IntN(64))
		return true
	case "fewer":
		p.Coeffs = p.Coeffs[:len(p.Coeffs)-1]
		return true
	case "more":
		p.Coeffs = append(p.Coeffs, make([]uint64, s.n()))
		return true
	case "length":
		i := r.IntN(len(p.Coeffs))
		p.Coeffs[i] = append(p.Coeffs[i], 0)
		return true
	case "nop":
		if b.P != nil {
			b.P = nil
			return true
		}
	case "addp":
		if b.P == nil {
			b.P = ring.NewPoly(s.n(), 1)
			return true
		}
	}
	return false
}

// Copies are equal, behave like the original and share no memory with it.
func TestCopies(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 600, Thorough: 4000, Rule: "keys of every kind and shape, absent keys; non-trivial: the key is present"}, func(c *vh.C) {
		r := c.Rng("v")
		s := shape{c.Uni(0, 4, "logN"), c.Uni(1, 5, "q"), c.Uni(0, 3, "p")}
		digits := c.Uni(1, 4, "digits")
		kind := c.Pick("kind", "sk", "pk", "swk", "rlk", "qp", "nil")
		c.Class("%s", kind)
		c.NonTrivial(kind != "nil")
		judge := func(a, b interface{}, eq func() (bool, bool)) {
			d := vh.Digest(a)
			if vh.Digest(b) != d {
				c.Fatalf("%s: the copy differs", kind)
			}
			if x, y := eq(); !x || !y {
				c.Fatalf("%s: the copy is not equal to the original", kind)
			}
			if ba, ok := a.(object); ok {
				x, e1 := ba.MarshalBinary()
				y, e2 := b.(object).MarshalBinary()
				if e1 != nil || e2 != nil || string(x) != string(y) {
					c.Fatalf("%s: the copy is encoded differently", kind)
				}
			}
			e := vh.Digest(b)
			if c.Bool("which") {
				vh.Scribble(r, b)
				if vh.Digest(a) != d {
					c.Fatalf("%s: writing to the copy changes the original", kind)
				}
			} else {
				vh.Scribble(r, a)
				if vh.Digest(b) != e {
					c.Fatalf("%s: writing to the original changes the copy", kind)
				}
			}
			if x, y := eq(); x || y {
				c.Fatalf("%s: still equal after one of them was overwritten", kind)
			}
		}
		switch kind {
		case "sk":
			a := &rlwe.SecretKey{Value: qp(c, r, s)}
			b := a.CopyNew()
			judge(a, b, func() (bool, bool) { return a.Value.Equals(b.Value), b.Value.Equals(a.Value) })
		case "pk":
			a := &rlwe.PublicKey{Value: [2]rlwe.PolyQP{qp(c, r, s), qp(c, r, s)}}
			b := a.CopyNew()
			judge(a, b, func() (bool, bool) { return a.Equals(b), b.Equals(a) })
		case "swk":
			a := swk(c, r, s, digits)
			b := a.CopyNew()
			judge(a, b, func() (bool, bool) { return a.Equals(b), b.Equals(a) })
		case "rlk":
			a := &rlwe.RelinearizationKey{}
			for i := c.Uni(1, 3, "n"); i > 0; i-- {
				a.Keys = append(a.Keys, swk(c, r, s, digits))
			}
			b := a.CopyNew()
			judge(a, b, func() (bool, bool) { return a.Equals(b), b.Equals(a) })
		case "qp":
			a := qp(c, r, s)
			b := a.CopyNew()
			judge(&a, &b, func() (bool, bool) { return a.Equals(b), b.Equals(a) })
		default:
			var sk *rlwe.SecretKey
			var pk *rlwe.PublicKey
			var k *rlwe.SwitchingKey
			var rlk *rlwe.RelinearizationKey
			var rtk *rlwe.RotationKeySet
			if sk.CopyNew() != nil || pk.CopyNew() != nil || k.CopyNew() != nil || rlk.CopyNew() != nil {
				c.Fatalf("the copy of an absent key is not absent")
			}
			some, one := swk(c, r, s, digits), &rlwe.RotationKeySet{}
			l := &rlwe.RelinearizationKey{Keys: []*rlwe.SwitchingKey{some}}
			if !k.Equals(nil) || !rlk.Equals(nil) || !rtk.Equals(nil) || k.Equals(some) || some.Equals(nil) || rlk.Equals(l) || l.Equals(nil) || rtk.Equals(one) || one.Equals(nil) {
				c.Fatalf("equality with an absent key")
			}
			if x := some; !x.Equals(some) || !l.Equals(l) || !one.Equals(one) {
				c.Fatalf("a key is not equal to itself")
			}
			if x, ok := one.GetRotationKey(5); x != nil || ok {
				c.Fatalf("an empty set holds a key")
			}
			one.Keys = map[uint64]*rlwe.SwitchingKey{5: some}
			if x, ok := one.GetRotationKey(5); x != some || !ok {
				c.Fatalf("GetRotationKey does not find the key")
			}
			if x, ok := one.GetRotationKey(25); x != nil || ok {
				c.Fatalf("GetRotationKey finds a key that is not in the set")
			}
		}
	})
}
