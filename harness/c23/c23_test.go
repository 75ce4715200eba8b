package c23

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"testing"

	"fast-ksw/ring"
	"fast-ksw/utils"
	"vharness/vh"
)

func edge(c *vh.C, label string) uint64 {
	switch c.Uni(0, 4, label+"k") {
	case 0:
		return uint64(c.Uni(0, 3, label))
	case 1:
		return math.MaxUint64 - uint64(c.Uni(0, 3, label))
	case 2:
		b := c.Uni(0, 63, label+"b")
		return uint64(1)<<uint(b) + uint64(c.Uni(0, 2, label)) - 1
	case 3:
		return uint64(1)<<63 + uint64(c.Uni(0, 4, label)) - 2
	}
	return c.U64(label)
}

// slice draws a slice over a small or full domain (so that repetitions and equalities happen).
func slice(c *vh.C, label string) []uint64 {
	n := c.Uni(0, 9, label+"n")
	if c.Chance(1, 8, label+"long") {
		n = c.Uni(10, 70, label+"nl")
	}
	small := c.Bool(label + "small")
	s := make([]uint64, n)
	for i := range s {
		if small {
			s[i] = uint64(c.Uni(0, 7, label))
		} else {
			s[i] = edge(c, label)
		}
	}
	if n > 1 && c.Chance(1, 4, label+"dup") {
		s[c.Uni(0, n-1, label+"i")] = s[c.Uni(0, n-1, label+"j")]
	}
	return s
}

func same(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func TestScalar(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 4000, Thorough: 200000,
		Rule: "the two arguments differ and the bit length is in 1..63"}, func(c *vh.C) {
		a, b := edge(c, "a"), edge(c, "b")
		l := uint64(c.Uni(0, 64, "bitlen"))
		c.NonTrivial(a != b && l > 0 && l < 64)
		if h := utils.HammingWeight64(a); h != uint64(bits.OnesCount64(a)) {
			c.Fatalf("HammingWeight64(%#x)=%d", a, h)
		}
		var want uint64
		for i := uint64(0); i < l; i++ {
			want |= (a >> i & 1) << (l - 1 - i)
		}
		if l < 64 {
			a &= uint64(1)<<l - 1
		}
		if g := utils.BitReverse64(a, l); g != want {
			c.Fatalf("BitReverse64(%#x,%d)=%#x want %#x", a, l, g, want)
		}
		a = edge(c, "a2")
		lo, hi := a, b
		if lo > hi {
			lo, hi = hi, lo
		}
		if utils.MinUint64(a, b) != lo || utils.MaxUint64(a, b) != hi {
			c.Fatalf("Min/MaxUint64(%d,%d)", a, b)
		}
		x, y := int(a), int(b)
		li, hj := x, y
		if li > hj {
			li, hj = hj, li
		}
		if utils.MinInt(x, y) != li || utils.MaxInt(x, y) != hj {
			c.Fatalf("Min/MaxInt(%d,%d)", x, y)
		}
		f, g := float64(x)/3, float64(y)/3
		if c.Bool("sgn") {
			f = -f
		}
		hf := g
		if f > g {
			hf = f
		}
		if utils.MaxFloat64(f, g) != hf {
			c.Fatalf("MaxFloat64(%v,%v)", f, g)
		}
		if utils.MaxFloat64(f, math.Inf(-1)) != f || !math.IsInf(utils.MaxFloat64(f, math.Inf(1)), 1) {
			c.Fatalf("MaxFloat64 with infinities, %v", f)
		}
	})
}

func TestSlices(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 4000, Thorough: 200000,
		Rule: "the slice has at least two elements"}, func(c *vh.C) {
		s := slice(c, "s")
		c.NonTrivial(len(s) > 1)
		var o []uint64
		switch c.Uni(0, 3, "other") {
		case 0:
			o = slice(c, "o")
		case 1:
			o = append([]uint64{}, s...)
			if len(o) > 0 {
				o[c.Uni(0, len(o)-1, "chg")] ^= uint64(1) << uint(c.Uni(0, 63, "bit"))
			}
		case 2:
			o = append([]uint64{}, s...)
		default:
			o = append([]uint64{}, s...)
			if c.Bool("trunc") && len(o) > 0 {
				o = o[:c.Uni(0, len(o)-1, "len")]
			} else {
				o = append(o, uint64(c.Uni(0, 1, "extra")))
			}
		}
		s0, o0 := append([]uint64{}, s...), append([]uint64{}, o...)
		si, oi, s8, o8, sn := make([]int64, len(s)), make([]int64, len(o)), make([]uint8, len(s)), make([]uint8, len(o)), make([]int, len(s))
		eq8 := len(s) == len(o)
		for i, v := range s {
			si[i], s8[i], sn[i] = int64(v), uint8(v>>(8*(v%8))), int(v)
		}
		for i, v := range o {
			oi[i], o8[i] = int64(v), uint8(v>>(8*(v%8)))
			eq8 = eq8 && o8[i] == s8[i]
		}
		eq := same(s, o)
		if utils.EqualSliceUint64(s, o) != eq || utils.EqualSliceUint64(o, s) != eq {
			c.Fatalf("EqualSliceUint64(%v,%v) is not %v", s, o, eq)
		}
		if utils.EqualSliceInt64(si, oi) != eq || utils.EqualSliceInt64(oi, si) != eq {
			c.Fatalf("EqualSliceInt64(%v,%v) is not %v", si, oi, eq)
		}
		if utils.EqualSliceUint8(s8, o8) != eq8 || utils.EqualSliceUint8(o8, s8) != eq8 {
			c.Fatalf("EqualSliceUint8(%v,%v) is not %v", s8, o8, eq8)
		}
		x := edge(c, "x")
		switch c.Uni(0, 2, "member") {
		case 0:
			x = uint64(c.Uni(0, 7, "xs"))
		case 1:
			if len(s) > 0 {
				x = s[c.Uni(0, len(s)-1, "xi")]
			}
		}
		in, distinct, max := false, true, uint64(0)
		for i, v := range s {
			in = in || v == x
			if v > max {
				max = v
			}
			for j := 0; j < i; j++ {
				distinct = distinct && s[j] != v
			}
		}
		if utils.IsInSliceUint64(x, s) != in {
			c.Fatalf("IsInSliceUint64(%d,%v) is not %v", x, s, in)
		}
		if utils.IsInSliceInt(int(x), sn) != in {
			c.Fatalf("IsInSliceInt(%d,%v) is not %v", int(x), sn, in)
		}
		if g := utils.MaxSliceUint64(s); g != max {
			c.Fatalf("MaxSliceUint64(%v)=%d", s, g)
		}
		if utils.AllDistinct(s) != distinct {
			c.Fatalf("AllDistinct(%v) is not %v", s, distinct)
		}
		if c.Chance(1, 4, "long") { // a long list, all distinct but for one pair at most
			l := make([]uint64, c.Uni(2, 600, "longn"))
			k := c.U64("longk") | 1
			for i := range l {
				l[i] = uint64(i) * k
			}
			i, j := c.Uni(0, len(l)-1, "longi"), c.Uni(0, len(l)-1, "longj")
			l[i] = l[j]
			if utils.AllDistinct(l) != (i == j) {
				c.Fatalf("AllDistinct over %d elements with elements %d and %d the same is not %v", len(l), i, j, i == j)
			}
		}
		if !same(s, s0) || !same(o, o0) {
			c.Fatalf("an input slice changed: %v %v", s0, o0)
		}
		for i := range sn {
			if sn[i] != int(s[i]) || si[i] != int64(s[i]) {
				c.Fatalf("an input slice changed")
			}
		}
	})
}

func rotK(c *vh.C, n int) int {
	switch c.Uni(0, 5, "kk") {
	case 0:
		return c.PickInt("kedge", math.MinInt64, math.MinInt64+1, math.MaxInt64, math.MaxInt64-1, -1, 0, 1)
	case 1:
		return n * c.Uni(-3, 3, "kmul")
	case 2:
		return n*c.Uni(-3, 3, "kmul2") + c.Uni(-1, 1, "koff")
	case 3:
		return c.Int(math.MinInt64, math.MaxInt64, "kbig")
	}
	return c.Uni(-n-2, n+2, "k")
}

func TestRotate(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 6000, Thorough: 200000,
		Rule: "at least two elements and a rotation that is not a multiple of the length"}, func(c *vh.C) {
		n := c.Uni(0, 9, "n")
		if c.Chance(1, 8, "long") {
			n = c.Uni(10, 70, "nl")
		}
		k := rotK(c, n)
		c.NonTrivial(n > 1 && k%maxi(n, 1) != 0)
		kind := c.Pick("kind", "u64", "i64", "f64", "c128", "slots", "iface-u64", "iface-i64", "iface-f64", "iface-c128", "iface-other")
		u, i6, f, z := make([]uint64, n), make([]int64, n), make([]float64, n), make([]complex128, n)
		for j := range u {
			u[j] = uint64(j)<<32 + 7
			i6[j] = int64(j)*1000 - 3
			f[j] = float64(j) + .5
			z[j] = complex(float64(j), -float64(j)-1)
		}
		// source index of output position j when m elements are rotated to the left by k
		src := func(j, m int) int {
			r := new(big.Int).Add(big.NewInt(int64(j)), big.NewInt(int64(k)))
			return int(r.Mod(r, big.NewInt(int64(m))).Int64())
		}
		l, at, set, inAt := 0, func(int) int { return 0 }, func(int) {}, func(int) int { return 0 }
		id := func(ok bool, j int) int {
			if !ok {
				return -1
			}
			return j
		}
		useU := func(o []uint64) {
			l = len(o)
			at = func(j int) int { return id(o[j]&0xffffffff == 7, int(o[j]>>32)) }
			set = func(j int) { o[j] = 1 }
			inAt = func(j int) int { return id(u[j]&0xffffffff == 7, int(u[j]>>32)) }
		}
		useI := func(o []int64) {
			l = len(o)
			at = func(j int) int { return id((o[j]+3)%1000 == 0, int((o[j]+3)/1000)) }
			set = func(j int) { o[j] = 1 }
			inAt = func(j int) int { return id((i6[j]+3)%1000 == 0, int((i6[j]+3)/1000)) }
		}
		useF := func(o []float64) {
			l = len(o)
			at = func(j int) int { return id(o[j]-.5 == math.Floor(o[j]), int(o[j])) }
			set = func(j int) { o[j] = -1 }
			inAt = func(j int) int { return id(f[j]-.5 == math.Floor(f[j]), int(f[j])) }
		}
		useC := func(o []complex128) {
			l = len(o)
			at = func(j int) int { return id(imag(o[j]) == -real(o[j])-1, int(real(o[j]))) }
			set = func(j int) { o[j] = -1i - 77 }
			inAt = func(j int) int { return id(imag(z[j]) == -real(z[j])-1, int(real(z[j]))) }
		}
		half := -1
		switch kind {
		case "u64":
			useU(utils.RotateUint64Slice(u, k))
		case "i64":
			useI(utils.RotateInt64Slice(i6, k))
		case "f64":
			useF(utils.RotateFloat64Slice(f, k))
		case "c128":
			useC(utils.RotateComplex128Slice(z, k))
		case "slots":
			half = n / 2
			useU(utils.RotateUint64Slots(u, k))
		case "iface-u64":
			useU(utils.RotateSlice(u, k).([]uint64))
		case "iface-i64":
			useI(utils.RotateSlice(i6, k).([]int64))
		case "iface-f64":
			useF(utils.RotateSlice(f, k).([]float64))
		case "iface-c128":
			useC(utils.RotateSlice(z, k).([]complex128))
		default:
			if utils.RotateSlice([]int{1, 2}, k) != nil {
				c.Fatalf("RotateSlice of an unsupported type gives a value")
			}
			return
		}
		if l != n {
			c.Fatalf("%s: rotating %d elements gives %d", kind, n, l)
		}
		for j := 0; j < n; j++ {
			w := 0
			switch {
			case half < 0:
				w = src(j, n)
			case j < half:
				w = src(j, half)
			default:
				w = half + src(j-half, n-half)
			}
			if at(j) != w {
				c.Fatalf("%s: rotation of %d elements by %d has element %d at position %d, want %d", kind, n, k, at(j), j, w)
			}
			if inAt(j) != j {
				c.Fatalf("%s: the input changed at %d (rotation by %d of %d)", kind, j, k, n)
			}
		}
		for j := 0; j < n; j++ { // the result is a new slice
			set(j)
			for i := 0; i < n; i++ {
				if inAt(i) != i {
					c.Fatalf("%s: writing to the rotation by %d of %d elements changes the input", kind, k, n)
				}
			}
		}
	})
}

func maxi(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// TestBuffer drives a buffer with an arbitrary interleaving of writes and reads against a byte queue.
func TestBuffer(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 1500, Thorough: 60000,
		Rule: "at least three writes and two reads of more than one kind"}, func(c *vh.C) {
		init := c.Uni(0, 20, "init")
		backing := make([]byte, init, init+c.Uni(0, 40, "cap"))
		for i := range backing {
			backing[i] = byte(c.Uni(0, 255, "b"))
		}
		if init == 0 && c.Bool("nil") {
			backing = nil
		}
		q := append([]byte{}, backing...)
		b := utils.NewBuffer(backing)
		w, r := 0, 0
		push := func(v uint64) {
			for i := 56; i >= 0; i -= 8 {
				q = append(q, byte(v>>uint(i)))
			}
		}
		pop := func() (v uint64) {
			for i := 0; i < 8; i++ {
				v = v<<8 | uint64(q[i])
			}
			q = q[8:]
			return
		}
		steps := c.Uni(1, 40, "steps")
		kinds := map[string]bool{}
		for s := 0; s < steps; s++ {
			op := c.Pick("op", "w8", "w64", "w8s", "w64s", "r8", "r64", "r8s", "r64s")
			switch op {
			case "w8":
				v := byte(c.Uni(0, 255, "v"))
				b.WriteUint8(v)
				q = append(q, v)
				w++
			case "w64":
				v := edge(c, "v")
				b.WriteUint64(v)
				push(v)
				w++
			case "w8s":
				v := make([]byte, c.Uni(0, 9, "n"))
				for i := range v {
					v[i] = byte(c.Uni(0, 255, "v"))
				}
				keep := append([]byte{}, v...)
				b.WriteUint8Slice(v)
				q = append(q, keep...)
				for i := range v {
					if v[i] != keep[i] {
						c.Fatalf("WriteUint8Slice changed its input")
					}
					v[i]++ // the buffer must have taken a copy
				}
				w++
			case "w64s":
				v := make([]uint64, c.Uni(0, 5, "n"))
				for i := range v {
					v[i] = edge(c, "v")
					push(v[i])
				}
				keep := append([]uint64{}, v...)
				b.WriteUint64Slice(v)
				if !same(v, keep) {
					c.Fatalf("WriteUint64Slice changed its input")
				}
				w++
			case "r8":
				if len(q) < 1 {
					continue
				}
				if g := b.ReadUint8(); g != q[0] {
					c.Fatalf("step %d: ReadUint8 gives %d, want %d", s, g, q[0])
				}
				q = q[1:]
				r++
			case "r64":
				if len(q) < 8 {
					continue
				}
				if g, x := b.ReadUint64(), pop(); g != x {
					c.Fatalf("step %d: ReadUint64 gives %#x, want %#x", s, g, x)
				}
				r++
			case "r8s":
				rec := make([]byte, c.Uni(0, len(q), "n"))
				b.ReadUint8Slice(rec)
				for i := range rec {
					if rec[i] != q[i] {
						c.Fatalf("step %d: ReadUint8Slice gives %v, want %v", s, rec, q[:len(rec)])
					}
				}
				q = q[len(rec):]
				r++
			case "r64s":
				rec := make([]uint64, c.Uni(0, len(q)/8, "n"))
				b.ReadUint64Slice(rec)
				for i := range rec {
					if x := pop(); rec[i] != x {
						c.Fatalf("step %d: ReadUint64Slice element %d gives %#x, want %#x", s, i, rec[i], x)
					}
				}
				r++
			}
			kinds[op] = true
			if g := b.Bytes(); string(g) != string(q) {
				c.Fatalf("step %d (%s): buffer holds %x, want %x", s, op, g, q)
			}
		}
		c.NonTrivial(w > 2 && r > 1 && len(kinds) > 3)
	})
}

func TestRandom(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 300, Thorough: 6000,
		Rule: "the requested interval holds more than one value"}, func(c *vh.C) {
		// crypto/rand.Reader is replaced by a deterministic generator with boundary words
		r := c.Rng("seed")
		vh.SeedRandom(r.Uint64())
		defer vh.SeedRandom(1)
		exp := c.Uni(-40, 300, "exp")
		m := math.Ldexp(r.Float64(), exp)
		var lo, hi float64
		switch c.Uni(0, 3, "iv") {
		case 0:
			lo, hi = -m, m
		case 1:
			lo, hi = 0, m
		case 2:
			lo, hi = m, m+math.Ldexp(r.Float64(), exp-c.Uni(0, 50, "w"))
		default:
			lo, hi = -m, -m+math.Ldexp(r.Float64(), exp-c.Uni(0, 50, "w"))
		}
		c.Note("interval [%g,%g]", lo, hi)
		c.NonTrivial(hi > lo)
		eps := (math.Abs(lo) + math.Abs(hi)) * 0x1p-52 // rounding of min + f*(max-min)
		const n = 64
		var minv, maxv = math.Inf(1), math.Inf(-1)
		for i := 0; i < n; i++ {
			f := utils.RandFloat64(lo, hi)
			if !(f >= lo-eps && f <= hi+eps) {
				c.Fatalf("RandFloat64(%g,%g)=%g", lo, hi, f)
			}
			minv, maxv = math.Min(minv, f), math.Max(maxv, f)
			z := utils.RandComplex128(lo, hi)
			if !(real(z) >= lo-eps && real(z) <= hi+eps && imag(z) >= lo-eps && imag(z) <= hi+eps) {
				c.Fatalf("RandComplex128(%g,%g)=%v", lo, hi, z)
			}
			if real(z) == imag(z) && hi-lo > 1e-3*math.Abs(hi) {
				c.Fatalf("RandComplex128(%g,%g)=%v: both parts are the same draw", lo, hi, z)
			}
		}
		if w := hi - lo; lo <= 0 && hi >= 0 && w > 0 && c.Chance(1, 4, "mean") { // 11 standard errors of the mean
			const k = 4096
			var m, mr, mi float64
			for i := 0; i < k; i++ {
				z := utils.RandComplex128(lo, hi)
				m += (utils.RandFloat64(lo, hi) - lo) / w / k
				mr += (real(z) - lo) / w / k
				mi += (imag(z) - lo) / w / k
			}
			if !(math.Abs(m-0.5) < 0.05 && math.Abs(mr-0.5) < 0.05 && math.Abs(mi-0.5) < 0.05) {
				c.Fatalf("RandFloat64(%g,%g): the mean of %d draws is at %v of the interval, of RandComplex128 at %v and %v", lo, hi, k, m, mr, mi)
			}
		}
		// 64 uniform draws all in one half of the interval: probability 2^-63
		if w := hi - lo; w > 4*eps && w > 0 && (minv > lo+w/2+eps || maxv < lo+w/2-eps) {
			c.Fatalf("RandFloat64(%g,%g): 64 draws cover only [%g,%g]", lo, hi, minv, maxv)
		}
		var or, and uint64 = 0, math.MaxUint64
		for i := 0; i < 128; i++ {
			v := utils.RandUint64()
			or |= v
			and &= v
		}
		if or != math.MaxUint64 || and != 0 {
			c.Fatalf("RandUint64: some bit is constant over 128 draws")
		}
		// ring.RandInt
		mx := new(big.Int).SetUint64(edge(c, "max"))
		if c.Bool("bigmax") {
			mx.Lsh(mx, uint(c.Uni(1, 200, "sh")))
			mx.Add(mx, new(big.Int).SetUint64(uint64(c.Uni(0, 3, "mo"))))
		}
		if mx.Sign() == 0 {
			mx.SetUint64(1)
		}
		keep := new(big.Int).Set(mx)
		for i := 0; i < 16; i++ {
			v := ring.RandInt(mx)
			if v.Sign() < 0 || v.Cmp(keep) >= 0 {
				c.Fatalf("RandInt(%v)=%v", keep, v)
			}
		}
		if mx.Cmp(keep) != 0 {
			c.Fatalf("RandInt changed its argument")
		}
	})
}

// TestInts: big integer helpers.
func TestInts(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 3000, Thorough: 100000,
		Rule: "numerator and denominator are both beyond one word, or the quotient is an exact half"}, func(c *vh.C) {
		big1 := func(label string) *big.Int {
			x := new(big.Int).SetUint64(edge(c, label))
			if c.Bool(label + "w") {
				x.Lsh(x, uint(c.Uni(0, 130, label+"s"))).Add(x, new(big.Int).SetUint64(edge(c, label+"l")))
			}
			if c.Bool(label + "neg") {
				x.Neg(x)
			}
			return x
		}
		b := big1("b")
		if b.Sign() == 0 {
			b.SetInt64(1)
		}
		a := big1("a")
		half := c.Chance(1, 3, "half")
		if half { // a = b (k + 1/2) + {-1,0,1}
			a = big1("k")
			a.Lsh(a, 1).Add(a, big.NewInt(1)).Mul(a, b).Add(a, big.NewInt(int64(c.Uni(-2, 2, "o"))))
			a.Rsh(a, 1)
		}
		c.NonTrivial(half || a.BitLen() > 64 && b.BitLen() > 64)
		// oracle: floor((2|a| + |b|) / 2|b|) with the sign of a/b
		w := new(big.Int).Abs(a)
		w.Lsh(w, 1)
		ab := new(big.Int).Abs(b)
		w.Add(w, ab).Quo(w, new(big.Int).Lsh(ab, 1))
		if a.Sign()*b.Sign() < 0 {
			w.Neg(w)
		}
		x, y := new(big.Int).Set(a), new(big.Int).Set(b)
		out := new(big.Int)
		al := c.Pick("alias", "none", "num", "den")
		switch al {
		case "num":
			out = x
		case "den":
			out = y
		default:
			out = big1("old")
		}
		ring.DivRound(x, y, out)
		if out.Cmp(w) != 0 {
			c.Fatalf("DivRound(%v,%v)=%v, want %v (output aliasing: %s)", a, b, out, w, al)
		}
		if al != "num" && x.Cmp(a) != 0 || al != "den" && y.Cmp(b) != 0 {
			c.Fatalf("DivRound changed an input")
		}
		base := c.PickInt("base", 10, 16, 8, 2)
		pre := map[int]string{10: "", 16: "0x", 8: "0", 2: "0b"}[base]
		str := new(big.Int).Abs(a).Text(base)
		if base == 8 && a.Sign() == 0 {
			pre = ""
		}
		s := pre + str
		if a.Sign() < 0 {
			s = "-" + s
		}
		if g := ring.NewIntFromString(s); g == nil || g.Cmp(a) != 0 {
			c.Fatalf("NewIntFromString(%q)=%v, want %v", s, g, a)
		}
		u := edge(c, "u")
		if ring.NewUint(u).Cmp(new(big.Int).SetUint64(u)) != 0 || ring.NewInt(int64(u)).Cmp(big.NewInt(int64(u))) != 0 {
			c.Fatalf("NewUint/NewInt(%d)", u)
		}
		if fmt.Sprint(ring.NewUint(u)) != fmt.Sprint(u) {
			c.Fatalf("NewUint(%d)", u)
		}
	})
}
