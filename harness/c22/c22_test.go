package c22

import (
	"fmt"
	"math"
	"math/big"
	"testing"

	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"vharness/vh"
)

func drawRing(c *vh.C, maxMod int) *ring.Ring {
	logN := c.Deg(4, 6, 14, "logN")
	t := ring.Type(c.Uni(0, 1, "type"))
	n := 1 << uint(logN)
	nth := uint64(2 * n)
	if t == ring.ConjugateInvariant {
		nth = uint64(4 * n)
	}
	lo, hi := 13, 61
	if c.Bool("big") {
		lo = 58
	}
	return vh.Ring(n, c.Moduli(c.Count(1, maxMod, 24, "k"), nth, lo, hi, "m"), t)
}

// integer draws an integer around the interesting points of the modulus chain.
func integer(c *vh.C, r *vh.Rand, crt []*big.Int, maxBits int) *big.Int {
	x := new(big.Int)
	switch r.IntN(7) {
	case 0:
		x.SetInt64(int64(r.IntN(5)) - 2)
	case 1: // around a prefix product, or half of it
		x.Set(crt[r.IntN(len(crt))])
		if r.IntN(2) == 0 {
			x.Rsh(x, 1)
		}
		x.Add(x, big.NewInt(int64(r.IntN(5))-2))
	case 2:
		x.Mul(crt[r.IntN(len(crt))], big.NewInt(int64(r.IntN(9))-4))
		x.Add(x, big.NewInt(int64(r.IntN(5))-2))
	case 3:
		x.Lsh(big.NewInt(1), uint(r.IntN(maxBits+1)))
		x.Sub(x, big.NewInt(int64(r.IntN(3))))
	default:
		for i := 0; i <= maxBits/64; i++ {
			x.Lsh(x, 64).Or(x, new(big.Int).SetUint64(r.Uint64()))
		}
		x.Rsh(x, uint(r.IntN(x.BitLen()+1)))
	}
	if r.IntN(2) == 0 {
		x.Neg(x)
	}
	return x
}

func TestImportExport(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 800, Thorough: 60000,
		Rule: "some imported integer is negative or beyond the product of the active moduli"}, func(c *vh.C) {
		R := drawRing(c, 5)
		level := c.Uni(0, len(R.Modulus)-1, "level")
		r := c.Rng("values")
		var prods []*big.Int
		for i := range R.Modulus {
			prods = append(prods, vh.Prod(R.Modulus[:i+1]))
		}
		kind := c.Pick("import", "int64", "uint64", "string", "bigint", "bigintlvl")
		stored := len(R.Modulus) - 1 // level up to which the polynomial is written
		p := R.NewPoly()
		if kind == "bigintlvl" {
			stored = level
			if c.Bool("short") {
				p = R.NewPolyLvl(level)
			}
		}
		vh.Fill(r, p, R.Modulus, "uniform") // previous contents
		before := vh.Clone(p)
		xs := make([]*big.Int, R.N)
		keep := make([]*big.Int, R.N)
		nt := false
		i64, u64, str := make([]int64, R.N), make([]uint64, R.N), make([]string, R.N)
		for i := range xs {
			x := integer(c, r, prods, prods[len(prods)-1].BitLen()+70)
			switch kind {
			case "int64":
				if !x.IsInt64() {
					x.SetInt64(int64(new(big.Int).And(x, new(big.Int).SetUint64(math.MaxUint64)).Uint64()))
				}
				if r.IntN(12) == 0 {
					x.SetInt64([]int64{math.MinInt64, math.MaxInt64, math.MinInt64 + 1}[r.IntN(3)])
				}
				i64[i] = x.Int64()
			case "uint64":
				x.And(x, new(big.Int).SetUint64(math.MaxUint64))
				if r.IntN(12) == 0 {
					x.SetUint64(math.MaxUint64 - uint64(r.IntN(2)))
				}
				u64[i] = x.Uint64()
			case "string":
				str[i] = x.String()
			}
			xs[i], keep[i] = x, new(big.Int).Set(x)
			nt = nt || x.Sign() < 0 || x.Cmp(prods[stored]) >= 0
		}
		c.Class("%s N=%d k=%d", kind, R.N, len(R.Modulus))
		c.NonTrivial(nt)
		switch kind {
		case "int64":
			R.SetCoefficientsInt64(i64, p)
		case "uint64":
			R.SetCoefficientsUint64(u64, p)
		case "string":
			R.SetCoefficientsString(str, p)
		case "bigint":
			R.SetCoefficientsBigint(xs, p)
		default:
			R.SetCoefficientsBigintLvl(level, xs, p)
		}
		q := new(big.Int)
		for i := range p.Coeffs {
			q.SetUint64(R.Modulus[i])
			for j := range p.Coeffs[i] {
				if i > stored {
					if p.Coeffs[i][j] != before.Coeffs[i][j] {
						c.Fatalf("%s: limb %d above the level %d changed", kind, i, stored)
					}
					continue
				}
				if w := new(big.Int).Mod(keep[j], q).Uint64(); p.Coeffs[i][j] != w {
					c.Fatalf("%s of %v: coefficient %d modulo %d is %d, want %d", kind, keep[j], j, R.Modulus[i], p.Coeffs[i][j], w)
				}
			}
		}
		for i := range xs {
			if xs[i].Cmp(keep[i]) != 0 {
				c.Fatalf("%s: the import changed the integer %d", kind, i)
			}
			xs[i].SetInt64(0) // the polynomial holds its own copy
		}
		// export; possibly from lazily reduced coefficients
		if c.Bool("lazy") {
			for i := range p.Coeffs {
				for j := range p.Coeffs[i] {
					if m := (math.MaxUint64 - p.Coeffs[i][j]) / R.Modulus[i]; m > 0 {
						if m > 7 {
							m = 7
						}
						p.Coeffs[i][j] += R.Modulus[i] * uint64(r.IntN(int(m)+1))
					}
				}
			}
		}
		snap := vh.Clone(p)
		gap := 1 << uint(c.Uni(0, 7, "gap"))
		for gap > R.N {
			gap >>= 1
		}
		if c.Chance(1, 5, "oddgap") {
			gap = c.Uni(1, R.N, "gapv")
		}
		n := (R.N + gap - 1) / gap
		got := make([]*big.Int, n+c.Uni(0, 2, "spare"))
		for i := range got {
			got[i] = big.NewInt(-77)
		}
		ex := c.Pick("export", "big", "biglvl", "centered", "string")
		lv := level
		switch ex {
		case "big":
			lv = p.Level()
			if lv > stored {
				lv = stored
			}
			short := p
			if lv < p.Level() {
				short = &ring.Poly{Coeffs: p.Coeffs[:lv+1]}
			}
			R.PolyToBigint(short, gap, got)
		case "biglvl":
			if c.Bool("nil") {
				got = make([]*big.Int, len(got))
			}
			R.PolyToBigintLvl(lv, p, gap, got)
		case "centered":
			R.PolyToBigintCenteredLvl(lv, p, gap, got)
		case "string":
			lv, gap, n = stored, 1, R.N
			got = make([]*big.Int, n)
			s := R.PolyToString(&ring.Poly{Coeffs: p.Coeffs[:lv+1]})
			if len(s) != n {
				c.Fatalf("PolyToString gives %d strings", len(s))
			}
			for i := range s {
				x, ok := new(big.Int).SetString(s[i], 10)
				if !ok {
					c.Fatalf("PolyToString gives %q", s[i])
				}
				got[i] = x
			}
		}
		Q := prods[lv]
		for i := 0; i < n; i++ {
			w := new(big.Int).Mod(keep[i*gap], Q)
			if ex == "centered" && new(big.Int).Lsh(w, 1).Cmp(Q) > 0 {
				w.Sub(w, Q)
			}
			if got[i] == nil || got[i].Cmp(w) != 0 {
				c.Fatalf("%s then %s at level %d, gap %d: coefficient %d of %v (mod Q=%v) is %v, want %v", kind, ex, lv, gap, i, keep[i*gap], Q, got[i], w)
			}
		}
		for i := n; i < len(got); i++ {
			if got[i] != nil && got[i].Int64() != -77 {
				c.Fatalf("%s: entry %d beyond the %d exported ones was written", ex, i, n)
			}
		}
		if !vh.Same(p, snap) {
			c.Fatalf("%s changed the polynomial", ex)
		}
	})
}

func TestCopy(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 1500, Thorough: 60000,
		Rule: "source and destination have different levels or different flags"}, func(c *vh.C) {
		R := drawRing(c, 4)
		k := len(R.Modulus)
		r := c.Rng("fill")
		mk := func(l string) *ring.Poly {
			lv := c.Uni(0, k-1, l+"lvl")
			var p *ring.Poly
			if c.Bool(l + "ctor") {
				p = R.NewPolyLvl(lv)
			} else {
				p = ring.NewPoly(R.N, lv+1)
			}
			if p.Degree() != R.N || p.Level() != lv || p.LenModuli() != lv+1 || p.IsNTT || p.IsMForm {
				c.Fatalf("new polynomial: degree %d level %d moduli %d flags %v %v", p.Degree(), p.Level(), p.LenModuli(), p.IsNTT, p.IsMForm)
			}
			for i := range p.Coeffs {
				if len(p.Coeffs[i]) != R.N || vh.CongVec(p.Coeffs[i], make([]uint64, R.N), math.MaxUint64) >= 0 {
					c.Fatalf("new polynomial is not zero")
				}
			}
			vh.Fill(r, p, R.Modulus, "uniform")
			p.IsNTT, p.IsMForm = c.Bool(l+"ntt"), c.Bool(l+"mform")
			return p
		}
		if f := R.NewPoly(); f.Level() != k-1 || f.Degree() != R.N {
			c.Fatalf("NewPoly gives level %d", f.Level())
		}
		a, b := mk("a"), mk("b")
		a0, b0 := vh.Clone(a), vh.Clone(b)
		c.NonTrivial(a.Level() != b.Level() || a.IsNTT != b.IsNTT || a.IsMForm != b.IsMForm)
		min := a.Level()
		if b.Level() < min {
			min = b.Level()
		}
		lvl := c.Uni(0, min, "lvl")
		op := c.Pick("op", "CopyNew", "CopyValues", "Copy", "CopyValuesLvl", "CopyLvl", "m.CopyValues", "m.Copy", "qp.CopyValues", "qp.Copy", "qp.CopyNew", "Plaintext.Copy", "Ciphertext.Copy", "Zero", "SetCoefficients", "GetCoefficients", "self")
		c.Class("%s", op)
		up, flags := min, false
		switch op {
		case "CopyNew":
			b = a.CopyNew()
			b0 = a0
			if b.Level() != a.Level() {
				c.Fatalf("CopyNew of level %d has level %d", a.Level(), b.Level())
			}
			up, flags = a.Level(), true
		case "CopyValues":
			ring.CopyValues(a, b)
		case "Copy":
			ring.Copy(a, b)
			flags = true
		case "CopyValuesLvl":
			ring.CopyValuesLvl(lvl, a, b)
			up = lvl
		case "CopyLvl":
			ring.CopyLvl(lvl, a, b)
			up, flags = lvl, true
		case "m.CopyValues":
			b.CopyValues(a)
		case "m.Copy":
			b.Copy(a)
			flags = true
		case "qp.CopyValues", "qp.Copy", "qp.CopyNew", "Plaintext.Copy", "Ciphertext.Copy": // of several polynomials; a second pair is judged here
			x, y := mk("x"), mk("y")
			x0, y0 := vh.Clone(x), vh.Clone(y)
			whole := op != "qp.CopyValues"
			switch op {
			case "qp.CopyValues", "qp.Copy", "qp.CopyNew":
				if op != "qp.CopyNew" && c.Chance(1, 3, "noP") { // the target lacks or keeps its part modulo P
					t, f := rlwe.PolyQP{Q: b}, rlwe.PolyQP{Q: a}
					if whole {
						t.P = y
						t.Copy(f)
					} else {
						f.P = x
						t.CopyValues(f)
					}
					if !vh.Same(x, x0) || !vh.Same(y, y0) || whole && t.P != y || !whole && t.P != nil {
						c.Fatalf("%s without a part modulo P writes it", op)
					}
					x, y = a, b
					x0, y0 = a0, b0
					break
				}
				from, to := rlwe.PolyQP{Q: a, P: x}, rlwe.PolyQP{Q: b, P: y}
				switch op {
				case "qp.CopyValues":
					to.CopyValues(from)
				case "qp.Copy":
					to.Copy(from)
				default:
					to = from.CopyNew()
					b, y = to.Q, to.P
					b0, y0 = a0, x0
					if b.Level() != a.Level() || y.Level() != x.Level() {
						c.Fatalf("CopyNew of levels %d, %d has levels %d, %d", a.Level(), x.Level(), b.Level(), y.Level())
					}
					min = a.Level()
				}
			case "Plaintext.Copy":
				(&rlwe.Plaintext{Value: b}).Copy(&rlwe.Plaintext{Value: a})
				(&rlwe.Plaintext{Value: b}).Copy(nil)
				(&rlwe.Plaintext{Value: b}).Copy(&rlwe.Plaintext{})
				x, y, x0, y0 = a, b, a0, b0
			default:
				(&rlwe.Ciphertext{Value: []*ring.Poly{b, y}}).Copy(&rlwe.Ciphertext{Value: []*ring.Poly{a, x}})
			}
			my := x.Level()
			if y.Level() < my {
				my = y.Level()
			}
			if !vh.Same(x, x0) {
				c.Fatalf("%s changed its source", op)
			}
			for i := range y.Coeffs {
				w := y0.Coeffs
				if i <= my {
					w = x0.Coeffs
				}
				if !vh.SameVec(y.Coeffs[i], w[i]) {
					c.Fatalf("%s: second polynomial, limb %d (of levels %d -> %d) is wrong", op, i, x.Level(), y.Level())
				}
			}
			wf := y0
			if whole {
				wf = x0
			}
			if y.IsNTT != wf.IsNTT || y.IsMForm != wf.IsMForm {
				c.Fatalf("%s: second polynomial: flags %v %v, want %v %v", op, y.IsNTT, y.IsMForm, wf.IsNTT, wf.IsMForm)
			}
			up, flags = min, whole
		case "SetCoefficients":
			b.SetCoefficients(a.Coeffs[:lvl+1])
			up = lvl
		case "GetCoefficients":
			b = &ring.Poly{Coeffs: a.GetCoefficients()}
			b0 = &ring.Poly{Coeffs: a0.Coeffs}
			if len(b.Coeffs) != len(a.Coeffs) {
				c.Fatalf("GetCoefficients gives %d rows of %d", len(b.Coeffs), len(a.Coeffs))
			}
			up = a.Level()
		case "Zero":
			a.Zero()
			for i := range a.Coeffs {
				for j := range a.Coeffs[i] {
					if a.Coeffs[i][j] != 0 {
						c.Fatalf("Zero leaves a coefficient")
					}
				}
			}
			if a.Level() != a0.Level() || a.IsNTT != a0.IsNTT || a.IsMForm != a0.IsMForm {
				c.Fatalf("Zero changes level or flags")
			}
			return
		case "self":
			switch c.Uni(0, 4, "which") {
			case 0:
				ring.Copy(a, a)
			case 1:
				ring.CopyLvl(a.Level(), a, a)
			case 2:
				a.Copy(a)
			case 3:
				a.CopyValues(a)
			default:
				a.SetCoefficients(a.Coeffs)
			}
			if !vh.Same(a, a0) {
				c.Fatalf("copying a polynomial onto itself changes it")
			}
			return
		}
		if !vh.Same(a, a0) {
			c.Fatalf("%s changed its source", op)
		}
		for i := range b.Coeffs {
			w := b0.Coeffs
			if i <= up {
				w = a0.Coeffs
			}
			if !vh.SameVec(b.Coeffs[i], w[i]) {
				c.Fatalf("%s: limb %d (of levels %d -> %d) is wrong", op, i, a.Level(), b.Level())
			}
		}
		wf := b0
		if flags {
			wf = a0
		}
		if b.IsNTT != wf.IsNTT || b.IsMForm != wf.IsMForm {
			c.Fatalf("%s: flags %v %v, want %v %v", op, b.IsNTT, b.IsMForm, wf.IsNTT, wf.IsMForm)
		}
		for i := range b.Coeffs { // no shared memory
			for j := range b.Coeffs[i] {
				b.Coeffs[i][j]++
			}
		}
		if !vh.Same(a, a0) {
			c.Fatalf("%s: writing to the copy changes the source", op)
		}
	})
}

func TestEqual(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 2000, Thorough: 80000,
		Rule: "the two polynomials differ in at most one coefficient of one limb, up to multiples of the moduli"}, func(c *vh.C) {
		R := drawRing(c, 4)
		k := len(R.Modulus)
		r := c.Rng("fill")
		la := c.Uni(0, k-1, "la")
		if c.Bool("full") {
			la = k - 1
		}
		a := R.NewPolyLvl(la)
		vh.Fill(r, a, R.Modulus, c.Pick("kind", "uniform", "edge", "zero", "max"))
		b := vh.Clone(a)
		strict, congLvl := true, make([]bool, la+1)
		for i := range congLvl {
			congLvl[i] = true
		}
		mode := c.Pick("mode", "same", "one", "multiple", "both", "shorter", "flags")
		i, j := c.Uni(0, la, "limb"), c.Uni(0, R.N-1, "coeff")
		if c.Bool("lastlimb") {
			i = la
		}
		if c.Bool("lastcoeff") {
			j = R.N - 1
		}
		lift := func() {
			for n := c.Uni(1, R.N, "lifts"); n > 0; n-- {
				x, y := r.IntN(la+1), r.IntN(R.N)
				if m := (math.MaxUint64 - b.Coeffs[x][y]) / R.Modulus[x]; m > 0 {
					b.Coeffs[x][y] += R.Modulus[x] * (1 + r.Uint64()%m)
					strict = false
				}
			}
		}
		change := func() {
			d := 1 + r.Uint64()%(R.Modulus[i]-1)
			if c.Bool("unit") {
				d = 1
			}
			b.Coeffs[i][j] = vh.AddMod(b.Coeffs[i][j], d, R.Modulus[i])
			strict, congLvl[i] = false, false
		}
		switch mode {
		case "one":
			change()
		case "multiple":
			lift()
		case "both":
			change()
			lift()
		case "shorter":
			if la == 0 {
				return
			}
			b.Coeffs = b.Coeffs[:c.Uni(1, la, "blen")]
			strict = false
		case "flags":
			b.IsNTT, b.IsMForm = !a.IsNTT, c.Bool("mf")
		}
		if c.Bool("swap") {
			a, b = b, a
		}
		c.NonTrivial(true)
		c.Class("%s", mode)
		a0, b0 := vh.Clone(a), vh.Clone(b)
		if a.Equals(b) != strict || b.Equals(a) != strict {
			c.Fatalf("%s: Equals is not %v", mode, strict)
		}
		if a.Equals(nil) || !a.Equals(a) || (*ring.Poly)(nil).Equals(a) {
			c.Fatalf("Equals with nil or itself")
		}
		common := len(a.Coeffs)
		if len(b.Coeffs) < common {
			common = len(b.Coeffs)
		}
		for l := 0; l < common; l++ {
			w := true
			for x := 0; x <= l; x++ {
				w = w && congLvl[x]
			}
			if R.EqualLvl(l, a, b) != w || R.EqualLvl(l, b, a) != w {
				c.Fatalf("%s: EqualLvl at level %d is not %v", mode, l, w)
			}
			if l == k-1 && (R.Equal(a, b) != w || R.Equal(b, a) != w) {
				c.Fatalf("%s: Equal is not %v", mode, w)
			}
		}
		if !vh.Same(a, a0) || !vh.Same(b, b0) {
			c.Fatalf("%s: comparing changed a polynomial", mode)
		}
		_ = fmt.Sprint
	})
}
