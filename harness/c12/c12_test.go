package c12

import (
	"fmt"
	"math/big"
	"testing"

	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"vharness/vh"
)

func drawParams(c *vh.C, extra int) vh.RP {
	o := vh.RO{Wide: 2, LogNLo: 4, LogNHi: 6, QLo: 1, QHi: 7, PLo: 1, PHi: 5, BitsLo: 30, BitsHi: 61, CI: extra == 0, Extra: extra}
	switch c.Uni(0, 3, "bits") {
	case 0:
		o.BitsLo = 58
	case 1:
		o.BitsLo, o.BitsHi = 20, 33
	case 2:
		o.BitsLo, o.BitsHi = 60, 61
	}
	if c.Chance(1, 10, "many") {
		o.QLo, o.QHi, o.LogNHi = 8, 20, 4
	}
	if extra == 0 && c.Chance(1, 12, "split") { // many digits, accumulators of Q and P of very different margins
		o.QLo, o.QHi, o.LogNHi, o.PLo, o.PHi = 8, 20, 4, 1, 2
		o.BitsLo, o.BitsHi, o.PBitsLo, o.PBitsHi = 25, 50, 60, 61
		if c.Bool("largeQ") {
			o.BitsLo, o.BitsHi, o.PBitsLo, o.PBitsHi = 60, 61, 30, 55
		}
	}
	return c.RLWE(o, "p")
}

func secret(c *vh.C, p vh.RP, kg rlwe.KeyGenerator, label string) (*rlwe.SecretKey, []int64) {
	var sk *rlwe.SecretKey
	switch c.Uni(0, 2, label) {
	case 0:
		sk = kg.GenSecretKey()
	case 1:
		sk = kg.GenSecretKeyGaussian()
	default:
		sk = kg.GenSecretKeyWithHammingWeight(c.Uni(1, p.N(), label+".w"))
	}
	return sk, vh.Secret(c, p.Parameters, sk)
}

func trunc(sk *rlwe.SecretKey, lq, lp int) *rlwe.SecretKey {
	k := sk.CopyNew()
	k.Value.Q.Coeffs = k.Value.Q.Coeffs[:lq+1]
	k.Value.P.Coeffs = k.Value.P.Coeffs[:lp+1]
	return k
}

// rawBound bounds sum_i digit_i e_i.
func rawBound(p vh.RP, levelQ, levelP int) *big.Int {
	b := new(big.Int)
	for i := 0; i <= levelQ; i += levelP + 1 {
		hi := i + levelP + 1
		if hi > levelQ+1 {
			hi = levelQ + 1
		}
		b.Add(b, vh.Prod(p.Q()[i:hi]))
	}
	return b.Mul(b, big.NewInt(2*int64(p.N())*p.F*p.Noise))
}

// bound of the error of a key switch after the division by P
func bound(p vh.RP, levelQ, levelP int, sOut []int64) *big.Int {
	b := rawBound(p, levelQ, levelP)
	b.Div(b, vh.Prod(p.P()[:levelP+1]))
	return b.Add(b, big.NewInt(3+(1+p.F*vh.L1(sOut))*103/100))
}

// polynomial of the given level, dirty beyond what is used when tall
func poly(c *vh.C, r *vh.Rand, p vh.RP, level int, kinds ...string) *ring.Poly {
	x := ring.NewPoly(p.N(), level+1)
	vh.Fill(r, x, p.Q()[:level+1], kinds[r.IntN(len(kinds))])
	return x
}

func tall(c *vh.C, p vh.RP, level int, label string) int {
	if c.Bool(label) {
		return p.MaxLevel()
	}
	return level
}

func rowsInt(x []int64, moduli []uint64) (o [][]uint64) {
	for _, q := range moduli {
		o = append(o, vh.Residues(x, q))
	}
	return
}

func mulRows(p vh.RP, a, b [][]uint64, m []uint64) [][]uint64 {
	o := make([][]uint64, len(m))
	for i, q := range m {
		o[i] = vh.RingMul(a[i], b[i], q, p.RingType())
	}
	return o
}

func addRows(a, b [][]uint64, m []uint64) [][]uint64 {
	o := make([][]uint64, len(m))
	for i, q := range m {
		o[i] = make([]uint64, len(a[i]))
		for j := range o[i] {
			o[i][j] = vh.AddMod(a[i][j], b[i][j], q)
		}
	}
	return o
}

func within(c *vh.C, what string, got, want [][]uint64, m []uint64, b *big.Int) {
	e := vh.MaxAbs(vh.BigRows(vh.SubRows(got[:len(m)], want[:len(m)], m), m))
	if e.Cmp(b) > 0 {
		c.Fatalf("%s: error of %d bits exceeds the bound of %d bits (modulus %d bits)", what, e.BitLen(), b.BitLen(), vh.Prod(m).BitLen())
	}
	if new(big.Int).Lsh(b, 2).Cmp(vh.Prod(m)) < 0 {
		c.NonTrivial(true)
	}
}

func reduced(c *vh.C, what string, x *ring.Poly, m []uint64) {
	for i, q := range m {
		for _, v := range x.Coeffs[i] {
			if v > q {
				c.Fatalf("%s: %d is not reduced modulo %d", what, v, q)
			}
		}
	}
}

// evalQP evaluates c0 + c1 s (evaluation form) in coefficient rows modulo Q then P.
func evalQP(p vh.RP, c0, c1 rlwe.PolyQP, s []int64, lq, lp int) (rows [][]uint64, m []uint64) {
	rows = vh.PhaseRows(p.RingQ(), []*ring.Poly{c0.Q, c1.Q}, true, s, lq)
	rows = append(rows, vh.PhaseRows(p.RingP(), []*ring.Poly{c0.P, c1.P}, true, s, lp)...)
	m = append(append(m, p.Q()[:lq+1]...), p.P()[:lp+1]...)
	return
}

func TestSwitch(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 1200, Thorough: 4000, Rule: "1..4 switches with one key switcher (or copies of it) and keys of several levels and auxiliary sizes, in place / hoisted / without division, both domains; non-trivial: bound below a quarter of the modulus"}, func(c *vh.C) {
		p := drawParams(c, 0)
		r := c.Rng("data")
		kg := rlwe.NewKeyGenerator(p.Parameters)
		ks := rlwe.NewKeySwitcher(p.Parameters)
		for k := c.Uni(1, 4, "count"); k > 0; k-- {
			if c.Chance(1, 4, "copy") {
				ks = ks.ShallowCopy()
			}
			skIn, sIn := secret(c, p, kg, "in")
			skOut, sOut := secret(c, p, kg, "out")
			kq, kp := p.MaxLevel(), p.PCount()-1
			if c.Bool("lowkey") {
				kq, kp = c.Uni(0, kq, "kq"), c.Uni(0, kp, "kp")
			}
			key := kg.GenSwitchingKey(skIn, trunc(skOut, kq, kp))
			lvl := kq
			if c.Chance(2, 3, "lower") {
				lvl = c.Uni(0, kq, "level")
			}
			cx := poly(c, r, p, tall(c, p, lvl, "tallin"), "uniform", "uniform", "edge", "max", "zero")
			cx.IsNTT = c.Bool("ntt")
			p0 := poly(c, r, p, tall(c, p, lvl, "tallout"), "uniform")
			p1 := poly(c, r, p, tall(c, p, lvl, "tallout1"), "uniform")
			p0.IsNTT, p1.IsNTT = c.Bool("flag0"), c.Bool("flag1")
			m := p.Q()[:lvl+1]
			what := fmt.Sprintf("level %d of %d, key levels %d/%d, P %d, ntt %v", lvl, p.MaxLevel(), kq, kp, p.PCount(), cx.IsNTT)
			c.Note("%s", what)
			c.Class("digits=%d/ntt=%v", (lvl+1+kp)/(kp+1), cx.IsNTT)
			before, keyBefore := vh.Clone(cx), key.CopyNew()
			want := mulRows(p, vh.CoeffRows(p.RingQ(), cx, lvl, cx.IsNTT, false), rowsInt(sIn, m), m)
			raw, b := rawBound(p, lvl, kp), bound(p, lvl, kp, sOut)

			if c.Chance(1, 3, "earlier") {
				in := []interface{}{cx}
				if c.Bool("otherkey") {
					in = append(in, key)
				}
				vh.Earlier(func() {
					ks.SwitchKeysInPlace(lvl, cx, key, vh.Clone(p0), vh.Clone(p1))
					if c.Bool("raw") {
						x, y := p.RingQP().NewPoly(), p.RingQP().NewPoly()
						ks.SwitchKeysInPlaceNoModDown(lvl, cx, key, x.Q, x.P, y.Q, y.P)
					}
				}, in...)
			}
			ks.SwitchKeysInPlace(lvl, cx, key, p0, p1)
			reduced(c, "SwitchKeysInPlace "+what, p0, m)
			reduced(c, "SwitchKeysInPlace "+what, p1, m)
			within(c, "SwitchKeysInPlace "+what, vh.PhaseRows(p.RingQ(), []*ring.Poly{p0, p1}, cx.IsNTT, sOut, lvl), want, m, b)

			// without the division: P cx sIn modulo QP
			PQ := vh.Prod(p.P()[:kp+1])
			x0, x1 := p.RingQP().NewPolyLvl(lvl, kp), p.RingQP().NewPolyLvl(lvl, kp)
			if c.Bool("dirtyraw") {
				for _, x := range []rlwe.PolyQP{x0, x1} {
					vh.Fill(r, x.Q, m, "uniform")
					vh.Fill(r, x.P, p.P()[:kp+1], "uniform")
				}
			}
			ks.SwitchKeysInPlaceNoModDown(lvl, cx, key, x0.Q, x0.P, x1.Q, x1.P)
			got, qp := evalQP(p, x0, x1, sOut, lvl, kp)
			wantQP := make([][]uint64, len(qp))
			for i, q := range qp {
				wantQP[i] = make([]uint64, p.N())
				if i <= lvl {
					g := new(big.Int).Mod(PQ, new(big.Int).SetUint64(q)).Uint64()
					for j, v := range want[i] {
						wantQP[i][j] = vh.MulMod(g, v, q)
					}
				}
			}
			within(c, "SwitchKeysInPlaceNoModDown "+what, got, wantQP, qp, raw)
			reduced(c, "SwitchKeysInPlaceNoModDown "+what, x0.Q, m)
			reduced(c, "SwitchKeysInPlaceNoModDown "+what, x1.Q, m)
			reduced(c, "SwitchKeysInPlaceNoModDown "+what, x0.P, p.P()[:kp+1])
			reduced(c, "SwitchKeysInPlaceNoModDown "+what, x1.P, p.P()[:kp+1])

			// hoisted
			pool := ks.PoolDecompQP
			if kp+1 < p.PCount() || c.Bool("ownpool") {
				pool = nil
				for i := 0; i < (lvl+1+kp)/(kp+1); i++ {
					x := p.RingQP().NewPoly()
					vh.Fill(r, x.Q, p.Q(), "uniform")
					vh.Fill(r, x.P, p.P(), "uniform")
					pool = append(pool, x)
				}
			}
			if c.Chance(1, 3, "earlierdigits") {
				vh.Earlier(func() {
					ks.DecomposeNTT(lvl, kp, kp+1, cx, pool)
					x, y := p.RingQP().NewPoly(), p.RingQP().NewPoly()
					ks.KeyswitchHoistedNoModDown(lvl, pool, key, x.Q, y.Q, x.P, y.P)
				}, cx)
			}
			ks.DecomposeNTT(lvl, kp, kp+1, cx, pool)
			y0, y1 := p.RingQP().NewPoly(), p.RingQP().NewPoly()
			for rep := 0; rep < 2; rep++ {
				ks.KeyswitchHoistedNoModDown(lvl, pool, key, y0.Q, y1.Q, y0.P, y1.P)
				for i, pair := range [][2]*ring.Poly{{x0.Q, y0.Q}, {x1.Q, y1.Q}} {
					if d := vh.Cong(pair[0], pair[1], m, lvl); d != "" {
						c.Fatalf("KeyswitchHoistedNoModDown %s: part %d modulo Q differs from the non-hoisted result: %s", what, i, d)
					}
				}
				for i, pair := range [][2]*ring.Poly{{x0.P, y0.P}, {x1.P, y1.P}} {
					if d := vh.Cong(pair[0], pair[1], p.P()[:kp+1], kp); d != "" {
						c.Fatalf("KeyswitchHoistedNoModDown %s: part %d modulo P differs from the non-hoisted result: %s", what, i, d)
					}
				}
				ks.KeyswitchHoisted(lvl, pool, key, y0.Q, y1.Q, y0.P, y1.P)
				if cx.IsNTT {
					for i, pair := range [][2]*ring.Poly{{p0, y0.Q}, {p1, y1.Q}} {
						if d := vh.Cong(pair[0], pair[1], m, lvl); d != "" {
							c.Fatalf("KeyswitchHoisted %s: part %d differs from the non-hoisted result: %s", what, i, d)
						}
					}
				} else {
					within(c, "KeyswitchHoisted "+what, vh.PhaseRows(p.RingQ(), []*ring.Poly{y0.Q, y1.Q}, true, sOut, lvl), want, m, b)
				}
			}
			if !vh.Same(before, cx) || !keyBefore.Equals(key) {
				c.Fatalf("%s: the input polynomial or the key was modified", what)
			}
		}
	})
}

func encrypt(c *vh.C, r *vh.Rand, p vh.RP, sk *rlwe.SecretKey, level int, ntt bool) (ct *rlwe.Ciphertext, pt *rlwe.Plaintext) {
	pt = rlwe.NewPlaintext(p.Parameters, level)
	vh.Fill(r, pt.Value, p.Q()[:level+1], "uniform")
	pt.Value.IsNTT = ntt
	ct = rlwe.NewCiphertext(p.Parameters, 1, level)
	ct.Value[0].IsNTT = ntt
	rlwe.NewEncryptor(p.Parameters, sk).Encrypt(pt, ct)
	return
}

func TestAutomorphism(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 1000, Thorough: 4000, Rule: "a ciphertext, a Galois element of either sign and its key from any entry point; non-trivial: bound below a quarter of the modulus"}, func(c *vh.C) {
		p := drawParams(c, 0)
		r := c.Rng("data")
		kg := rlwe.NewKeyGenerator(p.Parameters)
		ks := rlwe.NewKeySwitcher(p.Parameters)
		sk, s := secret(c, p, kg, "sk")
		std := p.RingType() == ring.Standard
		for rep := 0; rep < 2; rep++ {
			lvl := c.Uni(0, p.MaxLevel(), "level")
			k := c.Uni(0, 3*p.N(), "k") - p.N()
			var key *rlwe.SwitchingKey
			g := p.GaloisElementForColumnRotationBy(k)
			ok := true
			entry := c.Uni(0, 4, "entry")
			switch entry {
			case 0:
				key = kg.GenSwitchingKeyForRotationBy(k, sk)
			case 1:
				if std && c.Bool("neg") {
					g = uint64(2*p.N()) - g
				}
				key = kg.GenSwitchingKeyForGalois(g, sk)
			case 2:
				key, ok = kg.GenRotationKeysForRotations([]int{k, 0}, std, sk).GetRotationKey(g)
			case 3:
				key, ok = kg.GenRotationKeys([]uint64{g, 1}, sk).GetRotationKey(g)
			default:
				if !std {
					continue
				}
				g = p.GaloisElementForRowRotation()
				key = kg.GenSwitchingKeyForRowRotation(sk)
			}
			if !ok {
				c.Fatalf("no key for rotation %d, element %d", k, g)
			}
			ct, pt := encrypt(c, r, p, sk, lvl, true)
			m := p.Q()[:lvl+1]
			p0, p1 := ring.NewPoly(p.N(), lvl+1), ring.NewPoly(p.N(), lvl+1)
			out := []*ring.Poly{ring.NewPoly(p.N(), lvl+1), ring.NewPoly(p.N(), lvl+1)}
			if c.Bool("hoisted") {
				ks.DecomposeNTT(lvl, p.PCount()-1, p.PCount(), ct.Value[1], ks.PoolDecompQP)
				ks.KeyswitchHoisted(lvl, ks.PoolDecompQP, key, p0, p1, ks.Pool[1].P, ks.Pool[2].P)
			} else {
				ks.SwitchKeysInPlace(lvl, ct.Value[1], key, p0, p1)
			}
			p.RingQ().AddLvl(lvl, p0, ct.Value[0], p0)
			p.RingQ().PermuteNTTLvl(lvl, p0, g, out[0])
			p.RingQ().PermuteNTTLvl(lvl, p1, g, out[1])
			want := vh.CoeffRows(p.RingQ(), pt.Value, lvl, true, false)
			for i, q := range m {
				want[i] = vh.AutoRow(want[i], q, g, p.RingType())
			}
			b := bound(p, lvl, p.PCount()-1, s)
			b.Add(b, vh.Big(p.Noise))
			c.Class("entry=%d/type=%d", entry, p.RingType())
			within(c, fmt.Sprintf("automorphism %d (rotation %d, entry %d) at level %d", g, k, entry, lvl),
				vh.PhaseRows(p.RingQ(), out, true, s, lvl), want, m, b)
		}
	})
}

func TestRelinearize(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 900, Thorough: 4000, Rule: "an arbitrary ciphertext of degree 2..4 brought back to degree 1 step by step; non-trivial: bound below a quarter of the modulus"}, func(c *vh.C) {
		p := drawParams(c, 0)
		r := c.Rng("data")
		kg := rlwe.NewKeyGenerator(p.Parameters)
		ks := rlwe.NewKeySwitcher(p.Parameters)
		sk, s := secret(c, p, kg, "sk")
		deg := c.Uni(2, 4, "degree")
		rlk := kg.GenRelinearizationKey(sk, deg-1)
		lvl := c.Uni(0, p.MaxLevel(), "level")
		ntt := c.Bool("ntt")
		m := p.Q()[:lvl+1]
		var v []*ring.Poly
		for i := 0; i <= deg; i++ {
			x := poly(c, r, p, lvl, "uniform")
			x.IsNTT = ntt
			v = append(v, x)
		}
		want := vh.PhaseRows(p.RingQ(), v, ntt, s, lvl)
		b := new(big.Int)
		for d := deg; d >= 2; d-- {
			p0, p1 := ring.NewPoly(p.N(), lvl+1), ring.NewPoly(p.N(), lvl+1)
			ks.SwitchKeysInPlace(lvl, v[d], rlk.Keys[d-2], p0, p1)
			p.RingQ().AddLvl(lvl, v[0], p0, v[0])
			p.RingQ().AddLvl(lvl, v[1], p1, v[1])
			b.Add(b, bound(p, lvl, p.PCount()-1, s))
		}
		c.Class("degree=%d/ntt=%v", deg, ntt)
		within(c, fmt.Sprintf("relinearization of degree %d at level %d, ntt %v", deg, lvl, ntt), vh.PhaseRows(p.RingQ(), v[:2], ntt, s, lvl), want, m, b)
	})
}

func spreadRows(x [][]uint64, gap int) [][]uint64 {
	o := make([][]uint64, len(x))
	for i := range x {
		o[i] = make([]uint64, len(x[i])*gap)
		for j, v := range x[i] {
			o[i][j*gap] = v
		}
	}
	return o
}

func gather(x [][]uint64, gap int) [][]uint64 {
	o := make([][]uint64, len(x))
	for i := range x {
		for j := 0; j < len(x[i]); j += gap {
			o[i] = append(o[i], x[i][j])
		}
	}
	return o
}

func TestRingDegree(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 700, Thorough: 3000, Rule: "ciphertexts moved between a ring and one 2..4 times larger, with and without evaluation form, and switched between the secrets of the two; non-trivial: bound below a quarter of the modulus"}, func(c *vh.C) {
		extra := c.Uni(1, 2, "extra")
		small := drawParams(c, extra)
		gap := 1 << uint(extra)
		lp, err := rlwe.NewParameters(small.LogN()+extra, small.Q(), small.P(), small.HammingWeight(), small.Sigma(), ring.Standard)
		if err != nil {
			c.Fatalf("%v", err)
		}
		large := vh.NewRP(lp)
		r := c.Rng("data")
		kgS, kgL := rlwe.NewKeyGenerator(small.Parameters), rlwe.NewKeyGenerator(large.Parameters)
		skS, sS := secret(c, small, kgS, "small")
		skL, sL := secret(c, large, kgL, "large")
		ks := rlwe.NewKeySwitcher(large.Parameters)
		lvl := c.Uni(0, small.MaxLevel(), "level")
		m := small.Q()[:lvl+1]
		ntt := c.Bool("ntt")
		newCt := func(p vh.RP) *rlwe.Ciphertext {
			ct := rlwe.NewCiphertext(p.Parameters, 1, lvl)
			for _, v := range ct.Value {
				vh.Fill(r, v, m, "uniform")
				v.IsNTT = ntt
			}
			return ct
		}
		switchDeg := func(in, out *rlwe.Ciphertext) {
			before := in.CopyNew()
			if ntt {
				if in.Value[0].Degree() > out.Value[0].Degree() {
					rlwe.SwitchCiphertextRingDegreeNTT(in, small.RingQ(), large.RingQ(), out)
				} else {
					rlwe.SwitchCiphertextRingDegreeNTT(in, nil, nil, out)
				}
			} else {
				rlwe.SwitchCiphertextRingDegree(in, out)
			}
			for i := range before.Value {
				if !vh.SameCoeffs(before.Value[i], in.Value[i], lvl) {
					c.Fatalf("SwitchCiphertextRingDegree (ntt %v) modifies its input", ntt)
				}
			}
		}
		exact := func(what string, got, want [][]uint64) {
			for i, q := range m {
				if j := vh.CongVec(got[i], want[i], q); j >= 0 {
					c.Fatalf("%s (ntt %v): modulus %d coefficient %d is %d, expected %d", what, ntt, q, j, got[i][j], want[i][j])
				}
			}
		}
		c.Class("gap=%d/ntt=%v", gap, ntt)
		// small to large
		ctS, _ := encrypt(c, r, small, skS, lvl, ntt)
		want := spreadRows(vh.PhaseRows(small.RingQ(), ctS.Value, ntt, sS, lvl), gap)
		ctL := newCt(large)
		switchDeg(ctS, ctL)
		for i := range ctS.Value {
			exact("small to large", vh.CoeffRows(large.RingQ(), ctL.Value[i], lvl, ntt, false), spreadRows(vh.CoeffRows(small.RingQ(), ctS.Value[i], lvl, ntt, false), gap))
		}
		p0, p1 := ring.NewPoly(large.N(), lvl+1), ring.NewPoly(large.N(), lvl+1)
		key := kgL.GenSwitchingKey(skS, skL)
		ks.SwitchKeysInPlace(lvl, ctL.Value[1], key, p0, p1)
		large.RingQ().AddLvl(lvl, p0, ctL.Value[0], p0)
		within(c, "small to large", vh.PhaseRows(large.RingQ(), []*ring.Poly{p0, p1}, ntt, sL, lvl), want, m, bound(large, lvl, large.PCount()-1, sL))
		// large to small
		ctL, _ = encrypt(c, r, large, skL, lvl, ntt)
		want = gather(vh.PhaseRows(large.RingQ(), ctL.Value, ntt, sL, lvl), gap)
		key = kgL.GenSwitchingKey(skL, skS)
		ks.SwitchKeysInPlace(lvl, ctL.Value[1], key, p0, p1)
		large.RingQ().AddLvl(lvl, p0, ctL.Value[0], p0)
		in := &rlwe.Ciphertext{Value: []*ring.Poly{p0, p1}}
		p0.IsNTT, p1.IsNTT = ntt, ntt
		ctS = newCt(small)
		switchDeg(in, ctS)
		for i := range ctS.Value {
			exact("large to small", vh.CoeffRows(small.RingQ(), ctS.Value[i], lvl, ntt, false), gather(vh.CoeffRows(large.RingQ(), in.Value[i], lvl, ntt, false), gap))
		}
		up := make([]int64, large.N())
		for i, v := range sS {
			up[i*gap] = v
		}
		within(c, "large to small", vh.PhaseRows(small.RingQ(), ctS.Value, ntt, sS, lvl), want, m, bound(large, lvl, large.PCount()-1, up))
	})
}
