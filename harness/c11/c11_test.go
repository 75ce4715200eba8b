package c11

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"testing"

	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"vharness/vh"
)

// fresh records uniform parts and error vectors: none may occur twice.
type fresh struct {
	c    *vh.C
	seen map[string]string
}

func newFresh(c *vh.C) *fresh { return &fresh{c, map[string]string{}} }

func (f *fresh) add(what string, v interface{}) {
	k := fmt.Sprint(v)
	if old, ok := f.seen[k]; ok {
		f.c.Fatalf("%s repeats %s", what, old)
	}
	f.seen[k] = what
}

func (f *fresh) mask(what string, rows ...[][]uint64) {
	for i, rs := range rows {
		for j, r := range rs {
			f.add(fmt.Sprintf("%s, uniform part %d/%d", what, i, j), r)
		}
	}
}

// noise checks an error vector: bounded, not zero, not seen before (nor its opposite).
func (f *fresh) noise(what string, p vh.RP, e []*big.Int) {
	if m := vh.MaxAbs(e); m.Cmp(vh.Big(p.Noise)) > 0 {
		f.c.Fatalf("%s: error of size %v (%d bits), the distribution is bounded by %d", what, m, m.BitLen(), p.Noise)
	} else if p.N() >= 32 {
		if m.Sign() == 0 {
			f.c.Fatalf("%s: no error at all", what)
		}
		neg := make([]*big.Int, len(e))
		for i := range e {
			neg[i] = new(big.Int).Neg(e[i])
		}
		f.add(what+", error", e)
		f.seen[fmt.Sprint(neg)] = what + ", minus the error"
	}
}

// rowsQP returns the coefficient rows of v at the levels it has, Q then P, and their moduli.
func rowsQP(p vh.RP, v rlwe.PolyQP, ntt, mform bool) (rows [][]uint64, moduli []uint64) {
	rows = vh.CoeffRows(p.RingQ(), v.Q, v.Q.Level(), ntt, mform)
	moduli = append(moduli, p.Q()[:len(rows)]...)
	if v.P != nil {
		r := vh.CoeffRows(p.RingP(), v.P, v.P.Level(), ntt, mform)
		rows = append(rows, r...)
		moduli = append(moduli, p.P()[:len(r)]...)
	}
	return
}

// addMul returns b + a*s.
func addMul(p vh.RP, b, a [][]uint64, s []int64, moduli []uint64) [][]uint64 {
	o := make([][]uint64, len(b))
	for i, q := range moduli {
		o[i] = vh.RingMul(a[i], vh.Residues(s, q), q, p.RingType())
		for j := range o[i] {
			o[i][j] = vh.AddMod(o[i][j], b[i][j], q)
		}
	}
	return o
}

// mulInts is the exact product of two integer polynomials with small coefficients.
func mulInts(a, b []int64, t ring.Type) []*big.Int { return vh.BigMul(vh.Ints(a), vh.Ints(b), t) }

func bigRow(x []*big.Int, q uint64) []uint64 {
	o := make([]uint64, len(x))
	bq, t := new(big.Int).SetUint64(q), new(big.Int)
	for i := range x {
		o[i] = t.Mod(x[i], bq).Uint64()
	}
	return o
}

// publicKey checks pk0 + pk1 s = e.
func publicKey(f *fresh, what string, p vh.RP, pk *rlwe.PublicKey, s []int64) []*big.Int {
	b, m := rowsQP(p, pk.Value[0], true, false)
	a, _ := rowsQP(p, pk.Value[1], true, false)
	if len(m) != p.QPCount() {
		f.c.Fatalf("%s: %d moduli instead of %d", what, len(m), p.QPCount())
	}
	e := vh.NewCRT(m).Centered(addMul(p, b, a, s, m))
	f.mask(what, a)
	f.noise(what, p, e)
	return e
}

// switchingKey checks, for each digit i, b_i + a_i sOut = P g_i sIn + e_i where g_i is 1 modulo the digit's moduli
// and 0 modulo the others.
func switchingKey(f *fresh, what string, p vh.RP, k *rlwe.SwitchingKey, sIn []*big.Int, sOut []int64, levelQ, levelP int) (es [][]*big.Int) {
	c := f.c
	if k == nil {
		c.Fatalf("%s: no key", what)
	}
	alpha := levelP + 1
	beta := (levelQ + alpha) / alpha
	if len(k.Value) != beta {
		c.Fatalf("%s: %d digits instead of %d (levels %d, %d)", what, len(k.Value), beta, levelQ, levelP)
	}
	P := vh.Prod(p.P()[:alpha])
	for i := range k.Value {
		w := fmt.Sprintf("%s, digit %d", what, i)
		for h := 0; h < 2; h++ {
			if len(k.Value[i][h].Q.Coeffs) != levelQ+1 || len(k.Value[i][h].P.Coeffs) != levelP+1 {
				c.Fatalf("%s: %d and %d moduli instead of %d and %d", w, len(k.Value[i][h].Q.Coeffs), len(k.Value[i][h].P.Coeffs), levelQ+1, levelP+1)
			}
		}
		b, m := rowsQP(p, k.Value[i][0], true, true)
		a, _ := rowsQP(p, k.Value[i][1], true, true)
		x := addMul(p, b, a, sOut, m)
		for j := i * alpha; j < (i+1)*alpha && j <= levelQ; j++ {
			q := m[j]
			g := new(big.Int).Mod(P, new(big.Int).SetUint64(q)).Uint64()
			for t, v := range bigRow(sIn, q) {
				x[j][t] = vh.SubMod(x[j][t], vh.MulMod(g, v, q), q)
			}
		}
		e := vh.NewCRT(m).Centered(x)
		f.mask(w, a)
		f.noise(w, p, e)
		es = append(es, e)
	}
	return
}

func drawParams(c *vh.C, pLo, extra int) vh.RP {
	o := vh.RO{Wide: 2, LogNLo: 4, LogNHi: 6, QLo: 1, QHi: 6, PLo: pLo, PHi: 4, BitsLo: 20, BitsHi: 61, CI: extra == 0, BigSigma: true, Extra: extra}
	switch c.Uni(0, 3, "bits") {
	case 0:
		o.BitsLo, o.BitsHi = 50, 61
	case 1:
		o.BitsLo, o.BitsHi = 20, 31
	case 2:
		o.BitsLo, o.BitsHi, o.BigSigma, o.LogNHi = 12, 15, false, 5
	}
	return c.RLWE(o, "p")
}

func weight(s []int64) (w int) {
	for _, v := range s {
		if v != 0 {
			w++
		}
	}
	return
}

func secret(c *vh.C, p vh.RP, kg rlwe.KeyGenerator, label string) (*rlwe.SecretKey, []int64) {
	var sk *rlwe.SecretKey
	switch c.Uni(0, 2, label) {
	case 0:
		sk = kg.GenSecretKey()
	case 1:
		sk = kg.GenSecretKeyGaussian()
	default:
		sk = kg.GenSecretKeyWithHammingWeight(c.Uni(1, p.N(), label+".w"))
	}
	return sk, vh.Secret(c, p.Parameters, sk)
}

func TestSecretKeys(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 700, Thorough: 3000, Rule: "several keys of each distribution from one generator; non-trivial: at least two moduli"}, func(c *vh.C) {
		p := drawParams(c, 0, 0)
		kg := rlwe.NewKeyGenerator(p.Parameters)
		f := newFresh(c)
		c.NonTrivial(p.QPCount() > 1)
		h := p.HammingWeight()
		if h > p.N() {
			h = p.N()
		}
		for i := 0; i < 4; i++ {
			kind := c.Pick("kind", "default", "pair", "gaussian", "weight", "density")
			c.Class("%s", kind)
			var sk *rlwe.SecretKey
			var pk *rlwe.PublicKey
			want, inf := h, int64(1)
			switch kind {
			case "default":
				sk = kg.GenSecretKey()
			case "pair":
				sk, pk = kg.GenKeyPair()
			case "gaussian":
				sk, want, inf = kg.GenSecretKeyGaussian(), -1, p.Noise
			case "weight":
				want = c.Uni(1, p.N(), "w")
				sk = kg.GenSecretKeyWithHammingWeight(want)
			default:
				sk, want = kg.GenSecretKeyWithDistrib(c.Rng("density").Float64()*0.98+0.01), -1
			}
			s := vh.Secret(c, p.Parameters, sk)
			if len(sk.Value.Q.Coeffs) != p.QCount() || p.PCount() > 0 && len(sk.Value.P.Coeffs) != p.PCount() {
				c.Fatalf("%s secret key: wrong number of moduli", kind)
			}
			if vh.LInf(s) > inf {
				c.Fatalf("%s secret key: coefficient of size %d, at most %d expected", kind, vh.LInf(s), inf)
			}
			if want >= 0 && weight(s) != want {
				c.Fatalf("%s secret key: %d non-zero coefficients, expected %d", kind, weight(s), want)
			}
			if kind != "density" && weight(s) >= 16 && p.N() >= 32 {
				f.add(kind+" secret key", s)
			}
			if pk != nil {
				publicKey(f, "key pair", p, pk, s)
			}
		}
	})
}

func TestPublicKeys(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 500, Thorough: 2500, Rule: "several public keys of several secrets, one or two generators; non-trivial: at least two moduli"}, func(c *vh.C) {
		p := drawParams(c, 0, 0)
		f := newFresh(c)
		c.NonTrivial(p.QPCount() > 1)
		for g := 0; g < 2; g++ {
			kg := rlwe.NewKeyGenerator(p.Parameters)
			for i := 0; i < 2; i++ {
				sk, s := secret(c, p, kg, "sk")
				before := sk.CopyNew()
				publicKey(f, fmt.Sprintf("generator %d, public key %d", g, i), p, kg.GenPublicKey(sk), s)
				publicKey(f, fmt.Sprintf("generator %d, second public key %d", g, i), p, kg.GenPublicKey(sk), s)
				if !before.Value.Equals(sk.Value) {
					c.Fatalf("GenPublicKey modifies the secret key")
				}
			}
		}
	})
}

func trunc(sk *rlwe.SecretKey, lq, lp int) *rlwe.SecretKey {
	k := sk.CopyNew()
	k.Value.Q.Coeffs = k.Value.Q.Coeffs[:lq+1]
	k.Value.P.Coeffs = k.Value.P.Coeffs[:lp+1]
	return k
}

func TestSwitchingKeys(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 450, Thorough: 2500, Rule: "switching keys between two secrets held at different levels and numbers of auxiliary moduli; non-trivial: at least two digits"}, func(c *vh.C) {
		p := drawParams(c, 1, 0)
		f := newFresh(c)
		kg := rlwe.NewKeyGenerator(p.Parameters)
		for i := 0; i < 2; i++ {
			sk1, s1 := secret(c, p, kg, "in")
			sk2, s2 := secret(c, p, kg, "out")
			lq, lp := p.MaxLevel(), p.PCount()-1
			if c.Bool("lowout") {
				lq, lp = c.Uni(0, lq, "lq"), c.Uni(0, lp, "lp")
			}
			lin := c.Uni(0, p.MaxLevel(), "lin")
			if c.Bool("fullin") {
				lin = p.MaxLevel()
			}
			in, out := trunc(sk1, lin, p.PCount()-1), trunc(sk2, lq, lp)
			k1, k2 := in.CopyNew(), out.CopyNew()
			c.Class("levels=%d/aux=%d/in<out=%v", lq, lp, lin < lq)
			c.NonTrivial(lq > lp)
			k := kg.GenSwitchingKey(in, out)
			switchingKey(f, fmt.Sprintf("GenSwitchingKey from level %d to level %d, %d auxiliary moduli", lin, lq, lp+1), p, k, vh.Ints(s1), s2, lq, lp)
			if !k1.Value.Equals(in.Value) || !k2.Value.Equals(out.Value) {
				c.Fatalf("GenSwitchingKey modifies a secret key")
			}
		}
	})
}

func spread(s []int64, gap int) []int64 {
	o := make([]int64, len(s)*gap)
	for i := range s {
		o[i*gap] = s[i]
	}
	return o
}

func TestDegreeSwitchingKeys(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 250, Thorough: 1200, Rule: "secrets of two ring degrees, both directions, and conjugate-invariant to standard bridge keys; non-trivial: always"}, func(c *vh.C) {
		c.NonTrivial(true)
		extra := c.Uni(1, 2, "extra")
		small := drawParams(c, 1, extra)
		lp, err := rlwe.NewParameters(small.LogN()+extra, small.Q(), small.P(), small.HammingWeight(), small.Sigma(), ring.Standard)
		if err != nil {
			c.Fatalf("%v", err)
		}
		large := vh.NewRP(lp)
		f := newFresh(c)
		kgS, kgL := rlwe.NewKeyGenerator(small.Parameters), rlwe.NewKeyGenerator(large.Parameters)
		skL, sL := secret(c, large, kgL, "large")
		if extra == 1 && c.Bool("bridge") {
			c.Class("bridge")
			cp, err := rlwe.NewParameters(small.LogN(), small.Q(), small.P(), small.HammingWeight(), small.Sigma(), ring.ConjugateInvariant)
			if err != nil {
				c.Fatalf("%v", err)
			}
			ci := vh.NewRP(cp)
			skC, sC := secret(c, ci, rlwe.NewKeyGenerator(cp), "ci")
			u := make([]int64, large.N())
			u[0] = sC[0]
			for i := 1; i < len(sC); i++ {
				u[i], u[len(u)-i] = sC[i], -sC[i]
			}
			for i := 0; i < 2; i++ {
				toCI, toStd := kgL.GenSwitchingKeysForRingSwap(skL, skC)
				switchingKey(f, "GenSwitchingKeysForRingSwap standard to conjugate-invariant", large, toCI, vh.Ints(sL), u, large.MaxLevel(), large.PCount()-1)
				switchingKey(f, "GenSwitchingKeysForRingSwap conjugate-invariant to standard", large, toStd, vh.Ints(u), sL, large.MaxLevel(), large.PCount()-1)
			}
			return
		}
		skS, sS := secret(c, small, kgS, "small")
		lvl, aux := small.MaxLevel(), small.PCount()-1
		if c.Bool("lowsmall") {
			lvl, aux = c.Uni(0, lvl, "lvl"), c.Uni(0, aux, "aux")
		}
		skS = trunc(skS, lvl, aux)
		up := spread(sS, 1<<uint(extra))
		c.Class("levels=%d/%d", lvl, small.MaxLevel())
		switchingKey(f, "GenSwitchingKey small to large ring", large, kgL.GenSwitchingKey(skS, skL), vh.Ints(up), sL, large.MaxLevel(), large.PCount()-1)
		switchingKey(f, "GenSwitchingKey large to small ring", large, kgL.GenSwitchingKey(skL, skS), vh.Ints(sL), up, lvl, aux)
	})
}

func TestRelinearizationKeys(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 300, Thorough: 1500, Rule: "maximum degree 1..3; non-trivial: at least two digits"}, func(c *vh.C) {
		p := drawParams(c, 1, 0)
		f := newFresh(c)
		kg := rlwe.NewKeyGenerator(p.Parameters)
		c.NonTrivial(p.QCount() > p.PCount())
		sk, s := secret(c, p, kg, "sk")
		before := sk.CopyNew()
		for i := 0; i < 2; i++ {
			d := c.Uni(1, 3, "maxDegree")
			rlk := kg.GenRelinearizationKey(sk, d)
			if len(rlk.Keys) != d {
				c.Fatalf("GenRelinearizationKey(%d): %d keys", d, len(rlk.Keys))
			}
			x := vh.Ints(s)
			for j := range rlk.Keys {
				x = vh.BigMul(x, vh.Ints(s), p.RingType())
				switchingKey(f, fmt.Sprintf("relinearization key %d of degree %d", i, j), p, rlk.Keys[j], x, s, p.MaxLevel(), p.PCount()-1)
			}
		}
		if !before.Value.Equals(sk.Value) {
			c.Fatalf("GenRelinearizationKey modifies the secret key")
		}
	})
}

func modpow(g, e, m uint64) uint64 {
	return new(big.Int).Exp(new(big.Int).SetUint64(g), new(big.Int).SetUint64(e), new(big.Int).SetUint64(m)).Uint64()
}

// galois is 5^k modulo the order of the ring's roots, k possibly negative.
func galois(p vh.RP, k int) uint64 {
	nth := uint64(2 * p.N())
	if p.RingType() == ring.ConjugateInvariant {
		nth *= 2
	}
	ord := int(nth / 4)
	return modpow(5, uint64(((k%ord)+ord)%ord), nth)
}

func inverse(p vh.RP, g uint64) uint64 {
	nth := int64(2 * p.N())
	if p.RingType() == ring.ConjugateInvariant {
		nth *= 2
	}
	return new(big.Int).ModInverse(new(big.Int).SetUint64(g), big.NewInt(nth)).Uint64()
}

func TestRotationKeys(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 300, Thorough: 1500, Rule: "every entry point for Galois keys, rotation amounts of either sign and beyond the ring degree, repeated elements; non-trivial: at least one element"}, func(c *vh.C) {
		p := drawParams(c, 1, 0)
		f := newFresh(c)
		kg := rlwe.NewKeyGenerator(p.Parameters)
		sk, s := secret(c, p, kg, "sk")
		before := sk.CopyNew()
		std := p.RingType() == ring.Standard
		rot := func(i int) int {
			r := c.Uni(0, 4*p.N(), fmt.Sprintf("rot%d", i)) - 2*p.N()
			if c.Chance(1, 12, "huge") {
				r = []int{math.MaxInt64, math.MinInt64, 1 << 40, -(1 << 40) - 1}[c.Uni(0, 3, "which")]
			}
			return r
		}
		one := func(what string, k *rlwe.SwitchingKey, g uint64) {
			switchingKey(f, what, p, k, vh.Ints(s), vh.AutoInts(s, inverse(p, g), p.RingType()), p.MaxLevel(), p.PCount()-1)
		}
		set := func(what string, rks *rlwe.RotationKeySet, want []uint64) {
			distinct := map[uint64]bool{}
			for _, g := range want {
				distinct[g] = true
			}
			var got []uint64
			for g := range rks.Keys {
				got = append(got, g)
			}
			sort.Slice(got, func(i, j int) bool { return got[i] < got[j] })
			if len(got) != len(distinct) {
				c.Fatalf("%s: keys for elements %v, requested %v", what, got, want)
			}
			for g := range distinct {
				k, ok := rks.GetRotationKey(g)
				if !ok {
					c.Fatalf("%s: no key for element %d (keys for %v)", what, g, got)
				}
				one(fmt.Sprintf("%s, element %d", what, g), k, g)
			}
		}
		kind := c.Pick("entry", "list", "rotations", "innersum", "by", "galois", "row")
		c.Class("%s", kind)
		c.NonTrivial(true)
		switch kind {
		case "list":
			var gs []uint64
			for i := c.Uni(0, 4, "count"); i > 0; i-- {
				g := galois(p, rot(i))
				if std && c.Bool("neg") {
					g = uint64(2*p.N()) - g
				}
				gs = append(gs, g)
				if c.Chance(1, 4, "dup") {
					gs = append(gs, g)
				}
			}
			set(fmt.Sprintf("GenRotationKeys(%v)", gs), kg.GenRotationKeys(gs, sk), gs)
		case "rotations":
			var ks []int
			var gs []uint64
			for i := c.Uni(0, 3, "count"); i > 0; i-- {
				k := rot(i)
				ks = append(ks, k)
				gs = append(gs, galois(p, k))
			}
			conj := std && c.Bool("conj")
			if conj {
				gs = append(gs, uint64(2*p.N())-1)
			}
			set(fmt.Sprintf("GenRotationKeysForRotations(%v, %v)", ks, conj), kg.GenRotationKeysForRotations(ks, conj, sk), gs)
		case "innersum":
			var gs []uint64
			for i := 0; i < p.LogN()-1; i++ {
				gs = append(gs, galois(p, 1<<uint(i)))
			}
			if std {
				gs = append(gs, uint64(2*p.N())-1)
			} else {
				gs = append(gs, galois(p, 1<<uint(p.LogN()-1)))
			}
			set("GenRotationKeysForInnerSum", kg.GenRotationKeysForInnerSum(sk), gs)
		case "by":
			k := rot(0)
			one(fmt.Sprintf("GenSwitchingKeyForRotationBy(%d)", k), kg.GenSwitchingKeyForRotationBy(k, sk), galois(p, k))
		case "galois":
			g := galois(p, rot(0))
			if std && c.Bool("neg") {
				g = uint64(2*p.N()) - g
			}
			one(fmt.Sprintf("GenSwitchingKeyForGalois(%d)", g), kg.GenSwitchingKeyForGalois(g, sk), g)
			one(fmt.Sprintf("GenSwitchingKeyForGalois(%d)", g), kg.GenSwitchingKeyForGalois(g, sk), g)
		default:
			if std {
				one("GenSwitchingKeyForRowRotation", kg.GenSwitchingKeyForRowRotation(sk), uint64(2*p.N())-1)
			}
		}
		if !before.Value.Equals(sk.Value) {
			c.Fatalf("%s modifies the secret key", kind)
		}
	})
}

// Encryptions under a public key made of constants show the encryption's own randomness: with pk = (D, D) the result
// is (D u + e0 + m, D u + e1); with auxiliary moduli, from a constant D p + off in both places, it is
// D u + round((off u + e)/p), which shows u and, for off 0 or (p-1)/2 depending on the rounding, the signs of the errors.
func TestEncryptionRandomness(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 500, Thorough: 2500, Rule: "encryptions by an encryptor, its copies and another encryptor under a crafted public key or a secret key; non-trivial: the randomness can be read off"}, func(c *vh.C) {
		o := vh.RO{LogNLo: 5, LogNHi: 7, QLo: 1, QHi: 4, PLo: 0, PHi: 2, BitsLo: 30, BitsHi: 61, CI: true, BigSigma: true}
		p := c.RLWE(o, "p")
		r := c.Rng("data")
		kg := rlwe.NewKeyGenerator(p.Parameters)
		f := newFresh(c)
		usePk := c.Bool("pk")
		D := int64(4*p.Noise + 1)
		sk, s := secret(c, p, kg, "sk")
		P0 := uint64(1)
		if p.PCount() > 0 {
			P0 = p.P()[0]
		}
		// crafted is a public key made of the constant D p + off
		crafted := func(off uint64) *rlwe.PublicKey {
			pk := rlwe.NewPublicKey(p.Parameters)
			set := func(x *ring.Poly, m []uint64) {
				for i, q := range m {
					for j := range x.Coeffs[i] {
						x.Coeffs[i][j] = vh.AddMod(vh.MulMod(uint64(D)%q, P0%q, q), off%q, q)
					}
				}
			}
			for h := range pk.Value {
				set(pk.Value[h].Q, p.Q())
				if p.PCount() > 0 {
					set(pk.Value[h].P, p.P())
				}
			}
			return pk
		}
		keys := []interface{}{sk, sk}
		if usePk {
			keys = []interface{}{crafted(0), crafted((P0 - 1) / 2)}
		}
		var encs [2][]rlwe.Encryptor
		for i, key := range keys {
			e := rlwe.NewEncryptor(p.Parameters, key)
			encs[i] = []rlwe.Encryptor{e, rlwe.NewEncryptor(p.Parameters, key), e.ShallowCopy(), e.WithKey(keys[1-i]).WithKey(key)}
		}
		var signs [2][2][]int64
		// varies[half]: coefficients with the same mask value got different rounded errors
		var varies [2]bool
		h := p.HammingWeight()
		if h > p.N() {
			h = p.N()
		}
		for k := 0; k < 6; k++ {
			lvl := c.Uni(0, p.MaxLevel(), "level")
			if vh.Prod(p.Q()[:lvl+1]).Cmp(big.NewInt(8*D)) < 0 {
				continue
			}
			ntt := c.Bool("ntt")
			ct := rlwe.NewCiphertext(p.Parameters, 1, lvl)
			if ntt {
				ct = rlwe.NewCiphertextNTT(p.Parameters, 1, lvl)
			}
			pt := rlwe.NewPlaintext(p.Parameters, lvl)
			pt.Value.IsNTT = c.Bool("ptntt")
			vh.Fill(r, pt.Value, p.Q()[:lvl+1], "uniform")
			who := r.IntN(4)
			encs[k&1][who].Encrypt(pt, ct)
			what := fmt.Sprintf("encryption %d (encryptor %d, pk %v, P %d, ntt %v)", k, who, usePk, p.PCount(), ntt)
			c.NonTrivial(true)
			m := p.Q()[:lvl+1]
			mr := vh.CoeffRows(p.RingQ(), pt.Value, lvl, pt.Value.IsNTT, false)
			c1 := vh.CoeffRows(p.RingQ(), ct.Value[1], lvl, ntt, false)
			if !usePk {
				c.Class("sk")
				f.mask(what, c1)
				f.noise(what, p, vh.BigRows(vh.SubRows(vh.PhaseRows(p.RingQ(), ct.Value, ntt, s, lvl), mr, m), m))
				continue
			}
			x0 := vh.BigRows(vh.SubRows(vh.CoeffRows(p.RingQ(), ct.Value[0], lvl, ntt, false), mr, m), m)
			x1 := vh.BigRows(c1, m)
			var u0, u1 []int64
			e0, e1 := make([]*big.Int, p.N()), make([]*big.Int, p.N())
			split := func(x []*big.Int, e []*big.Int) (u []int64) {
				bd := big.NewInt(D)
				for i, v := range x {
					// nearest multiple of D
					t := new(big.Int).Add(new(big.Int).Lsh(v, 1), bd)
					t.Div(t, new(big.Int).Lsh(bd, 1))
					u = append(u, t.Int64())
					e[i] = new(big.Int).Sub(v, t.Mul(t, bd))
				}
				return
			}
			u0, u1 = split(x0, e0), split(x1, e1)
			if fmt.Sprint(u0) != fmt.Sprint(u1) {
				c.Fatalf("%s: the two halves use different masks %v, %v", what, u0, u1)
			}
			if vh.LInf(u0) > 1 || weight(u0) != h {
				c.Fatalf("%s: mask of size %d with %d non-zero coefficients, expected a ternary one with %d", what, vh.LInf(u0), weight(u0), h)
			}
			if h >= 8 {
				f.add(what+", mask", u0)
			}
			if P0 == 1 {
				c.Class("pk without P")
				f.noise(what+", first error", p, e0)
				f.noise(what+", second error", p, e1)
			} else {
				c.Class("pk with P")
				b := vh.Big(2)
				if vh.MaxAbs(e0).Cmp(b) > 0 || vh.MaxAbs(e1).Cmp(b) > 0 {
					c.Fatalf("%s: error of size %v, %v, at most %v expected", what, vh.MaxAbs(e0), vh.MaxAbs(e1), b)
				}
				for half, e := range [][]*big.Int{e0, e1} {
					first := map[int64]*big.Int{}
					for i, u := range u0 {
						if v, ok := first[u]; !ok {
							first[u] = e[i]
						} else if u != 0 && v.Cmp(e[i]) != 0 {
							varies[half] = true
						}
					}
				}
				for i := range u0 {
					signs[k&1][0] = append(signs[k&1][0], e0[i].Int64())
					signs[k&1][1] = append(signs[k&1][1], e1[i].Int64())
				}
			}
		}
		// depending on how the division rounds, the errors show with one of the two offsets, unless e/p is too small
		// for the division's floating-point step
		if h >= 48 && P0 < 1<<45 && len(signs[0][0]) > 0 && len(signs[1][0]) > 0 {
			if fmt.Sprint(signs[0][0], signs[1][0]) == fmt.Sprint(signs[0][1], signs[1][1]) {
				c.Fatalf("the two errors of public-key encryptions are the same")
			}
			for half, ok := range varies {
				if !ok {
					c.Fatalf("component %d of public-key encryptions carries no error", half)
				}
			}
		}
	})
}

// deviation checks mean and variance of independent error samples (8 standard errors plus the effect of rounding).
func deviation(c *vh.C, what string, x []float64, sigma, unit float64) {
	n := float64(len(x))
	var m, v float64
	for _, e := range x {
		m += e
		v += e * e
	}
	m, v = m/n, v/n
	if math.Abs(m) > 8*sigma/math.Sqrt(n)+unit {
		c.Fatalf("%s: mean %g over %d samples, deviation %g", what, m, len(x), sigma)
	}
	if s2 := sigma * sigma; math.Abs(v-s2) > 8*s2*math.Sqrt(2/n)+2*sigma*unit*0.6+unit*unit {
		c.Fatalf("%s: variance %g over %d samples, expected %g", what, v, len(x), s2)
	}
}

func TestStatistics(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 12, Thorough: 40, Rule: "errors of public, switching and rotation keys and of encryptions pooled over one case (about 10^4 samples), density of ternary secrets; non-trivial: always"}, func(c *vh.C) {
		o := vh.RO{LogNLo: 8, LogNHi: 9, QLo: 2, QHi: 4, PLo: 1, PHi: 2, BitsLo: 30, BitsHi: 60, CI: false, BigSigma: true}
		p := c.RLWE(o, "p")
		c.NonTrivial(true)
		kg := rlwe.NewKeyGenerator(p.Parameters)
		f := newFresh(c)
		sk := kg.GenSecretKey()
		s := vh.Secret(c, p.Parameters, sk)
		var all []float64
		put := func(es ...[]*big.Int) {
			for _, e := range es {
				for _, v := range e {
					all = append(all, float64(v.Int64()))
				}
			}
		}
		for i := 0; i < 4; i++ {
			put(publicKey(f, "public key", p, kg.GenPublicKey(sk), s))
		}
		deviation(c, "public key error", all, p.Sigma(), 0.3)
		all = nil
		for i := 0; i < 4; i++ {
			k := kg.GenSwitchingKey(sk, sk)
			put(switchingKey(f, "switching key", p, k, vh.Ints(s), s, p.MaxLevel(), p.PCount()-1)...)
		}
		deviation(c, "switching key error", all, p.Sigma(), 0.3)
		all = nil
		enc := rlwe.NewEncryptor(p.Parameters, sk)
		for i := 0; i < 6; i++ {
			ct := rlwe.NewCiphertext(p.Parameters, 1, p.MaxLevel())
			ct.Value[0].IsNTT = i&1 == 0
			enc.Encrypt(rlwe.NewPlaintext(p.Parameters, p.MaxLevel()), ct)
			put(vh.Phase(p.RingQ(), ct.Value, i&1 == 0, s, p.MaxLevel()))
		}
		deviation(c, "encryption error", all, p.Sigma(), 0.3)
		all = nil
		for i := 0; i < 8; i++ {
			for _, v := range vh.Secret(c, p.Parameters, kg.GenSecretKeyGaussian()) {
				all = append(all, float64(v))
			}
		}
		deviation(c, "Gaussian secret", all, p.Sigma(), 0.3)
		pz := float64(c.Uni(1, 9, "density")) / 10
		var nz, pos, n float64
		for i := 0; i < 8; i++ {
			for _, v := range vh.Secret(c, p.Parameters, kg.GenSecretKeyWithDistrib(pz)) {
				n++
				if v != 0 {
					nz++
				}
				if v > 0 {
					pos++
				}
			}
		}
		if math.Abs(nz-n*(1-pz)) > 8*math.Sqrt(n*pz*(1-pz)) || math.Abs(pos-nz/2) > 8*math.Sqrt(nz)/2 {
			c.Fatalf("secret with zero probability %g: %g of %g non-zero, %g positive", pz, nz, n, pos)
		}
	})
}
