package c13

import (
	"fmt"
	"math/big"
	"testing"

	"fast-ksw/frlwe"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"vharness/vh"
)

type env struct {
	frlwe.Parameters
	rp vh.RP
}

// draw generates a parameter set whose auxiliary ring T is just large enough (by a drawn margin) for the products the
// key switcher computes in it: beta N (digit modulus)(key block modulus), signed.
func draw(c *vh.C) env {
	logN := c.Deg(4, 6, 11, "logN")
	nq, np := c.Uni(1, 8, "q"), c.Uni(1, 4, "p")
	if c.Chance(1, 10, "many") {
		logN, nq, np = 4, c.Uni(9, 20, "manyq"), c.Uni(1, 7, "manyp")
	}
	digits := c.Chance(1, 6, "digits") // many digits: exercises the overflow margins of the accumulators
	if digits {
		logN, nq, np = 4, c.Uni(9, 24, "digitsq"), c.Uni(1, 2, "digitsp")
	}
	gamma := c.Uni(1, 4, "gamma")
	if c.Chance(1, 10, "widegamma") {
		gamma = c.Uni(1, nq+np, "gammav")
	}
	nth := uint64(2) << uint(logN)
	lo, hi := 30, 61
	switch c.Uni(0, 3, "bits") {
	case 0:
		lo = 55
	case 1:
		lo, hi = 20, 33
	}
	m := c.Moduli(nq+np, nth, lo, hi, "m")
	Q, P := m[:nq], m[nq:]
	T := c.TModuli(Q, P, gamma, logN, digits && c.Bool("digitsT61"))
	h := 0
	if c.Bool("h") {
		h = c.Uni(1, 1<<uint(logN), "hv")
	}
	c.Note("logN=%d q=%d p=%d gamma=%d moduli %d..%d h=%d", logN, nq, np, gamma, lo, hi, h)
	var p frlwe.Parameters
	if e := vh.Panics(func() {
		p = frlwe.NewParametersFromLiteral(frlwe.ParametersLiteral{LogN: logN, Q: Q, P: P, T: T, H: h, Gamma: gamma})
	}); e != "" {
		c.Fatalf("NewParametersFromLiteral: %s", e)
	}
	c.Class("alpha=%d/gamma=%d", np, gamma)
	return env{p, vh.NewRP(p.Parameters)}
}

func bound(p vh.RP, levelQ int, sOut []int64) *big.Int {
	b := new(big.Int)
	a := p.PCount()
	for i := 0; i <= levelQ; i += a {
		hi := i + a
		if hi > levelQ+1 {
			hi = levelQ + 1
		}
		b.Add(b, vh.Prod(p.Q()[i:hi]))
	}
	b.Mul(b, big.NewInt(2*int64(p.N())*p.Noise))
	b.Div(b, vh.Prod(p.P()))
	return b.Add(b, big.NewInt(3+(1+vh.L1(sOut))*103/100))
}

// one switches a random polynomial at a random level and checks c0 + c1 sOut = a sIn within the bound.
func one(c *vh.C, r *vh.Rand, e env, ksw *frlwe.KeySwitcher, what string, key [2]*frlwe.SwitchingKey, sIn []*big.Int, sOut []int64) {
	p := e.rp
	lvl := p.MaxLevel()
	if c.Chance(2, 3, "lower") {
		lvl = c.Uni(0, lvl, "level")
	}
	m := p.Q()[:lvl+1]
	tall := func(l string) int {
		if c.Bool(l) {
			return p.QCount()
		}
		return lvl + 1
	}
	a := ring.NewPoly(p.N(), tall("ta"))
	vh.Fill(r, a, p.Q()[:len(a.Coeffs)], [...]string{"uniform", "uniform", "edge", "max", "zero"}[r.IntN(5)])
	out := func() *ring.Poly {
		x := ring.NewPoly(p.N(), tall("to"))
		vh.Fill(r, x, p.Q()[:len(x.Coeffs)], "uniform")
		return x
	}
	c0, c1 := out(), out()
	before := vh.Clone(a)
	if c.Chance(1, 3, "earlier") {
		in := []interface{}{a}
		if c.Bool("otherkey") {
			in = append(in, key)
		}
		vh.Earlier(func() { ksw.SwitchKey(lvl, a, key[0], key[1], out(), out()) }, in...)
	}
	ksw.SwitchKey(lvl, a, key[0], key[1], c0, c1)
	what = fmt.Sprintf("%s at level %d of %d", what, lvl, p.MaxLevel())
	if !vh.Same(before, a) {
		c.Fatalf("%s: the input is modified", what)
	}
	for _, x := range []*ring.Poly{c0, c1} {
		for i, q := range m {
			for _, v := range x.Coeffs[i] {
				if v > q {
					c.Fatalf("%s: %d is not reduced modulo %d", what, v, q)
				}
			}
		}
	}
	got := vh.PhaseRows(p.RingQ(), []*ring.Poly{c0, c1}, false, sOut, lvl)
	want := make([][]uint64, len(m))
	for i, q := range m {
		bq := new(big.Int).SetUint64(q)
		s := make([]uint64, p.N())
		for j := range s {
			s[j] = new(big.Int).Mod(sIn[j], bq).Uint64()
		}
		want[i] = vh.NegMul(a.Coeffs[i], s, q)
	}
	b := bound(p, lvl, sOut)
	err := vh.MaxAbs(vh.BigRows(vh.SubRows(got, want, m), m))
	if err.Cmp(b) > 0 {
		c.Fatalf("%s: error of %d bits exceeds the bound of %d bits (modulus %d bits)", what, err.BitLen(), b.BitLen(), vh.Prod(m).BitLen())
	}
	c.NonTrivial(new(big.Int).Lsh(b, 2).Cmp(vh.Prod(m)) < 0)
	// the same call on a new key switcher, and again on this one, gives the same result
	if c.Chance(1, 3, "fresh") {
		for i, k := range []*frlwe.KeySwitcher{frlwe.NewKeySwitcher(e.Parameters), ksw} {
			d0, d1 := out(), out()
			k.SwitchKey(lvl, a, key[0], key[1], d0, d1)
			if !vh.SameCoeffs(c0, d0, lvl) || !vh.SameCoeffs(c1, d1, lvl) {
				c.Fatalf("%s: a used key switcher gives another result than %s", what, [...]string{"a new one", "at its next call"}[i])
			}
		}
	}
}

func secret(c *vh.C, e env, kg *frlwe.KeyGenerator) (*rlwe.SecretKey, []int64) {
	var sk *rlwe.SecretKey
	var pk *rlwe.PublicKey
	switch c.Uni(0, 4, "sk") {
	case 0:
		sk = kg.GenSecretKey()
	case 1:
		sk = kg.GenSecretKeyGaussian()
	case 2:
		sk, pk = kg.GenKeyPair()
	case 3:
		sk = kg.GenSecretKeyWithDistrib(0.5)
	default:
		sk = kg.GenSecretKeyWithHammingWeight(c.Uni(1, e.N(), "w"))
	}
	s := vh.Secret(c, e.Parameters.Parameters, sk)
	if pk == nil {
		pk = kg.GenPublicKey(sk)
	}
	usable(c, e, sk, s, pk)
	return sk, s
}

// usable encrypts under the public key and decrypts.
func usable(c *vh.C, e env, sk *rlwe.SecretKey, s []int64, pk *rlwe.PublicKey) {
	p := e.Parameters.Parameters
	ct := rlwe.NewCiphertext(p, 1, p.MaxLevel())
	rlwe.NewEncryptor(p, pk).Encrypt(rlwe.NewPlaintext(p, p.MaxLevel()), ct)
	b := vh.Big(e.rp.Noise*(int64(e.N())+1+vh.L1(s))/int64(p.P()[0]) + 3 + vh.L1(s)*102/100)
	if x := vh.MaxAbs(vh.Phase(p.RingQ(), ct.Value, false, s, p.MaxLevel())); x.Cmp(b) > 0 {
		c.Fatalf("public key of the fast key generator: encryption error of %d bits", x.BitLen())
	}
}

func TestRelinearization(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 700, Thorough: 3000, Rule: "parameters with T just large enough, 1..4 calls on one key switcher at different levels; non-trivial: bound below a quarter of the modulus"}, func(c *vh.C) {
		e := draw(c)
		r := c.Rng("data")
		kg := frlwe.NewKeyGenerator(e.Parameters)
		ksw := frlwe.NewKeySwitcher(e.Parameters)
		sk, s := secret(c, e, kg)
		before := sk.CopyNew()
		rlk := kg.GenRelinKey(sk)
		if !before.Value.Equals(sk.Value) {
			c.Fatalf("GenRelinKey modifies the secret key")
		}
		s2 := vh.BigMul(vh.Ints(s), vh.Ints(s), ring.Standard)
		for k := c.Uni(1, 4, "count"); k > 0; k-- {
			one(c, r, e, ksw, "relinearization", rlk.Value, s2, s)
		}
	})
}

func TestRotation(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 700, Thorough: 3000, Rule: "rotation keys for amounts of either sign and beyond the slot count, several keys alternating on one key switcher; non-trivial: bound below a quarter of the modulus"}, func(c *vh.C) {
		e := draw(c)
		r := c.Rng("data")
		kg := frlwe.NewKeyGenerator(e.Parameters)
		ksw := frlwe.NewKeySwitcher(e.Parameters)
		sk, s := secret(c, e, kg)
		before := sk.CopyNew()
		n := int64(2 * e.N())
		for k := c.Uni(1, 3, "keys"); k > 0; k-- {
			rot := c.Uni(0, 3*e.N(), "rot") - e.N()
			if c.Chance(1, 15, "huge") {
				rot = []int{1<<62 + 3, -(1 << 62) - 1, 1 << 33}[c.Uni(0, 2, "which")]
			}
			rtk := kg.GenRotKey(rot, sk)
			if !before.Value.Equals(sk.Value) {
				c.Fatalf("GenRotKey modifies the secret key")
			}
			if (int(rtk.Rotidx)-rot)%(e.N()/2) != 0 {
				c.Fatalf("GenRotKey(%d): recorded rotation %d", rot, int(rtk.Rotidx))
			}
			ord := e.N() / 2
			g := new(big.Int).Exp(big.NewInt(5), big.NewInt(int64(((rot%ord)+ord)%ord)), big.NewInt(n))
			gi := new(big.Int).ModInverse(g, big.NewInt(n)).Uint64()
			sOut := vh.AutoInts(s, gi, ring.Standard)
			for j := c.Uni(1, 2, "count"); j > 0; j-- {
				one(c, r, e, ksw, fmt.Sprintf("rotation by %d", rot), rtk.Value, vh.Ints(s), sOut)
			}
		}
	})
}

// the embedded rlwe generator's entry points work on a fast key generator, too
func TestEntryPoints(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 150, Thorough: 700, Rule: "standard relinearization, switching and Galois keys made by the fast key generator, used by the standard key switcher; non-trivial: bound below a quarter of the modulus"}, func(c *vh.C) {
		e := draw(c)
		p := e.rp
		r := c.Rng("data")
		kg := frlwe.NewKeyGenerator(e.Parameters)
		sk, s := secret(c, e, kg)
		sk2, s2 := secret(c, e, kg)
		ks := rlwe.NewKeySwitcher(e.Parameters.Parameters)
		kg.GenRelinKey(sk)
		var key *rlwe.SwitchingKey
		in, out := vh.Ints(s), s2
		switch kind := c.Pick("kind", "relin", "switch", "galois", "rotation"); kind {
		case "relin":
			key, in, out = kg.GenRelinearizationKey(sk, 1).Keys[0], vh.BigMul(in, in, ring.Standard), s
		case "switch":
			key = kg.GenSwitchingKey(sk, sk2)
		case "galois":
			g := uint64(2*p.N()) - 1
			key, out = kg.GenSwitchingKeyForGalois(g, sk), vh.AutoInts(s, g, ring.Standard)
		default:
			k := c.Uni(0, p.N(), "k")
			key = kg.GenSwitchingKeyForRotationBy(k, sk)
			n := int64(2 * p.N())
			g := new(big.Int).Exp(big.NewInt(5), big.NewInt(int64(k)), big.NewInt(n))
			out = vh.AutoInts(s, new(big.Int).ModInverse(g, big.NewInt(n)).Uint64(), ring.Standard)
		}
		lvl := c.Uni(0, p.MaxLevel(), "level")
		m := p.Q()[:lvl+1]
		a := ring.NewPoly(p.N(), lvl+1)
		vh.Fill(r, a, m, "uniform")
		c0, c1 := ring.NewPoly(p.N(), lvl+1), ring.NewPoly(p.N(), lvl+1)
		ks.SwitchKeysInPlace(lvl, a, key, c0, c1)
		got := vh.PhaseRows(p.RingQ(), []*ring.Poly{c0, c1}, false, out, lvl)
		var want [][]uint64
		for i, q := range m {
			bq := new(big.Int).SetUint64(q)
			x := make([]uint64, p.N())
			for j := range x {
				x[j] = new(big.Int).Mod(in[j], bq).Uint64()
			}
			want = append(want, vh.NegMul(a.Coeffs[i], x, q))
		}
		b := bound(p, lvl, out)
		c.NonTrivial(new(big.Int).Lsh(b, 2).Cmp(vh.Prod(m)) < 0)
		if err := vh.MaxAbs(vh.BigRows(vh.SubRows(got, want, m), m)); err.Cmp(b) > 0 {
			c.Fatalf("key of the fast generator: error of %d bits exceeds %d bits", err.BitLen(), b.BitLen())
		}
	})
}
