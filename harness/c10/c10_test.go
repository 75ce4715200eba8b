package c10

import (
	"fmt"
	"math/big"
	"testing"

	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"vharness/vh"
)

func drawParams(c *vh.C) vh.RP {
	o := vh.RO{Wide: 2, LogNLo: 4, LogNHi: 7, QLo: 1, QHi: 6, PLo: 0, PHi: 3, BitsLo: 20, BitsHi: 61, CI: true, BigSigma: true}
	switch c.Uni(0, 3, "bits") {
	case 0:
		o.BitsLo, o.BitsHi = 50, 61
	case 1:
		o.BitsLo, o.BitsHi = 20, 31
	case 2:
		o.BitsLo, o.BitsHi, o.BigSigma, o.LogNHi = 11, 14, false, 5
	}
	if o.BitsLo > 14 && c.Chance(1, 60, "big") {
		o.LogNLo, o.LogNHi = 8, 9
	}
	return c.RLWE(o, "p")
}

func genSecret(c *vh.C, p vh.RP, kg rlwe.KeyGenerator, label string) (*rlwe.SecretKey, []int64) {
	var sk *rlwe.SecretKey
	kind := c.Pick(label, "default", "gaussian", "density", "weight", "pair")
	switch kind {
	case "default":
		sk = kg.GenSecretKey()
	case "gaussian":
		sk = kg.GenSecretKeyGaussian()
	case "density":
		sk = kg.GenSecretKeyWithDistrib(float64(c.Uni(1, 9, label+".d")) / 10)
	case "weight":
		sk = kg.GenSecretKeyWithHammingWeight(c.Uni(1, p.N(), label+".w"))
	default:
		sk, _ = kg.GenKeyPair()
	}
	c.Note("sk=%s", kind)
	return sk, vh.Secret(c, p.Parameters, sk)
}

// bound of the phase error of a fresh encryption
func bound(p vh.RP, s []int64, pk bool) *big.Int {
	if !pk {
		return vh.Big(p.Noise)
	}
	l1 := vh.L1(s)
	u := p.HammingWeight()
	if u > p.N() {
		u = p.N()
	}
	e := p.Noise * (p.F*int64(u) + 1 + p.F*l1)
	if p.PCount() > 0 {
		e = e/int64(p.P()[0]) + 2 + (1+p.F*l1)*102/100 // the two roundings of the division by P
	}
	return vh.Big(e)
}

func dirty(r *vh.Rand, p vh.RP, x *ring.Poly) {
	vh.Fill(r, x, p.Q()[:len(x.Coeffs)], "uniform")
}

// plain draws a plaintext (random limbs: any element of the ring) with the given domain flag.
func plain(c *vh.C, r *vh.Rand, p vh.RP, level int, ntt bool) *rlwe.Plaintext {
	pt := rlwe.NewPlaintext(p.Parameters, level)
	vh.Fill(r, pt.Value, p.Q()[:level+1], [...]string{"uniform", "edge", "zero", "max"}[r.IntN(4)])
	pt.Value.IsNTT = ntt
	return pt
}

func sub(p vh.RP, a, b [][]uint64) []*big.Int {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	return vh.BigRows(vh.SubRows(a[:n], b[:n], p.Q()), p.Q())
}

func snapshot(xs ...*ring.Poly) []*ring.Poly {
	var o []*ring.Poly
	for _, x := range xs {
		if x == nil {
			continue
		}
		o = append(o, vh.Clone(x))
	}
	return o
}

func unchanged(c *vh.C, what string, before []*ring.Poly, xs ...*ring.Poly) {
	k := 0
	for _, x := range xs {
		if x == nil {
			continue
		}
		if !vh.Same(before[k], x) {
			c.Fatalf("%s modified", what)
		}
		k++
	}
}

// decryptAll decrypts into dirty plaintexts and compares with the phase.
func decryptAll(c *vh.C, r *vh.Rand, p vh.RP, dec rlwe.Decryptor, ct *rlwe.Ciphertext, phase [][]uint64) {
	lvl := c.Uni(0, p.MaxLevel(), "outlevel")
	out := rlwe.NewPlaintext(p.Parameters, lvl)
	dirty(r, p, out.Value)
	out.Value.IsNTT = c.Bool("outntt")
	want := ct.Level()
	if lvl < want {
		want = lvl
	}
	before := snapshot(ct.Value...)
	ntt := out.Value.IsNTT
	if c.Chance(1, 3, "earlier") {
		vh.Earlier(func() { dec.Decrypt(ct, rlwe.NewPlaintext(p.Parameters, lvl)) }, ct)
	}
	dec.Decrypt(ct, out)
	unchanged(c, "Decrypt: ciphertext", before, ct.Value...)
	if out.Level() != want || out.Value.IsNTT != ntt {
		c.Fatalf("Decrypt: ciphertext level %d, plaintext level %d ntt %v: got level %d ntt %v", ct.Level(), lvl, ntt, out.Level(), out.Value.IsNTT)
	}
	for i, row := range out.Value.Coeffs {
		for _, v := range row {
			if v > p.Q()[i] {
				c.Fatalf("Decrypt: degree %d ct ntt %v pt ntt %v: value %d is not reduced modulo %d", ct.Degree(), ct.Value[0].IsNTT, ntt, v, p.Q()[i])
			}
		}
	}
	rows := vh.CoeffRows(p.RingQ(), out.Value, want, ntt, false)
	for i := range rows {
		if j := vh.CongVec(rows[i], phase[i], p.Q()[i]); j >= 0 {
			c.Fatalf("Decrypt: degree %d level %d ct ntt %v pt ntt %v: modulus %d coefficient %d is %d, the ciphertext evaluated at the secret key is %d",
				ct.Degree(), want, ct.Value[0].IsNTT, ntt, p.Q()[i], j, rows[i][j], phase[i][j])
		}
	}
}

func newCt(c *vh.C, r *vh.Rand, p vh.RP, level int, ntt bool) *rlwe.Ciphertext {
	ct := rlwe.NewCiphertext(p.Parameters, 1, level)
	if ntt {
		ct = rlwe.NewCiphertextNTT(p.Parameters, 1, level)
	}
	if c.Bool("dirty") {
		for _, v := range ct.Value {
			dirty(r, p, v)
		}
	}
	return ct
}

func shape(c *vh.C, what string, ct *rlwe.Ciphertext, level int, ntt bool) {
	if ct.Degree() != 1 || len(ct.Value[0].Coeffs) != level+1 || len(ct.Value[1].Coeffs) != level+1 {
		c.Fatalf("%s: degree %d, %d and %d moduli; expected degree 1 and level %d", what, ct.Degree(), len(ct.Value[0].Coeffs), len(ct.Value[1].Coeffs), level)
	}
	if ct.Value[0].IsNTT != ntt || ct.Value[1].IsNTT != ntt {
		c.Fatalf("%s: NTT flags %v, %v, expected %v", what, ct.Value[0].IsNTT, ct.Value[1].IsNTT, ntt)
	}
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func TestEncryptDecrypt(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 900, Thorough: 4000, Rule: "1..4 encryptions by the same encryptor (or copies of it), plaintext/ciphertext/output levels, domains, key kind and secret distribution independent, dirty outputs; non-trivial: bound below a quarter of the modulus"}, func(c *vh.C) {
		p := drawParams(c)
		r := c.Rng("data")
		kg := rlwe.NewKeyGenerator(p.Parameters)
		sk, s := genSecret(c, p, kg, "sk")
		sk2, s2 := genSecret(c, p, kg, "sk2")
		pk := kg.GenPublicKey(sk)
		usePk := c.Bool("pk")
		var enc rlwe.Encryptor
		key := interface{}(sk)
		if usePk {
			key = pk
		}
		enc = rlwe.NewEncryptor(p.Parameters, key)
		dec := rlwe.NewDecryptor(p.Parameters, sk)
		b := bound(p, s, usePk)
		k := c.Uni(1, 4, "count")
		for i := 0; i < k; i++ {
			switch c.Uni(0, 5, "who") {
			case 0:
				enc, dec = enc.ShallowCopy(), dec.ShallowCopy()
			case 1: // through another key and back
				enc = enc.WithKey(sk2).WithKey(key)
				dec = dec.WithKey(sk2).WithKey(sk)
			}
			ptl, ctl := c.Uni(0, p.MaxLevel(), "ptlevel"), c.Uni(0, p.MaxLevel(), "ctlevel")
			lvl := min(ptl, ctl)
			ptn, ctn := c.Bool("ptntt"), c.Bool("ctntt")
			pt := plain(c, r, p, ptl, ptn)
			ct := newCt(c, r, p, ctl, ctn)
			what := fmt.Sprintf("Encrypt pk=%v P=%d pt(level %d ntt %v) ct(level %d ntt %v)", usePk, p.PCount(), ptl, ptn, ctl, ctn)
			c.Note("%s", what)
			c.Class("pk=%v/P=%v/pt=%v/ct=%v", usePk, p.PCount() > 0, ptn, ctn)
			Q := vh.Prod(p.Q()[:lvl+1])
			c.NonTrivial(new(big.Int).Lsh(b, 2).Cmp(Q) < 0)
			keys := []*ring.Poly{pt.Value, sk.Value.Q, sk.Value.P, pk.Value[0].Q, pk.Value[0].P, pk.Value[1].Q, pk.Value[1].P}
			before := snapshot(keys...)
			if c.Chance(1, 3, "earlier") {
				vh.Earlier(func() { enc.Encrypt(pt, rlwe.NewCiphertext(p.Parameters, 1, ctl)) }, pt)
			}
			enc.Encrypt(pt, ct)
			unchanged(c, what+": plaintext or key", before, keys...)
			shape(c, what, ct, lvl, ctn)
			phase := vh.PhaseRows(p.RingQ(), ct.Value, ctn, s, lvl)
			m := vh.CoeffRows(p.RingQ(), pt.Value, lvl, ptn, false)
			if e := vh.MaxAbs(sub(p, phase, m)); e.Cmp(b) > 0 {
				c.Fatalf("%s: error %v exceeds %v (Q=%v)", what, e, b, Q)
			}
			decryptAll(c, r, p, dec, ct, phase)
			// a different key does not decrypt
			if fmt.Sprint(s) != fmt.Sprint(s2) && Q.BitLen() > b.BitLen()+30 {
				wrong := vh.PhaseRows(p.RingQ(), ct.Value, ctn, s2, lvl)
				if e := vh.MaxAbs(sub(p, wrong, m)); e.Cmp(b) <= 0 {
					c.Fatalf("%s: another key decrypts it (error %v)", what, e)
				}
				if i == 0 {
					decryptAll(c, r, p, dec.WithKey(sk2), ct, wrong)
				}
			}
		}
	})
}

func TestFromCRP(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 500, Thorough: 2500, Rule: "a uniform reference polynomial (evaluation form) at or above the ciphertext's level; non-trivial: more than one modulus in the reference"}, func(c *vh.C) {
		p := drawParams(c)
		r := c.Rng("data")
		kg := rlwe.NewKeyGenerator(p.Parameters)
		sk, s := genSecret(c, p, kg, "sk")
		enc := rlwe.NewEncryptor(p.Parameters, sk)
		if c.Bool("copy") {
			enc = enc.ShallowCopy()
		}
		for i := 0; i < 2; i++ {
			ptl, ctl := c.Uni(0, p.MaxLevel(), "ptlevel"), c.Uni(0, p.MaxLevel(), "ctlevel")
			lvl := min(ptl, ctl)
			crl := c.Uni(ctl, p.MaxLevel(), "crplevel")
			ptn, ctn := c.Bool("ptntt"), c.Bool("ctntt")
			c.Class("pt=%v/ct=%v", ptn, ctn)
			c.NonTrivial(crl > 0)
			crp := ring.NewPoly(p.N(), crl+1)
			dirty(r, p, crp)
			crp.IsNTT = true
			pt := plain(c, r, p, ptl, ptn)
			ct := newCt(c, r, p, ctl, ctn)
			before := snapshot(crp, pt.Value)
			if c.Chance(1, 3, "earlier") {
				vh.Earlier(func() { enc.EncryptFromCRP(pt, crp, rlwe.NewCiphertext(p.Parameters, 1, ctl)) }, pt, crp)
			}
			enc.EncryptFromCRP(pt, crp, ct)
			unchanged(c, "EncryptFromCRP: inputs", before, crp, pt.Value)
			what := fmt.Sprintf("EncryptFromCRP pt(level %d ntt %v) ct(level %d ntt %v) crp level %d", ptl, ptn, ctl, ctn, crl)
			shape(c, what, ct, lvl, ctn)
			got := vh.CoeffRows(p.RingQ(), ct.Value[1], lvl, ctn, false)
			want := vh.CoeffRows(p.RingQ(), crp, lvl, true, false)
			for l := range got {
				if j := vh.CongVec(got[l], want[l], p.Q()[l]); j >= 0 {
					c.Fatalf("%s: the second polynomial is not the reference (modulus %d coefficient %d)", what, l, j)
				}
			}
			phase := vh.PhaseRows(p.RingQ(), ct.Value, ctn, s, lvl)
			m := vh.CoeffRows(p.RingQ(), pt.Value, lvl, ptn, false)
			if e := vh.MaxAbs(sub(p, phase, m)); e.Cmp(vh.Big(p.Noise)) > 0 {
				c.Fatalf("%s: error %v exceeds %v", what, e, p.Noise)
			}
			// what was produced must not live in the reference
			keep := vh.Clone(ct.Value[1])
			dirty(r, p, crp)
			if !vh.Same(keep, ct.Value[1]) {
				c.Fatalf("%s: the ciphertext shares memory with the reference polynomial", what)
			}
		}
		pk := kg.GenPublicKey(sk)
		if vh.Panics(func() {
			rlwe.NewEncryptor(p.Parameters, pk).EncryptFromCRP(rlwe.NewPlaintext(p.Parameters, 0), p.RingQ().NewPoly(), rlwe.NewCiphertext(p.Parameters, 1, 0))
		}) == "" {
			c.Fatalf("EncryptFromCRP with a public key is accepted")
		}
	})
}

func TestDecryptDegree(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 700, Thorough: 3000, Rule: "arbitrary ciphertexts of degree 0..10 in either domain; non-trivial: degree at least 2"}, func(c *vh.C) {
		p := drawParams(c)
		r := c.Rng("data")
		kg := rlwe.NewKeyGenerator(p.Parameters)
		sk, s := genSecret(c, p, kg, "sk")
		dec := rlwe.NewDecryptor(p.Parameters, sk)
		for i := 0; i < 2; i++ {
			deg := c.Uni(0, 10, "degree")
			ntt := c.Bool("ntt")
			lvl := c.Uni(0, p.MaxLevel(), "level")
			ct := rlwe.NewCiphertext(p.Parameters, deg, lvl)
			for _, v := range ct.Value {
				vh.Fill(r, v, p.Q()[:lvl+1], [...]string{"uniform", "edge", "zero", "max"}[r.IntN(4)])
				v.IsNTT = ntt
			}
			c.Class("degree=%d/ntt=%v", deg, ntt)
			c.NonTrivial(deg >= 2)
			decryptAll(c, r, p, dec, ct, vh.PhaseRows(p.RingQ(), ct.Value, ntt, s, lvl))
		}
	})
}

// keys of another ring degree and objects that are no key are refused
func TestRefusals(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 60, Thorough: 200, Rule: "a key generated for another ring degree; non-trivial: always"}, func(c *vh.C) {
		p := drawParams(c)
		q := drawParams(c)
		if p.N() == q.N() {
			c.Skip("same degree")
		}
		c.NonTrivial(true)
		sk, pk := rlwe.NewKeyGenerator(q.Parameters).GenKeyPair()
		for name, f := range map[string]func(){
			"NewEncryptor(sk)":  func() { rlwe.NewEncryptor(p.Parameters, sk) },
			"NewEncryptor(pk)":  func() { rlwe.NewEncryptor(p.Parameters, pk) },
			"NewEncryptor(nil)": func() { rlwe.NewEncryptor(p.Parameters, nil) },
			"NewDecryptor(sk)":  func() { rlwe.NewDecryptor(p.Parameters, sk) },
		} {
			if vh.Panics(f) == "" {
				c.Fatalf("%s: a key of degree %d is accepted for degree %d", name, q.N(), p.N())
			}
		}
	})
}
