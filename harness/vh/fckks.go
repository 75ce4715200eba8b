package vh

import (
	"math"

	"fast-ksw/ckks"
	"fast-ksw/fckks"
	"fast-ksw/frlwe"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
)

// FEnv holds the long-lived objects of a session.
type FEnv struct {
	*Prog
	c     *C
	FP    fckks.Parameters
	FKG   *frlwe.KeyGenerator
	FEval *fckks.Evaluator
	FEnc  *fckks.Encryptor
	FDec  *fckks.Decryptor
	FPk   *rlwe.PublicKey
	FRlk  *frlwe.RelinKey
	FRtk  []*frlwe.RotationKey
	FRot  []int
	key   []int // key under which SwitchKeys with the rotation key leaves the ciphertext
	Vals  int   // values of a message
	msg   *fckks.Message
	sent  *fckks.Message
}

// FSession draws parameters and keys of a fckks session.
func (c *C) FSession(rots int) *FEnv {
	logN := c.Deg(4, 6, 9, "logN")
	nq, np, gamma := c.Uni(1, 7, "q"), c.Uni(1, 3, "p"), c.Uni(1, 4, "gamma")
	lo, hi := 32, 50
	switch c.Uni(0, 5, "kind") {
	case 0:
		lo, hi = 55, 61
	case 1:
		logN, nq, np = 4, c.Uni(8, 14, "qmany"), c.Uni(1, 5, "pmany")
	case 2:
		gamma = c.Uni(1, nq+np, "gammav")
	}
	m := c.Moduli(nq+np, uint64(2)<<uint(logN), lo, hi, "m")
	Q, P := m[:nq], m[nq:]
	lit := fckks.ParametersLiteral{LogN: logN, Q: Q, P: P, T: c.TModuli(Q, P, gamma, logN, false), Gamma: gamma,
		DefaultScale: math.Exp2(float64(c.Uni(24, 36, "scale"))), LogSlots: c.Uni(1, logN-1, "logSlots")}
	if c.Chance(1, 5, "sizes") { // moduli given by their sizes
		var lq, lp []int
		for i := 0; i < nq; i++ {
			lq = append(lq, c.Uni(35, 58, "logq"))
		}
		for i := 0; i < np; i++ {
			lp = append(lp, c.Uni(35, 58, "logp"))
		}
		x, err := rlwe.NewParametersFromLiteral(rlwe.ParametersLiteral{LogN: logN, LogQ: lq, LogP: lp})
		if err != nil {
			c.Fatalf("NewParametersFromLiteral(logN=%d logQ=%v logP=%v): %v", logN, lq, lp, err)
		}
		lit.Q, lit.P, lit.LogQ, lit.LogP, lit.T = nil, nil, lq, lp, c.TModuli(x.Q(), x.P(), gamma, logN, false)
		c.Class("sizes")
	}
	if c.Bool("full") {
		lit.LogSlots = logN - 1
	}
	if c.Bool("h") {
		lit.H = c.Uni(1, 1<<uint(logN), "hv")
	}
	e := &FEnv{c: c}
	if s := Panics(func() { e.FP = fckks.NewParametersFromLiteral(lit) }); s != "" {
		c.Fatalf("NewParametersFromLiteral(%+v): %s", lit, s)
	}
	p := e.FP
	if p.LogN() != logN || p.DefaultScale() != lit.DefaultScale || p.LogSlots() != lit.LogSlots || p.QCount() != nq || p.PCount() != np || p.RingType() != ring.Standard {
		c.Fatalf("parameters of %+v: logN=%d scale=%g logSlots=%d", lit, p.LogN(), p.DefaultScale(), p.LogSlots())
	}
	c.Note("logN=%d q=%d p=%d gamma=%d t=%d logSlots=%d scale=%g", logN, nq, np, gamma, len(lit.T), lit.LogSlots, lit.DefaultScale)
	c.Class("p=%d gamma=%d", np, gamma)
	e.Vals = 1 << uint(lit.LogSlots)
	e.Prog = &Prog{C: c, P: CK{Parameters: p.Parameters, RP: NewRP(p.Parameters.Parameters), M: 2 << uint(logN)}, R: c.Rng("rng"), N: 1 << uint(logN), M: 1 << uint(logN-1), OneKey: true, Pure: true}
	e.FKG = fckks.NewKeyGenerator(p)
	sk, pk := e.FKG.GenKeyPair()
	if c.Bool("separate") {
		sk = e.FKG.GenSecretKey()
		pk = e.FKG.GenPublicKey(sk)
	}
	e.FPk = pk
	s := Secret(c, p.Parameters.Parameters, sk)
	e.Sk, e.S = []*rlwe.SecretKey{sk}, [][]int64{s}
	e.FRlk = e.FKG.GenRelinKey(sk)
	for i := 0; i < rots; i++ {
		k := c.Uni(-e.M, e.M, "rot")
		switch c.Uni(0, 3, "rotkind") {
		case 0:
			k = c.Uni(-5*e.M, 5*e.M, "rotfar")
		case 1:
			k = e.M * c.Uni(-3, 3, "turns")
		}
		var rtk *frlwe.RotationKey
		if s := Panics(func() { rtk = e.FKG.GenRotKey(k, sk) }); s != "" {
			c.Fatalf("GenRotKey(%d) with %d slots: %s", k, e.M, s)
		}
		if d := (int(rtk.Rotidx) - k) % e.M; d != 0 {
			c.Fatalf("GenRotKey(%d) with %d slots: index %d", k, e.M, rtk.Rotidx)
		}
		e.FRtk, e.FRot, e.key = append(e.FRtk, rtk), append(e.FRot, k), append(e.key, len(e.S))
		e.S = append(e.S, AutoInts(s, p.InverseGaloisElement(p.GaloisElementForColumnRotationBy(k)), ring.Standard))
	}
	// a ciphertext under s^2 becomes one under s with the relinearization key
	s2 := make([]int64, e.N)
	for i, a := range s {
		for j, b := range s {
			if i+j < e.N {
				s2[i+j] += a * b
			} else {
				s2[i+j-e.N] -= a * b
			}
		}
	}
	e.S = append(e.S, s2)
	sk2 := rlwe.NewSecretKey(p.Parameters.Parameters)
	lq, lp := p.QCount()-1, p.PCount()-1
	p.RingQP().MulCoeffsMontgomeryLvl(lq, lp, sk.Value, sk.Value, sk2.Value)
	e.FEval = fckks.NewEvaluator(p)
	e.FEnc = fckks.NewEncryptor(p, pk)
	e.FDec = fckks.NewDecryptor(p, sk)
	e.Eval = e.FEval.Evaluator
	e.Ecd = ckks.NewEncoder(p.Parameters)
	e.Enc = [2]ckks.Encryptor{e.FEnc, ckks.NewEncryptor(p.Parameters, sk2)}
	e.msg = fckks.NewMessage(p)
	e.sent = fckks.NewMessage(p)
	if len(e.msg.Value) != e.Vals || e.msg.Slots() != e.Vals {
		c.Fatalf("NewMessage: %d values, %d slots", len(e.msg.Value), e.Vals)
	}
	return e
}

// noise of a fresh encryption under the public key (coefficients)
func (e *FEnv) fresh() float64 {
	l1 := L1(e.S[0])
	x := e.P.RP.Noise * (int64(e.N) + 1 + l1)
	return float64(x/int64(e.P.P()[0]) + 3 + (1+l1)*102/100)
}

// Step draws an operation; nil when there is no operand
func (e *FEnv) Step(name string) *Step {
	c := e.c
	first := func(x *Ent) bool { return x.Ct != nil && x.Ct.Degree() == 1 && x.Key == 0 && x.Lazy == 1 }
	switch name {
	case "EncryptMsg":
		n := e.Vals
		if c.Chance(1, 4, "short") {
			n = c.Uni(1, e.Vals, "values")
		}
		v := e.Vec()[:n]
		scale := e.P.DefaultScale()
		// the values have to fit
		if max := e.Q(0) / scale / 16; MaxC(v) > max {
			for i := range v {
				v[i] *= complex(max/16, 0)
			}
		}
		in := append([]complex128{}, v...)
		check := func() {
			for i := range in {
				if in[i] != v[i] {
					c.Fatalf("EncryptMsg changed value %d of the message", i)
				}
			}
		}
		if c.Bool("samemsg") { // one message object for many encryptions
			v = append(e.sent.Value[:0], v...)
			e.sent.Value = v
		}
		msg := &fckks.Message{Value: v}
		if len(e.sent.Value) > 0 && &e.sent.Value[0] == &v[0] {
			msg = e.sent
		}
		return &Step{Name: name, Rand: true, Deg: 1, Exact: true, Scale: func(int, float64) float64 { return scale },
			Want: func(l int, sc float64, _ []complex128, _ float64) ([]complex128, float64) {
				w := make([]complex128, e.M)
				for i := range w {
					if i%e.Vals < n {
						w[i] = v[i%e.Vals]
					}
				}
				return w, (e.fresh() + 1) * e.Exp() / sc
			},
			Call: func(o *ckks.Ciphertext) { e.FEnc.EncryptMsg(msg, o); check() },
			New:  func() *ckks.Ciphertext { defer check(); return e.FEnc.EncryptMsgNew(msg) }}
	case "Add", "Sub":
		s := e.MakeStep(name)
		if s == nil {
			return nil
		}
		a, b := s.In[0], s.In[1]
		if name == "Add" {
			s.Call = func(o *ckks.Ciphertext) { e.FEval.Add(a.Op(), b.Op(), o) }
			s.New = func() *ckks.Ciphertext { return e.FEval.AddNew(a.Op(), b.Op()) }
		} else {
			s.Call = func(o *ckks.Ciphertext) { e.FEval.Sub(a.Op(), b.Op(), o) }
			s.New = func() *ckks.Ciphertext { return e.FEval.SubNew(a.Op(), b.Op()) }
		}
		return s
	case "MulRelin":
		s := e.MakeStep(name)
		if s == nil || !first(s.In[0]) || !first(s.In[1]) {
			return nil
		}
		a, b := s.In[0], s.In[1]
		s.Call = func(o *ckks.Ciphertext) { e.FEval.MulRelin(a.Ct, b.Ct, e.FRlk, o) }
		s.New = func() *ckks.Ciphertext { return e.FEval.MulRelinNew(a.Ct, b.Ct, e.FRlk) }
		return s
	case "Rotate", "SwitchKeys":
		i := c.Uni(0, len(e.FRtk)-1, name+".key")
		a := e.Find(name+".0", first)
		if a == nil {
			return nil
		}
		s := &Step{Name: name, In: []*Ent{a}, Deg: 1, Exact: true, Scale: func(int, float64) float64 { return a.Ct.Scale }}
		k := e.FRot[i]
		if name == "Rotate" {
			s.Call = func(o *ckks.Ciphertext) { e.FEval.Rotate(a.Ct, e.FRtk[i], o) }
			s.New = func() *ckks.Ciphertext { return e.FEval.RotateNew(a.Ct, e.FRtk[i]) }
		} else {
			key := e.FRtk[i].Value
			k, s.Key = 0, e.key[i]
			if c.Bool(name + ".square") {
				last := len(e.S) - 1
				if a = e.Find(name+".s2", func(x *Ent) bool { return x.Ct != nil && x.Ct.Degree() == 1 && x.Key == last }); a == nil {
					return nil
				}
				key, s.Key, s.In[0] = e.FRlk.Value, 0, a
			}
			s.Call = func(o *ckks.Ciphertext) { e.FEval.SwitchKeys(a.Ct, key, o) }
			s.New = func() *ckks.Ciphertext { return e.FEval.SwitchKeysNew(a.Ct, key) }
		}
		s.Want = func(l int, sc float64, _ []complex128, _ float64) ([]complex128, float64) {
			v := e.Val(a)
			w := make([]complex128, len(v))
			for j := range v {
				w[j] = v[((j+k)%e.M+e.M)%e.M]
			}
			return w, e.KS(l, s.Key) * e.Exp() / sc
		}
		return s
	}
	return e.MakeStep(name)
}

// Decrypt compares the message the shared decryptor finds with the content of the ciphertext.
func (e *FEnv) Decrypt() {
	c := e.c
	x := e.Find("decrypted", func(x *Ent) bool { return x.Ct != nil && x.Key == 0 && x.Lazy == 1 })
	if x == nil {
		return
	}
	v := e.Val(x)
	want := make([]complex128, e.Vals)
	for i := range v {
		want[i%e.Vals] += v[i] / complex(float64(e.M/e.Vals), 0)
	}
	got := e.msg
	if c.Bool("newmsg") {
		got = e.FDec.DecryptToMsgNew(x.Ct)
	} else {
		e.FDec.DecryptToMsg(x.Ct, got)
	}
	if got.Slots() != e.Vals {
		c.Fatalf("decryption gives %d values, there are %d slots", got.Slots(), e.Vals)
	}
	tol := 1e-10*MaxC(v) + 1e-9*e.Exp()/x.Ct.Scale
	for i := range want {
		if d := got.Value[i] - want[i]; !(math.Hypot(real(d), imag(d)) <= tol) {
			c.Fatalf("value %d of a ciphertext of level %d, scale %g, degree %d is decrypted to %v, it holds %v (tolerance %g)", i, x.Ct.Level(), x.Ct.Scale, x.Ct.Degree(), got.Value[i], want[i], tol)
		}
	}
	c.Class("DecryptToMsg")
}
