package c19

import (
	"fmt"
	"math"
	"math/big"
	"strings"
	"sync"
	"testing"

	"fast-ksw/ckks"
	"fast-ksw/fckks"
	"fast-ksw/frlwe"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"fast-ksw/utils"
	"vharness/vh"
)

type any = interface{}

// An op is one operation of an object of type T on operands it shares with every other object, into outputs of its own.
type op[T any] struct {
	name string
	run  func(x T) []any
	arg  int
	rand bool // draws randomness: not a function of the operands
}

// A plan describes a family of objects: object 0 is the original, every other one is copied from an earlier object after the original and
// the copies made before it have performed some operations.
type plan[T any] struct {
	from []int // parent of object j (-1: created separately)
	kind []int // how it is copied
	key  []int // key it holds
	warm []int // operations the parent performs just before
	ops  [][]op[T]
}

type family[T any] struct {
	kinds int                        // ways of copying; 0: only created separately
	keys  int                        // keys
	make  func(key int) T            // a new object
	copy  func(x T, kind, key int) T // a copy; kind 0 keeps the key
	op    func(key int) op[T]        // draws an operation of an object with this key (any key: -1)
	in    func() []any               // everything the operations read
	judge func(key int, o op[T], out []any)
	after func(outs [][][]any, names [][]string)
}

func (f family[T]) draw(c *vh.C, lo, hi int) (p plan[T]) {
	n := c.Uni(2, 4, "objects")
	for j := 0; j < n; j++ {
		from, kind, key := -1, 0, c.Uni(0, f.keys-1, "key")
		if j > 0 && f.kinds > 0 && c.Chance(9, 10, "copied") {
			from, kind = c.Uni(0, j-1, "from"), c.Uni(0, f.kinds-1, "kind")
			if kind == 0 {
				key = p.key[from]
			}
		}
		warm := c.Uni(0, 2, "warm")
		var ops []op[T]
		for i, m := 0, c.Uni(lo, hi, "ops"); i < m; i++ {
			ops = append(ops, f.op(key))
		}
		p.from, p.kind, p.key, p.warm, p.ops = append(p.from, from), append(p.kind, kind), append(p.key, key), append(p.warm, warm), append(p.ops, ops)
	}
	return
}

// build creates the objects and performs the warming operations.
func (f family[T]) build(p plan[T], warm []op[T]) (xs []T) {
	for j := range p.from {
		if p.from[j] < 0 {
			xs = append(xs, f.make(p.key[j]))
			continue
		}
		x := xs[p.from[j]]
		for i := 0; i < p.warm[j] && i < len(warm); i++ {
			warm[i].run(x)
		}
		xs = append(xs, f.copy(x, p.kind[j], p.key[j]))
	}
	return
}

// independent performs the operations of each object alone, interleaved and concurrently.
func (f family[T]) independent(c *vh.C, lo, hi int) {
	p := f.draw(c, lo, hi)
	warm := []op[T]{f.op(-1), f.op(-1)}
	n := len(p.ops)
	total, copies := 0, 0
	for j := range p.ops {
		total += len(p.ops[j])
		if p.from[j] >= 0 {
			copies++
		}
	}
	c.Note("objects: from %v, kinds %v, keys %v", p.from, p.kind, p.key)
	c.NonTrivial(total >= 4 && (copies > 0 || f.kinds == 0))
	seed := c.Rng("seed").Uint64()
	in := vh.Digest(f.in()...)
	check := func(what string) {
		if vh.Digest(f.in()...) != in {
			c.Fatalf("%s: an operand changes", what)
		}
	}
	try := func(what string, g func()) {
		if e := vh.Panics(g); e != "" {
			c.Fatalf("%s: %s", what, e)
		}
	}
	setup := func() (xs []T) {
		vh.SeedRandom(seed)
		try("creating the objects", func() { xs = f.build(p, warm) })
		return
	}
	name := func(j, i int) string {
		return fmt.Sprintf("%s (operation %d of object %d)", p.ops[j][i].name, i, j)
	}
	// alone
	alone := make([][]string, n)
	outs := make([][][]any, n)
	for j := range p.ops {
		x := setup()[j]
		for i, o := range p.ops[j] {
			var out []any
			try(name(j, i), func() { out = o.run(x) })
			alone[j] = append(alone[j], vh.Digest(out...))
			outs[j] = append(outs[j], out)
			c.Class("%s", o.name)
		}
		for i, o := range p.ops[j] {
			if vh.Digest(outs[j][i]...) != alone[j][i] {
				c.Fatalf("%s: the result changes later", name(j, i))
			}
			if !o.rand { // behaves as a new object
				var out []any
				try(name(j, i)+" by a new object", func() { out = o.run(f.make(p.key[j])) })
				if vh.Digest(out...) != alone[j][i] {
					c.Fatalf("%s: another result than a new object with the same key", name(j, i))
				}
			}
			if f.judge != nil {
				f.judge(p.key[j], o, outs[j][i])
			}
		}
	}
	if f.after != nil {
		names := make([][]string, n)
		for j := range p.ops {
			for _, o := range p.ops[j] {
				names[j] = append(names[j], o.name)
			}
		}
		f.after(outs, names)
	}
	check("operations of each object alone")
	// interleaved
	xs := setup()
	next := make([]int, n)
	kept := make([][][]any, n)
	for k := 0; k < total; k++ {
		j := c.Uni(0, n-1, "turn")
		for next[j] == len(p.ops[j]) {
			j = (j + 1) % n
		}
		i := next[j]
		next[j]++
		var out []any
		try(name(j, i), func() { out = p.ops[j][i].run(xs[j]) })
		if vh.Digest(out...) != alone[j][i] {
			c.Fatalf("%s: interleaved with operations of the other objects the result is another", name(j, i))
		}
		kept[j] = append(kept[j], out)
	}
	for j := range kept {
		for i := range kept[j] {
			if vh.Digest(kept[j][i]...) != alone[j][i] {
				c.Fatalf("%s: an operation of another object changes the result", name(j, i))
			}
		}
	}
	check("interleaved operations")
	// concurrent
	xs = setup()
	var wg sync.WaitGroup
	start := make(chan bool)
	got := make([][]string, n)
	fail := make([]string, n)
	for j := range p.ops {
		wg.Add(1)
		go func(j int) {
			defer wg.Done()
			<-start
			fail[j] = vh.Panics(func() {
				for _, o := range p.ops[j] {
					got[j] = append(got[j], vh.Digest(o.run(xs[j])...))
				}
			})
		}(j)
	}
	close(start)
	wg.Wait()
	for j := range p.ops {
		if fail[j] != "" {
			c.Fatalf("object %d, operations in parallel: %s", j, fail[j])
		}
		for i := range p.ops[j] {
			if got[j][i] != alone[j][i] {
				c.Fatalf("%s: in parallel with operations of the other objects the result is another", name(j, i))
			}
		}
	}
	check("operations in parallel")
}

const rule = "2..4 objects, most copied from earlier ones after some use; at least four operations in all, with at least one copy, performed alone, interleaved in a drawn order, and in parallel under the race detector"

func cparams(c *vh.C, plo int) vh.CK {
	o := vh.RO{LogNLo: 4, LogNHi: 6, QLo: 1, QHi: 5, PLo: plo, PHi: 3, BitsLo: 30, BitsHi: 61, CI: true}
	return c.CKKS(o, math.Exp2(float64(c.Uni(20, 35, "defscale"))), "params")
}

func TestDecryptor(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 120, Thorough: 600, Rule: rule}, func(c *vh.C) {
		p := cparams(c, 0)
		r := c.Rng("data")
		kg := rlwe.NewKeyGenerator(p.RP.Parameters)
		sks := []*rlwe.SecretKey{kg.GenSecretKey(), kg.GenSecretKeyGaussian(), kg.GenSecretKey()}
		var cts []*ckks.Ciphertext
		for i := 0; i < 3; i++ {
			ct := ckks.NewCiphertext(p.Parameters, c.Uni(1, 4, "degree"), c.Uni(0, p.MaxLevel(), "level"), 1<<20)
			ntt := c.Chance(2, 3, "ntt")
			for _, v := range ct.Value {
				vh.Fill(r, v, p.Q(), "uniform")
				v.IsNTT = ntt
			}
			cts = append(cts, ct)
		}
		in := func() []any { return []any{sks, cts} }
		draw := func() (*ckks.Ciphertext, int, bool, string) {
			return cts[c.Uni(0, len(cts)-1, "ct")], c.Uni(0, p.MaxLevel(), "outlevel"), c.Bool("outntt"), c.Pick("op", "Decrypt", "Decrypt", "DecryptNew")
		}
		if c.Bool("rlwe") {
			family[rlwe.Decryptor]{kinds: 2, keys: 3, in: in,
				make: func(k int) rlwe.Decryptor { return rlwe.NewDecryptor(p.RP.Parameters, sks[k]) },
				copy: func(x rlwe.Decryptor, kind, k int) rlwe.Decryptor {
					if kind == 0 {
						return x.ShallowCopy()
					}
					return x.WithKey(sks[k])
				},
				op: func(int) op[rlwe.Decryptor] {
					ct, lvl, ntt, _ := draw()
					return op[rlwe.Decryptor]{name: "rlwe Decrypt", run: func(x rlwe.Decryptor) []any {
						pt := rlwe.NewPlaintext(p.RP.Parameters, lvl)
						pt.Value.IsNTT = ntt
						x.Decrypt(ct.Ciphertext, pt)
						return []any{pt}
					}}
				}}.independent(c, 1, 5)
			return
		}
		family[ckks.Decryptor]{kinds: 2, keys: 3, in: in,
			make: func(k int) ckks.Decryptor { return ckks.NewDecryptor(p.Parameters, sks[k]) },
			copy: func(x ckks.Decryptor, kind, k int) ckks.Decryptor {
				if kind == 0 {
					return x.ShallowCopy()
				}
				return x.WithKey(sks[k])
			},
			op: func(int) op[ckks.Decryptor] {
				ct, lvl, ntt, name := draw()
				return op[ckks.Decryptor]{name: name, run: func(x ckks.Decryptor) []any {
					if name == "DecryptNew" {
						return []any{x.DecryptNew(ct)}
					}
					pt := ckks.NewPlaintext(p.Parameters, lvl, 3)
					pt.Value.IsNTT = ntt
					x.Decrypt(ct, pt)
					return []any{pt}
				}}
			}}.independent(c, 1, 5)
	})
}

// worst-case error of a fresh encryption
func bound(p vh.RP, s []int64, pk bool) *big.Int {
	if !pk {
		return vh.Big(p.Noise)
	}
	l1 := vh.L1(s)
	e := p.Noise * (p.F*int64(p.HammingWeight()) + 1 + p.F*l1)
	if p.PCount() > 0 {
		e = e/int64(p.P()[0]) + 2 + (1+p.F*l1)*102/100
	}
	return vh.Big(e)
}

type encryptor struct {
	r rlwe.Encryptor
	c ckks.Encryptor
}

func TestEncryptor(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 150, Thorough: 800, Rule: rule}, func(c *vh.C) {
		logN := c.Uni(5, 6, "logN")
		typ, nth := ring.Standard, uint64(2)<<uint(logN)
		if c.Chance(1, 3, "ci") {
			typ, nth = ring.ConjugateInvariant, nth<<1
		}
		nq, np := c.Uni(1, 4, "q"), c.Uni(0, 3, "p")
		m := c.Moduli(nq+np, nth, 30, 61, "m")
		rp, err := rlwe.NewParameters(logN, m[:nq], m[nq:], 1<<uint(logN-1), 3.2, typ)
		if err != nil {
			c.Fatalf("%v", err)
		}
		p, err := ckks.NewParameters(rp, 2, 1<<25)
		if err != nil {
			c.Fatalf("%v", err)
		}
		v := vh.NewRP(rp)
		c.Note("logN=%d q=%d p=%d type=%d", logN, nq, np, typ)
		r := c.Rng("data")
		kg := rlwe.NewKeyGenerator(rp)
		var keys []any
		var secrets [][]int64
		for i := 0; i < 2; i++ {
			sk, pk := kg.GenKeyPair()
			keys = append(keys, sk, pk)
			s := vh.Secret(c, rp, sk)
			secrets = append(secrets, s, s)
		}
		var pts []*ckks.Plaintext
		for i := 0; i < 2; i++ {
			pt := ckks.NewPlaintext(p, c.Uni(0, p.MaxLevel(), "ptlevel"), 1<<20)
			vh.Fill(r, pt.Value, p.Q(), c.Pick("fill", "uniform", "zero", "edge"))
			pt.Value.IsNTT = c.Bool("ptntt")
			pts = append(pts, pt)
		}
		crp := p.RingQ().NewPolyLvl(p.MaxLevel())
		vh.Fill(r, crp, p.Q(), "uniform")
		family[encryptor]{kinds: 2, keys: 4, in: func() []any { return []any{keys, pts, crp} },
			make: func(k int) encryptor { return encryptor{rlwe.NewEncryptor(rp, keys[k]), ckks.NewEncryptor(p, keys[k])} },
			copy: func(x encryptor, kind, k int) encryptor {
				if kind == 0 {
					return encryptor{x.r.ShallowCopy(), x.c.ShallowCopy()}
				}
				return encryptor{x.r.WithKey(keys[k]), x.c.WithKey(keys[k])}
			},
			op: func(k int) op[encryptor] {
				i := c.Uni(0, 1, "pt")
				pt := pts[i]
				lvl, ntt := c.Uni(0, p.MaxLevel(), "out"), c.Bool("ctntt")
				names := []string{"rlwe Encrypt", "Encrypt", "EncryptNew"}
				if k >= 0 && k&1 == 0 {
					names = append(names, "rlwe EncryptFromCRP", "EncryptFromCRP", "EncryptFromCRPNew")
				}
				name := c.Pick("op", names...)
				return op[encryptor]{name: name, arg: i, rand: true, run: func(x encryptor) []any {
					ct := ckks.NewCiphertext(p, 1, lvl, 1)
					for _, v := range ct.Value {
						v.IsNTT = ntt || name[0] == 'E'
					}
					switch name {
					case "rlwe Encrypt":
						x.r.Encrypt(pt.Plaintext, ct.Ciphertext)
					case "rlwe EncryptFromCRP":
						x.r.EncryptFromCRP(pt.Plaintext, crp, ct.Ciphertext)
					case "Encrypt":
						x.c.Encrypt(pt, ct)
					case "EncryptFromCRP":
						x.c.EncryptFromCRP(pt, crp, ct)
					case "EncryptFromCRPNew":
						ct = x.c.EncryptFromCRPNew(pt, crp)
					default:
						ct = x.c.EncryptNew(pt)
					}
					return []any{ct}
				}}
			},
			judge: func(k int, o op[encryptor], out []any) {
				ct, pt := out[0].(*ckks.Ciphertext), pts[o.arg]
				l := ct.Level()
				if pt.Level() < l {
					c.Fatalf("%s: ciphertext of level %d for a plaintext of level %d", o.name, l, pt.Level())
				}
				phase := vh.PhaseRows(p.RingQ(), ct.Value, ct.Value[0].IsNTT, secrets[k], l)
				want := vh.CoeffRows(p.RingQ(), pt.Value, l, pt.Value.IsNTT, false)
				b := bound(v, secrets[k], k&1 == 1)
				if e := vh.MaxAbs(vh.BigRows(vh.SubRows(phase, want, p.Q()), p.Q())); e.Cmp(b) > 0 {
					c.Fatalf("%s under key %d: the ciphertext decrypts with an error of %v, more than %v", o.name, k, e, b)
				}
			},
			after: func(outs [][][]any, names [][]string) {
				seen := map[string]string{}
				for j := range outs {
					for i, o := range outs[j] {
						if ct := o[0].(*ckks.Ciphertext); !strings.Contains(names[j][i], "CRP") {
							d := vh.Digest(vh.CoeffRows(p.RingQ(), ct.Value[1], 0, ct.Value[1].IsNTT, false))
							who := fmt.Sprintf("%s (operation %d of object %d)", names[j][i], i, j)
							if seen[d] != "" {
								c.Fatalf("%s and %s: the same mask", seen[d], who)
							}
							seen[d] = who
						}
					}
				}
			},
		}.independent(c, 1, 4)
	})
}

func TestEncoder(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 150, Thorough: 800, Rule: rule}, func(c *vh.C) {
		p := cparams(c, 0)
		r := c.Rng("data")
		var ins []any
		vec := func(n int) (v []complex128, f []float64) {
			for i := 0; i < n; i++ {
				v = append(v, complex(r.Float(4), r.Float(4)))
				f = append(f, r.Float(4))
			}
			return
		}
		// the noise of public decodings is drawn by each anew
		e := ckks.NewEncoder(p.Parameters)
		zero := ckks.NewPlaintext(p.Parameters, 0, 1)
		seen := map[string]bool{}
		for i := 0; i < 3; i++ {
			d := vh.Digest(e.DecodeCoeffsPublic(zero, 3.2))
			if seen[d] {
				c.Fatalf("public decodings by an encoder and its copies have the same noise")
			}
			seen[d] = true
			if e = e.ShallowCopy(); c.Bool("use") {
				e.DecodeCoeffs(zero)
			}
		}
		family[ckks.Encoder]{kinds: 1, keys: 1, in: func() []any { return ins },
			make: func(int) ckks.Encoder { return ckks.NewEncoder(p.Parameters) },
			copy: func(x ckks.Encoder, _, _ int) ckks.Encoder { return x.ShallowCopy() },
			op: func(int) op[ckks.Encoder] {
				logSlots, lvl := c.Uni(0, p.MaxLogSlots(), "logSlots"), c.Uni(0, p.MaxLevel(), "level")
				scale := math.Exp2(float64(c.Uni(0, 70, "scale")))
				v, f := vec(1 << uint(logSlots))
				_, fc := vec(c.Uni(1, p.N(), "coeffs"))
				pt := ckks.NewPlaintext(p.Parameters, lvl, scale)
				pt.Value.IsNTT = c.Bool("ntt")
				vh.Fill(r, pt.Value, p.Q(), c.Pick("fill", "uniform", "small"))
				ins = append(ins, v, f, fc, pt)
				o := op[ckks.Encoder]{name: c.Pick("op", "Encode", "EncodeNew", "EncodeSlots", "EncodeFloat", "EncodeCoeffs", "EncodeCoeffsNew", "Embed", "EmbedQP", "Decode", "DecodeSlots", "DecodePublic", "DecodeSlotsPublic", "DecodeCoeffs", "DecodeCoeffsPublic",
					"GetErrSTDCoeffDomain", "GetErrSTDSlotDomain")}
				if o.name == "EmbedQP" && p.PCount() == 0 {
					o.name = "Embed"
				}
				sigma := 0.0
				if c.Chance(1, 3, "sigma") {
					sigma = 3.2
					o.rand = strings.HasSuffix(o.name, "Public")
				}
				o.run = func(x ckks.Encoder) []any {
					out := ckks.NewPlaintext(p.Parameters, lvl, scale)
					switch o.name {
					case "Encode":
						x.Encode(v, out, logSlots)
					case "EncodeFloat":
						x.Encode(f, out, logSlots)
					case "EncodeNew":
						out = x.EncodeNew(v, lvl, scale, logSlots)
					case "EncodeSlots":
						x.EncodeSlots(v, out, logSlots)
					case "EncodeCoeffs":
						x.EncodeCoeffs(fc, out)
					case "EncodeCoeffsNew":
						out = x.EncodeCoeffsNew(fc, lvl, scale)
					case "Embed":
						x.Embed(v, logSlots, scale, true, out.Value)
					case "EmbedQP":
						y := p.RingQP().NewPolyLvl(lvl, p.PCount()-1)
						x.Embed(v, logSlots, scale, false, y)
						return []any{y}
					case "Decode":
						return []any{x.Decode(pt, logSlots)}
					case "DecodeSlots":
						return []any{x.DecodeSlots(pt, logSlots)}
					case "DecodePublic":
						return []any{x.DecodePublic(pt, logSlots, sigma)}
					case "DecodeSlotsPublic":
						return []any{x.DecodeSlotsPublic(pt, logSlots, sigma)}
					case "DecodeCoeffs":
						return []any{x.DecodeCoeffs(pt)}
					case "DecodeCoeffsPublic":
						return []any{x.DecodeCoeffsPublic(pt, sigma)}
					case "GetErrSTDCoeffDomain":
						y := x.GetErrSTDCoeffDomain(v, v[:len(v):len(v)], scale)
						return []any{&y}
					default:
						w := append([]complex128{}, v...)
						w[0] += 1e-3
						y := x.GetErrSTDSlotDomain(v, w, scale)
						return []any{&y}
					}
					return []any{out}
				}
				return o
			},
		}.independent(c, 1, 5)
	})
}

func bigVec(r *vh.Rand, n int, prec uint) (v []*ring.Complex) {
	for i := 0; i < n; i++ {
		f := func() *big.Float {
			x := new(big.Float).SetPrec(prec).SetFloat64(r.Float(4))
			return x.Add(x, new(big.Float).SetPrec(prec).SetMantExp(big.NewFloat(r.Float(1)), -int(prec)/2))
		}
		v = append(v, ring.NewComplex(f(), f()))
	}
	return
}

func TestBigEncoder(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 60, Thorough: 280, Rule: rule}, func(c *vh.C) {
		p := c.CKKS(vh.RO{LogNLo: 4, LogNHi: 5, QLo: 1, QHi: 4, PLo: 1, PHi: 1, BitsLo: 30, BitsHi: 61}, 1<<30, "params")
		r := c.Rng("data")
		prec := c.PickInt("prec", 53, 64, 100, 200)
		var ins []any
		family[ckks.EncoderBigComplex]{kinds: 1, keys: 1, in: func() []any { return ins },
			make: func(int) ckks.EncoderBigComplex { return ckks.NewEncoderBigComplex(p.Parameters, prec) },
			copy: func(x ckks.EncoderBigComplex, _, _ int) ckks.EncoderBigComplex { return x.ShallowCopy() },
			op: func(int) op[ckks.EncoderBigComplex] {
				logSlots, lvl := c.Uni(0, p.MaxLogSlots(), "logSlots"), c.Uni(0, p.MaxLevel(), "level")
				scale := math.Exp2(float64(c.Uni(0, 100, "scale")))
				v := bigVec(r, 1<<uint(logSlots), uint(prec))
				pt := ckks.NewPlaintext(p.Parameters, lvl, scale)
				vh.Fill(r, pt.Value, p.Q(), "uniform")
				ins = append(ins, v, pt)
				o := op[ckks.EncoderBigComplex]{name: c.Pick("op", "Encode", "EncodeNew", "Decode", "DecodePublic", "FFT", "InvFFT")}
				sigma := 0.0
				if o.name == "DecodePublic" && c.Bool("sigma") {
					sigma, o.rand = 3.2, true
				}
				o.run = func(x ckks.EncoderBigComplex) []any {
					switch o.name {
					case "Encode":
						out := ckks.NewPlaintext(p.Parameters, lvl, scale)
						x.Encode(v, out, logSlots)
						return []any{out}
					case "EncodeNew":
						return []any{x.EncodeNew(v, lvl, scale, logSlots)}
					case "Decode":
						return []any{x.Decode(pt, logSlots)}
					case "DecodePublic":
						return []any{x.DecodePublic(pt, logSlots, sigma)}
					}
					var w []*ring.Complex
					for _, y := range v {
						w = append(w, ring.NewComplex(new(big.Float).Copy(y[0]), new(big.Float).Copy(y[1])))
					}
					if o.name == "FFT" {
						x.FFT(w, len(w))
					} else {
						x.InvFFT(w, len(w))
					}
					return []any{w}
				}
				return o
			}}.independent(c, 1, 4)
	})
}

func view(x *ring.Poly, level int) *ring.Poly {
	o := *x
	o.Coeffs = x.Coeffs[:level+1]
	return &o
}

// switches draws operations of a key switcher.
func switches(c *vh.C, p vh.RP, r *vh.Rand, ins *[]any) func(int) op[*rlwe.KeySwitcher] {
	kg := rlwe.NewKeyGenerator(p.Parameters)
	var keys []*rlwe.SwitchingKey
	for i := 0; i < 2; i++ {
		out := kg.GenSecretKey()
		if i > 0 {
			out.Value.Q.Coeffs = out.Value.Q.Coeffs[:c.Uni(1, p.QCount(), "kq")]
			out.Value.P.Coeffs = out.Value.P.Coeffs[:c.Uni(1, p.PCount(), "kp")]
		}
		keys = append(keys, kg.GenSwitchingKey(kg.GenSecretKey(), out))
	}
	*ins = append(*ins, keys)
	return func(int) op[*rlwe.KeySwitcher] {
		key := keys[c.Uni(0, 1, "key")]
		lp := len(key.Value[0][0].P.Coeffs) - 1
		lvl := c.Uni(0, len(key.Value[0][0].Q.Coeffs)-1, "level")
		a := p.RingQ().NewPolyLvl(lvl)
		vh.Fill(r, a, p.Q(), c.Pick("fill", "uniform", "edge"))
		a.IsNTT = c.Bool("ntt")
		b := p.RingQ().NewPolyLvl(lvl) // the other form
		ntt, coeff := a, b
		if a.IsNTT {
			p.RingQ().InvNTTLvl(lvl, a, b)
		} else {
			p.RingQ().NTTLvl(lvl, a, b)
			ntt, coeff = b, a
		}
		i := c.Uni(0, (lvl+1+lp)/(lp+1)-1, "digit")
		own := c.Bool("own")
		*ins = append(*ins, a, b)
		o := op[*rlwe.KeySwitcher]{name: c.Pick("op", "SwitchKeysInPlace", "SwitchKeysInPlace", "SwitchKeysInPlaceNoModDown", "DecomposeNTT", "KeyswitchHoisted", "KeyswitchHoistedNoModDown", "DecomposeSingleNTT")}
		o.run = func(ks *rlwe.KeySwitcher) []any {
			x, y := p.RingQ().NewPolyLvl(lvl), p.RingQ().NewPolyLvl(lvl)
			u, v := p.RingP().NewPoly(), p.RingP().NewPoly()
			var w []rlwe.PolyQP
			if own && lp+1 == p.PCount() {
				w = ks.PoolDecompQP[:(lvl+1+lp)/(lp+1)]
			} else {
				for i := 0; i < (lvl+1+lp)/(lp+1); i++ {
					w = append(w, p.RingQP().NewPoly())
				}
			}
			views := func(w []rlwe.PolyQP) (o []any) {
				for _, y := range w {
					o = append(o, vh.Clone(view(y.Q, lvl)), vh.Clone(view(y.P, lp)))
				}
				return
			}
			switch o.name {
			case "SwitchKeysInPlace":
				ks.SwitchKeysInPlace(lvl, a, key, x, y)
				return []any{x, y}
			case "SwitchKeysInPlaceNoModDown":
				ks.SwitchKeysInPlaceNoModDown(lvl, a, key, x, u, y, v)
			case "DecomposeNTT":
				ks.DecomposeNTT(lvl, lp, lp+1, a, w)
				return views(w)
			case "DecomposeSingleNTT":
				ks.DecomposeSingleNTT(lvl, lp, lp+1, i, ntt, coeff, w[i].Q, w[i].P)
				return views(w[i : i+1])
			case "KeyswitchHoisted":
				ks.DecomposeNTT(lvl, lp, lp+1, a, w)
				ks.KeyswitchHoisted(lvl, w, key, x, y, u, v)
				return []any{x, y}
			default:
				ks.DecomposeNTT(lvl, lp, lp+1, a, w)
				ks.KeyswitchHoistedNoModDown(lvl, w, key, x, y, u, v)
			}
			return []any{x, y, view(u, lp), view(v, lp)}
		}
		return o
	}
}

func rparams(c *vh.C) vh.RP {
	return c.RLWE(vh.RO{LogNLo: 4, LogNHi: 6, QLo: 1, QHi: 7, PLo: 1, PHi: 4, BitsLo: 30, BitsHi: 61, CI: true}, "p")
}

func TestKeySwitcher(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 120, Thorough: 600, Rule: rule}, func(c *vh.C) {
		p := rparams(c)
		r := c.Rng("data")
		var ins []any
		family[*rlwe.KeySwitcher]{kinds: 1, keys: 1, in: func() []any { return ins },
			make: func(int) *rlwe.KeySwitcher { return rlwe.NewKeySwitcher(p.Parameters) },
			copy: func(x *rlwe.KeySwitcher, _, _ int) *rlwe.KeySwitcher { return x.ShallowCopy() },
			op:   switches(c, p, r, &ins)}.independent(c, 1, 4)
	})
}

func TestBasisExtender(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 200, Thorough: 1000, Rule: rule}, func(c *vh.C) {
		p := rparams(c)
		r := c.Rng("data")
		var ins []any
		family[*ring.BasisExtender]{kinds: 1, keys: 1, in: func() []any { return ins },
			make: func(int) *ring.BasisExtender { return ring.NewBasisExtender(p.RingQ(), p.RingP()) },
			copy: func(x *ring.BasisExtender, _, _ int) *ring.BasisExtender { return x.ShallowCopy() },
			op: func(int) op[*ring.BasisExtender] {
				lq, lp := c.Uni(0, p.MaxLevel(), "lq"), c.Uni(0, p.PCount()-1, "lp")
				a, b := p.RingQ().NewPolyLvl(lq), p.RingP().NewPolyLvl(lp)
				vh.Fill(r, a, p.Q(), "uniform")
				vh.Fill(r, b, p.P(), "uniform")
				ins = append(ins, a, b)
				o := op[*ring.BasisExtender]{name: c.Pick("op", "ModUpQtoP", "ModUpPtoQ", "ModDownQPtoQ", "ModDownQPtoQNTT", "ModDownQPtoP", "in place")}
				o.run = func(x *ring.BasisExtender) []any {
					u, v := p.RingQ().NewPolyLvl(lq), p.RingP().NewPolyLvl(lp)
					switch o.name {
					case "ModUpQtoP":
						x.ModUpQtoP(lq, lp, a, v)
					case "ModUpPtoQ":
						x.ModUpPtoQ(lp, lq, b, u)
					case "ModDownQPtoQ":
						x.ModDownQPtoQ(lq, lp, a, b, u)
					case "ModDownQPtoQNTT":
						x.ModDownQPtoQNTT(lq, lp, a, b, u)
					case "in place":
						u = vh.Clone(a)
						x.ModDownQPtoQNTT(lq, lp, u, b, u)
					default:
						x.ModDownQPtoP(lq, lp, a, b, v)
					}
					return []any{u, v}
				}
				return o
			}}.independent(c, 1, 5)
	})
}

const separate = "2..4 objects created separately from the same parameters and keys; at least four operations in all, performed alone, interleaved in a drawn order, and in parallel under the race detector"

func TestSeparateObjects(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 120, Thorough: 600, Rule: separate}, func(c *vh.C) {
		g := c.NewProg(c.ProgParams("params"), "keys")
		p, rp := g.P, g.P.RP
		r := g.R
		keys := []any{g.Rlk, g.Rtk, g.Swk, g.Sk}
		ins := keys
		var cts []*ckks.Ciphertext
		for i := 0; i < 3; i++ {
			cts = append(cts, g.Enc[0].EncryptNew(g.Ecd.EncodeNew(g.Vec(), c.Uni(0, p.MaxLevel(), "level"), p.DefaultScale(), p.MaxLogSlots())))
		}
		deg2 := g.Eval.MulNew(cts[0], cts[1])
		pt := g.Ecd.EncodeNew(g.Vec(), p.MaxLevel(), p.DefaultScale(), p.MaxLogSlots())
		ins = append(ins, cts, deg2, pt)
		swop := switches(c, rp, r, &ins)
		pk := g.KG.GenPublicKey(g.Sk[0])
		ins = append(ins, pk)
		pick := func() *ckks.Ciphertext { return cts[c.Uni(0, len(cts)-1, "ct")] }
		family[any]{keys: 6, in: func() []any { return ins },
			make: func(k int) any {
				switch k {
				case 0:
					return ckks.NewEncoder(p.Parameters)
				case 1:
					return ckks.NewDecryptor(p.Parameters, g.Sk[0])
				case 2:
					return rlwe.NewKeySwitcher(rp.Parameters)
				case 3:
					return rlwe.NewKeyGenerator(rp.Parameters)
				case 4:
					return ckks.NewEncryptor(p.Parameters, pk)
				}
				return ckks.NewEvaluator(p.Parameters, rlwe.EvaluationKey{Rlk: g.Rlk, Rtks: g.Rtk})
			},
			op: func(k int) op[any] {
				a, b := pick(), pick()
				switch k {
				case 0:
					v, lvl := g.Vec(), c.Uni(0, p.MaxLevel(), "level")
					ins = append(ins, v)
					if c.Bool("decode") {
						return op[any]{name: "Decode", run: func(x any) []any { return []any{x.(ckks.Encoder).Decode(pt, p.MaxLogSlots())} }}
					}
					return op[any]{name: "EncodeNew", run: func(x any) []any {
						return []any{x.(ckks.Encoder).EncodeNew(v, lvl, p.DefaultScale(), p.MaxLogSlots())}
					}}
				case 1:
					return op[any]{name: "DecryptNew", run: func(x any) []any { return []any{x.(ckks.Decryptor).DecryptNew(a)} }}
				case 2:
					o := swop(0)
					return op[any]{name: o.name, run: func(x any) []any { return o.run(x.(*rlwe.KeySwitcher)) }}
				case 3:
					name := c.Pick("op", "GenKeyPair", "GenSecretKeyGaussian", "GenRelinearizationKey", "GenRotationKeysForRotations", "GenSwitchingKey")
					return op[any]{name: name, rand: true, run: func(x any) []any {
						kg := x.(rlwe.KeyGenerator)
						switch name {
						case "GenKeyPair":
							s, k := kg.GenKeyPair()
							return []any{s, k}
						case "GenSecretKeyGaussian":
							return []any{kg.GenSecretKeyGaussian()}
						case "GenRelinearizationKey":
							return []any{kg.GenRelinearizationKey(g.Sk[0], 2)}
						case "GenSwitchingKey":
							return []any{kg.GenSwitchingKey(g.Sk[0], g.Sk[1])}
						}
						return []any{kg.GenRotationKeysForRotations([]int{3}, false, g.Sk[1])}
					}}
				case 4:
					return op[any]{name: "EncryptNew", rand: true, run: func(x any) []any { return []any{x.(ckks.Encryptor).EncryptNew(pt)} }}
				}
				name := c.Pick("op", "AddNew", "SubNew", "MulNew", "MulRelinNew", "MulRelinNew", "MulRelinAndAdd", "RelinearizeNew", "RotateNew", "RotateNew", "ConjugateNew", "SwitchKeysNew", "Rescale", "MultByConstNew", "AddConstNew", "MultByConstAndAdd", "ScaleUpNew", "NegNew", "AddPlain")
				if name == "ConjugateNew" && !g.Conj {
					name = "RotateNew"
				}
				rot := g.Rots[c.Uni(0, len(g.Rots)-1, "rot")]
				return op[any]{name: name, run: func(x any) []any {
					ev := x.(ckks.Evaluator)
					switch name {
					case "AddNew":
						return []any{ev.AddNew(a, b)}
					case "AddPlain":
						return []any{ev.AddNew(a, pt)}
					case "SubNew":
						return []any{ev.SubNew(a, b)}
					case "MulNew":
						return []any{ev.MulNew(a, b)}
					case "MulRelinNew":
						return []any{ev.MulRelinNew(a, b)}
					case "MulRelinAndAdd":
						out := ev.MulNew(a, b)
						out.Resize(rp.Parameters, 1)
						ev.MulRelinAndAdd(a, b, out)
						return []any{out}
					case "RelinearizeNew":
						return []any{ev.RelinearizeNew(deg2)}
					case "RotateNew":
						return []any{ev.RotateNew(a, rot)}
					case "ConjugateNew":
						return []any{ev.ConjugateNew(a)}
					case "SwitchKeysNew":
						return []any{ev.SwitchKeysNew(a, g.Swk[0][1])}
					case "Rescale":
						out := ckks.NewCiphertext(p.Parameters, 1, a.Level(), 1)
						return []any{fmt.Sprint(ev.Rescale(a, 1, out)), out}
					case "MultByConstNew":
						return []any{ev.MultByConstNew(a, 1.5)}
					case "AddConstNew":
						return []any{ev.AddConstNew(a, 1.25)}
					case "MultByConstAndAdd":
						out := a.CopyNew()
						ev.MultByConstAndAdd(a, 3, out)
						return []any{out}
					case "ScaleUpNew":
						return []any{ev.ScaleUpNew(a, 4)}
					}
					return []any{ev.NegNew(a)}
				}}
			}}.independent(c, 1, 4)
	})
}

func TestSeparateFastObjects(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 100, Thorough: 400, Rule: separate}, func(c *vh.C) {
		g := c.FSession(2)
		p := g.P
		r := g.R
		ins := []any{g.FRlk, g.FRtk, g.FPk, g.Sk}
		var cts []*ckks.Ciphertext
		for i := 0; i < 2; i++ {
			m := &fckks.Message{Value: make([]complex128, g.Vals)}
			for j := range m.Value {
				m.Value[j] = complex(r.Float(1), r.Float(1))
			}
			cts = append(cts, g.FEnc.EncryptMsgNew(m))
		}
		low := cts[0].CopyNew()
		g.Eval.DropLevel(low, c.Uni(0, p.MaxLevel(), "drop"))
		cts = append(cts, low)
		ins = append(ins, cts)
		pick := func() *ckks.Ciphertext { return cts[c.Uni(0, len(cts)-1, "ct")] }
		family[any]{keys: 6, in: func() []any { return ins },
			make: func(k int) any {
				switch k {
				case 1:
					return fckks.NewDecryptor(g.FP, g.Sk[0])
				case 2:
					return fckks.NewEncryptor(g.FP, g.FPk)
				case 3:
					return fckks.NewKeyGenerator(g.FP)
				}
				return fckks.NewEvaluator(g.FP)
			},
			op: func(k int) op[any] {
				a, b := pick(), pick()
				key := g.FRlk.Value
				if c.Bool("rotkey") {
					key = g.FRtk[0].Value
				}
				switch k {
				case 1:
					return op[any]{name: "DecryptToMsgNew", run: func(x any) []any { return []any{x.(*fckks.Decryptor).DecryptToMsgNew(a)} }}
				case 2:
					m := &fckks.Message{Value: make([]complex128, g.Vals)}
					ins = append(ins, m)
					return op[any]{name: "EncryptMsgNew", rand: true, run: func(x any) []any { return []any{x.(*fckks.Encryptor).EncryptMsgNew(m)} }}
				case 3:
					name := c.Pick("op", "GenRelinKey", "GenRotKey", "GenKeyPair")
					return op[any]{name: name, rand: true, run: func(x any) []any {
						kg := x.(*frlwe.KeyGenerator)
						switch name {
						case "GenRelinKey":
							return []any{kg.GenRelinKey(g.Sk[0])}
						case "GenRotKey":
							return []any{kg.GenRotKey(1, g.Sk[0])}
						}
						s, k := kg.GenKeyPair()
						return []any{s, k}
					}}
				}
				name := c.Pick("op", "AddNew", "SubNew", "MulRelinNew", "MulRelinNew", "RotateNew", "RotateNew", "SwitchKeysNew", "Rescale", "MultByConstNew")
				rtk := g.FRtk[c.Uni(0, len(g.FRtk)-1, "rot")]
				return op[any]{name: name, run: func(x any) []any {
					ev := x.(*fckks.Evaluator)
					switch name {
					case "AddNew":
						return []any{ev.AddNew(a, b)}
					case "SubNew":
						return []any{ev.SubNew(a, b)}
					case "MulRelinNew":
						return []any{ev.MulRelinNew(a, b, g.FRlk)}
					case "RotateNew":
						return []any{ev.RotateNew(a, rtk)}
					case "SwitchKeysNew":
						return []any{ev.SwitchKeysNew(a, key)}
					case "Rescale":
						out := ckks.NewCiphertext(p.Parameters, 1, a.Level(), 1)
						return []any{fmt.Sprint(ev.Rescale(a, 1, out)), out}
					}
					return []any{ev.MultByConstNew(a, 1.5)}
				}}
			}}.independent(c, 1, 4)
	})
}

func TestSeparateFastSwitchers(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 100, Thorough: 400, Rule: separate}, func(c *vh.C) {
		logN := c.Uni(4, 6, "logN")
		nq, np, gamma := c.Uni(1, 8, "q"), c.Uni(1, 4, "p"), c.Uni(1, 4, "gamma")
		m := c.Moduli(nq+np, 2<<uint(logN), c.PickInt("lo", 30, 55), 61, "m")
		c.Note("logN=%d q=%d p=%d gamma=%d", logN, nq, np, gamma)
		p := frlwe.NewParametersFromLiteral(frlwe.ParametersLiteral{LogN: logN, Q: m[:nq], P: m[nq:], T: c.TModuli(m[:nq], m[nq:], gamma, logN, false), Gamma: gamma})
		r := c.Rng("data")
		kg := frlwe.NewKeyGenerator(p)
		sk := kg.GenSecretKey()
		rlk := kg.GenRelinKey(sk)
		rtk := kg.GenRotKey(1, sk)
		ins := []any{sk, rlk, rtk}
		family[any]{keys: 4, in: func() []any { return ins },
			make: func(k int) any {
				if k == 0 {
					return frlwe.NewKeyGenerator(p)
				}
				return frlwe.NewKeySwitcher(p)
			},
			op: func(k int) op[any] {
				if k == 0 {
					rot := c.Uni(0, p.N(), "rot")
					return op[any]{name: "GenRotKey", rand: true, run: func(x any) []any {
						if rot == 0 {
							return []any{x.(*frlwe.KeyGenerator).GenRelinKey(sk)}
						}
						return []any{x.(*frlwe.KeyGenerator).GenRotKey(rot, sk)}
					}}
				}
				key := rlk.Value
				if c.Bool("rotkey") {
					key = rtk.Value
				}
				lvl := c.Uni(0, p.MaxLevel(), "level")
				a := p.RingQ().NewPolyLvl(lvl)
				vh.Fill(r, a, p.Q(), "uniform")
				ins = append(ins, a)
				return op[any]{name: "SwitchKey", run: func(x any) []any {
					u, v := p.RingQ().NewPolyLvl(lvl), p.RingQ().NewPolyLvl(lvl)
					x.(*frlwe.KeySwitcher).SwitchKey(lvl, a, key[0], key[1], u, v)
					return []any{u, v}
				}}
			}}.independent(c, 1, 4)
	})
}

// readers are samplers of one object over rings shared with the others.
type readers struct {
	t *ring.TernarySampler
	g *ring.GaussianSampler
	u *ring.UniformSampler
}

func TestSharedRing(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 250, Thorough: 1200, Rule: "2..4 users of the same rings and decomposer, with samplers of their own; at least four operations in all, performed alone, interleaved in a drawn order, and in parallel under the race detector"}, func(c *vh.C) {
		p := rparams(c)
		r := c.Rng("data")
		rq, rp, rqp := p.RingQ(), p.RingP(), p.RingQP()
		dec := ring.NewDecomposer(rq, rp)
		var ins []any
		family[readers]{keys: 1, in: func() []any { return ins },
			make: func(int) readers {
				prng, err := utils.NewPRNG()
				if err != nil {
					panic(err)
				}
				return readers{ring.NewTernarySampler(prng, rq, 1./3, false), ring.NewGaussianSampler(prng, rq, 3.2, 19), ring.NewUniformSampler(prng, rq)}
			},
			op: func(int) op[readers] {
				lq, lp := c.Uni(0, p.MaxLevel(), "lq"), c.Uni(0, p.PCount()-1, "lp")
				a, b, d := rq.NewPolyLvl(lq), rp.NewPolyLvl(lp), rq.NewPolyLvl(lq)
				vh.Fill(r, a, p.Q(), c.Pick("fill", "uniform", "edge"))
				vh.Fill(r, d, p.Q(), "uniform")
				vh.Fill(r, b, p.P(), "uniform")
				big1 := new(big.Int).Lsh(big.NewInt(int64(r.IntN(1<<30))), uint(r.IntN(90)))
				g := vh.PowMod(5, uint64(c.Uni(0, p.N(), "rot")), 2*uint64(p.N()))
				nb, k := c.Uni(0, lq, "nb"), c.Uni(1, p.PCount(), "alpha")
				ins = append(ins, a, b, d, big1)
				o := op[readers]{name: c.Pick("op", "NTT", "InvNTT", "MulCoeffs", "Montgomery", "PermuteNTT", "Permute", "MulScalarBigint", "AddScalarBigint", "DivRoundMany", "DivRoundManyNTT", "DivFloorManyNTT", "PolyToBigint", "PolyToBigintCentered", "DecomposeAndSplit",
					"ExtendBasis", "QP", "Equal", "Marshal", "MultByMonomial", "Ternary", "Gaussian", "Uniform")}
				switch o.name {
				case "Ternary", "Gaussian", "Uniform":
					o.rand = true
				case "Permute", "MultByMonomial":
					if p.RingType() == ring.ConjugateInvariant {
						o.name = "PermuteNTT"
					}
				}
				o.run = func(x readers) []any {
					u, v := rq.NewPolyLvl(lq), rp.NewPolyLvl(lp)
					full := func(x *ring.Poly) *ring.Poly {
						y := rq.NewPoly()
						ring.CopyValuesLvl(lq, x, y)
						return y
					}
					switch o.name {
					case "NTT":
						rq.NTTLvl(lq, a, u)
					case "InvNTT":
						rq.InvNTTLvl(lq, a, u)
					case "MulCoeffs":
						rq.MulCoeffsLvl(lq, a, d, u)
					case "Montgomery":
						rq.MFormLvl(lq, a, u)
						rq.MulCoeffsMontgomeryAndAddLvl(lq, a, d, u)
					case "PermuteNTT":
						rq.PermuteNTTLvl(lq, a, g, u)
						rq.PermuteNTTWithIndexAndAddNoModLvl(lq, d, rq.PermuteNTTIndex(g), u)
					case "Permute":
						w := rq.NewPoly()
						rq.Permute(full(a), g, w)
						return []any{w}
					case "MultByMonomial":
						w := rq.NewPoly()
						rq.MultByMonomial(full(a), nb+3, w)
						return []any{w}
					case "MulScalarBigint":
						rq.MulScalarBigintLvl(lq, a, big1, u)
					case "AddScalarBigint":
						rq.AddScalarBigintLvl(lq, a, big1, u)
					case "DivRoundMany":
						rq.DivRoundByLastModulusManyLvl(lq, nb, a, rq.NewPoly(), u)
						return []any{view(u, lq-nb)}
					case "DivRoundManyNTT":
						rq.DivRoundByLastModulusManyNTTLvl(lq, nb, a, rq.NewPoly(), u)
						return []any{view(u, lq-nb)}
					case "DivFloorManyNTT":
						rq.DivFloorByLastModulusManyNTTLvl(lq, nb, a, rq.NewPoly(), u)
						return []any{view(u, lq-nb)}
					case "PolyToBigint", "PolyToBigintCentered":
						w := make([]*big.Int, p.N())
						for i := range w {
							w[i] = new(big.Int)
						}
						if o.name == "PolyToBigint" {
							rq.PolyToBigintLvl(lq, a, 1, w)
						} else {
							rq.PolyToBigintCenteredLvl(lq, a, 1, w)
						}
						rq.SetCoefficientsBigintLvl(lq, w, u)
						return []any{w, u}
					case "DecomposeAndSplit":
						y := rp.NewPoly()
						dec.DecomposeAndSplit(lq, k-1, k, nb/k, a, u, y)
						return []any{u, view(y, k-1)}
					case "ExtendBasis":
						rqp.ExtendBasisSmallNormAndCenter(a, lp, nil, v)
						return []any{v}
					case "QP":
						w := rlwe.PolyQP{Q: u, P: v}
						rqp.NTTLvl(lq, lp, rlwe.PolyQP{Q: a, P: b}, w)
						rqp.MulCoeffsMontgomeryLvl(lq, lp, w, rlwe.PolyQP{Q: a, P: b}, w)
						rqp.InvNTTLvl(lq, lp, w, w)
						return []any{u, v}
					case "Equal":
						return []any{[]uint64{map[bool]uint64{true: 1}[rq.EqualLvl(lq, a, d)]}}
					case "Marshal":
						w, err := rq.MarshalBinary()
						return []any{w, fmt.Sprint(err)}
					case "Ternary":
						x.t.ReadLvl(lq, u)
					case "Gaussian":
						x.g.ReadAndAddLvl(lq, u)
					case "Uniform":
						x.u.ReadLvl(lq, u)
					}
					return []any{u}
				}
				return o
			}}.independent(c, 1, 5)
	})
}
