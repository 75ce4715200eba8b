package vh

import (
	"fmt"
	"math"
	"math/big"

	"fast-ksw/ckks"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
)

// Prog runs random CKKS programs: every operation is judged on its own against the values its operands decrypt to.
type Prog struct {
	C    *C
	P    CK
	R    *Rand
	Real bool // conjugate-invariant: real values
	N, M int  // ring degree, slots

	KG   rlwe.KeyGenerator
	Sk   []*rlwe.SecretKey
	S    [][]int64
	Rlk  *rlwe.RelinearizationKey
	Rtk  *rlwe.RotationKeySet
	Swk  [2][2]*rlwe.SwitchingKey // [from][to]
	Rots []int
	Conj bool

	Eval ckks.Evaluator
	Ecd  ckks.Encoder
	Enc  [2]ckks.Encryptor
	Pool []*Ent

	OneKey bool // fresh ciphertexts under the first key only
	Pure   bool // judge that an operation changes nothing but its output
	Ops    int  // operations judged

	// Twin replaces the evaluators by new ones and returns a function that restores them. When set, every operation is first
	// performed by a new evaluator with an output of its own, and the results have to be the same bit for bit.
	Twin func() func()
	last string
}

// Ent is an operand: a ciphertext or a plaintext.
type Ent struct {
	Ct   *ckks.Ciphertext
	Pt   *ckks.Plaintext
	Key  int
	Lazy uint64 // coefficients are below Lazy times the modulus
}

func (e *Ent) clone() *Ent {
	o := *e
	if e.Pt != nil {
		o.Pt = &ckks.Plaintext{Plaintext: &rlwe.Plaintext{Value: Clone(e.Pt.Value)}, Scale: e.Pt.Scale}
		return &o
	}
	o.Ct = &ckks.Ciphertext{Ciphertext: &rlwe.Ciphertext{}, Scale: e.Ct.Scale}
	for _, v := range e.Ct.Value {
		o.Ct.Value = append(o.Ct.Value, Clone(v))
	}
	return &o
}

func (e *Ent) differs(s *Ent) string {
	if e.Op().ScalingFactor() != s.Op().ScalingFactor() {
		return fmt.Sprintf("scale %g, before %g", e.Op().ScalingFactor(), s.Op().ScalingFactor())
	}
	a, b := e.Op().El().Value, s.Op().El().Value
	if len(a) != len(b) {
		return fmt.Sprintf("degree %d, before %d", len(a)-1, len(b)-1)
	}
	for i := range a {
		if !Same(a[i], b[i]) {
			return fmt.Sprintf("polynomial %d", i)
		}
	}
	return ""
}

// Scribble overwrites the memory of a pool entry and removes it; no other entry may change.
func (g *Prog) Scribble() {
	if len(g.Pool) < 2 {
		return
	}
	i := g.C.Uni(0, len(g.Pool)-1, "scribbled")
	e := g.Pool[i]
	g.Pool = append(append([]*Ent{}, g.Pool[:i]...), g.Pool[i+1:]...)
	var snap []*Ent
	for _, x := range g.Pool {
		snap = append(snap, x.clone())
	}
	for _, v := range e.Op().El().Value {
		for _, row := range v.Coeffs {
			for j := range row {
				row[j] = g.R.Uint64() >> 3
			}
		}
	}
	for j, x := range g.Pool {
		if d := x.differs(snap[j]); d != "" {
			g.C.Fatalf("after %s: two ciphertexts share memory: %s", g.last, d)
		}
	}
}

// Op is the operand interface of the entry.
func (e *Ent) Op() ckks.Operand {
	if e.Pt != nil {
		return e.Pt
	}
	return e.Ct
}

// Moduli near the scales keep programs meaningful.
func (c *C) ProgParams(label string) CK {
	o := RO{LogNLo: 4, LogNHi: 6, QLo: 2, QHi: 7, PLo: 1, PHi: 3, BitsLo: 35, BitsHi: 50, CI: true}
	switch c.Uni(0, 5, label+".kind") {
	case 0:
		o.BitsLo, o.BitsHi = 55, 61
	case 1:
		o.QLo, o.QHi = 1, 3
	case 2:
		o.QLo, o.QHi, o.PHi = 6, 12, 2
		o.LogNHi = 5
	}
	return c.CKKS(o, math.Exp2(float64(c.Uni(25, 40, label+".scale"))), label)
}

// NewProg draws keys, rotations, an evaluator and a few fresh operands.
func (c *C) NewProg(p CK, label string) *Prog {
	g := &Prog{C: c, P: p, R: c.Rng(label + ".rng"), Real: p.CI, N: p.N(), M: p.MaxSlots()}
	if g.M != g.N/2 && !p.CI || g.M != g.N && p.CI {
		c.Fatalf("MaxSlots()=%d for N=%d, conjugate-invariant %v", g.M, g.N, p.CI)
	}
	g.KG = ckks.NewKeyGenerator(p.Parameters)
	for i := 0; i < 2; i++ {
		sk := g.KG.GenSecretKey()
		g.Sk = append(g.Sk, sk)
		g.S = append(g.S, Secret(c, p.RP.Parameters, sk))
		if c.Bool(label + ".pk") {
			g.Enc[i] = ckks.NewEncryptor(p.Parameters, g.KG.GenPublicKey(sk))
		} else {
			g.Enc[i] = ckks.NewEncryptor(p.Parameters, sk)
		}
	}
	g.Rlk = g.KG.GenRelinearizationKey(g.Sk[0], c.Uni(1, 2, label+".rlk"))
	for i, n := 0, c.Uni(1, 5, label+".rots"); i < n; i++ {
		k := c.Uni(-g.M, g.M, label+".rot")
		if c.Chance(1, 4, label+".far") {
			k = c.Uni(-5*g.M, 5*g.M, label+".rotfar")
		}
		g.Rots = append(g.Rots, k)
	}
	g.Conj = !p.CI
	g.Rtk = g.KG.GenRotationKeysForRotations(g.Rots, g.Conj, g.Sk[0])
	for i := range g.Swk {
		g.Swk[i][1-i] = g.KG.GenSwitchingKey(g.Sk[i], g.Sk[1-i])
	}
	g.Eval = ckks.NewEvaluator(p.Parameters, rlwe.EvaluationKey{Rlk: g.Rlk, Rtks: g.Rtk})
	g.Ecd = ckks.NewEncoder(p.Parameters)
	return g
}

// Vec draws slot values.
func (g *Prog) Vec() []complex128 {
	mag := math.Exp2(float64(g.R.IntN(6) - 2))
	v := make([]complex128, g.M)
	for i := range v {
		v[i] = complex(g.R.Float(mag), 0)
		if !g.Real {
			v[i] += complex(0, g.R.Float(mag))
		}
	}
	return v
}

// Scale draws a scale.
func (g *Prog) Scale() float64 {
	s := g.P.DefaultScale()
	switch g.C.PickInt("scale", 0, 0, 0, 1, 2, 3, 4, 5, 6) {
	case 1:
		s *= float64(g.C.Uni(2, 9, "scale.int"))
	case 2:
		s *= 1 + g.R.Float(1e-6)
	case 3:
		s *= float64(g.C.Uni(2, 9, "scale.near")) * (1 + g.R.Float(1e-7))
	case 4:
		s *= 1 + 3*g.R.Float64()
	case 5:
		s = float64(g.P.Q()[g.R.IntN(g.P.QCount())])
	case 6:
		s /= float64(g.C.Uni(2, 9, "scale.div"))
	}
	return s
}

// Level draws a level.
func (g *Prog) Level() int {
	if g.C.Bool("top") {
		return g.P.MaxLevel()
	}
	return g.C.Uni(0, g.P.MaxLevel(), "level")
}

// Fresh adds a fresh ciphertext or plaintext to the pool.
func (g *Prog) Fresh(pt bool) *Ent {
	lvl, scale := g.Level(), g.Scale()
	v := g.Vec()
	for MaxC(v)*scale*8 > g.Q(lvl) {
		if lvl < g.P.MaxLevel() {
			lvl++
		} else {
			scale /= 2
		}
	}
	p := g.Ecd.EncodeNew(v, lvl, scale, g.P.MaxLogSlots())
	e := &Ent{Lazy: 1}
	if pt {
		e.Pt = p
	} else {
		if !g.OneKey && g.C.Chance(1, 6, "key1") {
			e.Key = 1
		}
		e.Ct = g.Enc[e.Key].EncryptNew(p)
	}
	return e
}

// Q is the modulus at a level, as a float (infinite for the large ones).
func (g *Prog) Q(lvl int) float64 {
	f, _ := new(big.Float).SetInt(Prod(g.P.Q()[:lvl+1])).Float64()
	return f
}

// MaxC is the largest absolute value.
func MaxC(v []complex128) (m float64) {
	for _, x := range v {
		m = math.Max(m, math.Hypot(real(x), imag(x)))
	}
	return
}

// Val decrypts and decodes with the secret key, from the definitions.
func (g *Prog) Val(e *Ent) []complex128 {
	op := e.Op()
	return g.Dec(op.El().Value, op.Level(), op.ScalingFactor(), e.Key)
}

// Dec decrypts and decodes.
func (g *Prog) Dec(val []*ring.Poly, level int, scale float64, key int) []complex128 {
	for i, v := range val {
		if len(v.Coeffs) != level+1 {
			g.C.Fatalf("after %s: polynomial %d has %d limbs, polynomial 0 has %d", g.last, i, len(v.Coeffs), level+1)
		}
	}
	a := BigFloats(Phase(g.P.RingQ(), val, true, g.S[key], level))
	for i := range a {
		a[i] /= scale
	}
	return EvalSlots(a, g.P.M, g.M, g.P.CI)
}

// expansion: |slots| <= Exp * |coefficients|
func (g *Prog) Exp() float64 {
	if g.P.CI {
		return float64(2 * g.N)
	}
	return float64(g.N)
}

// KS bounds the coefficients of the noise of a key switch at a level.
func (g *Prog) KS(level, key int) float64 {
	p := g.P.RP
	a := p.PCount()
	b := new(big.Int)
	for i := 0; i <= level; i += a {
		hi := i + a
		if hi > level+1 {
			hi = level + 1
		}
		b.Add(b, Prod(p.Q()[i:hi]))
	}
	b.Mul(b, big.NewInt(2*int64(p.N())*p.F*p.Noise))
	b.Div(b, Prod(p.P()))
	f, _ := new(big.Float).SetInt(b).Float64()
	return f + float64(3+(1+p.F*L1(g.S[key]))*103/100)
}

// Step is one operation: what it computes and how it is called.
type Step struct {
	Name  string
	In    []*Ent
	Deg   int // degree of the result
	Acc   bool
	Exact bool                              // the output has to have the degree of the result already
	MinD  int                               // smallest degree the output may have
	Scale func(lvl int, so float64) float64 // scale of the result (so: scale of the output before)
	// expected value and tolerance at the level; out: value of the output before, so its scale
	Want func(lvl int, scale float64, out []complex128, so float64) ([]complex128, float64)
	Key  int
	Lazy uint64
	Call func(out *ckks.Ciphertext)
	New  func() *ckks.Ciphertext
	Only bool                            // only in place on In[0]
	Lvl  func(lvl int) int               // level of the result, from the smallest level of operands and output
	Out  func(out *ckks.Ciphertext) bool // further conditions on the output
	Rand bool                            // the result is randomized
}

func mapC(v []complex128, f func(int, complex128) complex128) []complex128 {
	o := make([]complex128, len(v))
	for i := range v {
		o[i] = f(i, v[i])
	}
	return o
}

// Run performs the step with a drawn placement of the output and judges the result. It reports false, doing nothing, when no
// admissible placement was found.
func (g *Prog) Run(s *Step) bool {
	c := g.C
	lvl := 1 << 30
	for _, e := range s.In {
		if l := e.Op().Level(); l < lvl {
			lvl = l
		}
	}
	// placement
	var out *ckks.Ciphertext
	var target *Ent
	place := "new"
	kinds := []string{"alloc", "alloc", "reuse", "reuse", "alias"}
	if s.New != nil {
		kinds = append(kinds, "new", "new")
	}
	if s.Only {
		kinds = []string{"alias0"}
	}
	if s.Acc {
		kinds = []string{"reuse", "reuse", "reuse", "alias"}
	}
	if len(s.In) == 0 {
		lvl = g.P.MaxLevel()
		kinds = []string{"alloc", "reuse", "new", "new"}
	}
	degOK := func(d int) bool {
		if s.Exact {
			return d == s.Deg
		}
		return d >= s.MinD
	}
	switch k := c.Pick(s.Name+".place", kinds...); k {
	case "alias0":
		target = s.In[0]
		place = "alias0"
	case "alloc":
		d := s.MinD
		if s.Exact {
			d = s.Deg
		} else if c.Bool(s.Name + ".high") {
			d = c.Uni(d, 2, s.Name+".deg")
		}
		l := g.P.MaxLevel()
		if c.Bool(s.Name + ".outlevel") {
			l = c.Uni(0, l, s.Name+".lvl")
		} else if c.Bool(s.Name + ".samelevel") {
			l = lvl
		}
		out = ckks.NewCiphertext(g.P.Parameters, d, l, g.Scale())
		if c.Bool(s.Name + ".dirty") {
			for _, v := range out.Value {
				Fill(g.R, v, g.P.Q()[:l+1], "uniform")
			}
		}
		place = fmt.Sprintf("allocated at level %d degree %d", l, d)
	case "reuse":
		var cand []*Ent
		for _, e := range g.Pool {
			in := false
			for _, x := range s.In {
				in = in || x == e
			}
			if e.Ct != nil && !in && degOK(e.Ct.Degree()) && (!s.Acc || e.Key == s.Key && e.Lazy == 1) {
				cand = append(cand, e)
			}
		}
		if len(cand) == 0 {
			return false
		}
		target = cand[c.Uni(0, len(cand)-1, s.Name+".target")]
		place = fmt.Sprintf("reused (level %d degree %d)", target.Ct.Level(), target.Ct.Degree())
	case "alias":
		i := c.Uni(0, len(s.In)-1, s.Name+".alias")
		if s.In[i].Ct == nil || !degOK(s.In[i].Ct.Degree()) || s.In[i].Lazy > 1 && s.Acc {
			return false
		}
		target = s.In[i]
		place = fmt.Sprintf("operand %d", i)
	}
	so, outLvl := 0.0, lvl
	var before []complex128
	if target != nil {
		out = target.Ct
		if s.Acc {
			before = g.Val(target)
		}
	}
	if out != nil {
		so = out.Scale
		if l := out.Level(); l < outLvl {
			outLvl = l
		}
	}
	if out != nil && s.Out != nil && !s.Out(out) {
		return false
	}
	deg := s.Deg
	if s.Acc && out.Degree() > deg {
		deg = out.Degree()
	}
	inLvl := outLvl
	if s.Lvl != nil {
		outLvl = s.Lvl(outLvl)
	}
	scale := s.Scale(inLvl, so)
	want, tol := s.Want(inLvl, scale, before, so)
	tol += 1e-12*MaxC(want) + 2*g.Exp()/scale*1e-9
	if !(scale >= 64 && scale <= 1e250 && MaxC(want) <= 1e12 && MaxC(want)*scale*4+tol*scale <= g.Q(outLvl)) {
		return false
	}
	desc := fmt.Sprintf("%s output %s", s.Name, place)
	for i, e := range s.In {
		desc += fmt.Sprintf("; operand %d level %d degree %d scale 2^%.3f", i, e.Op().Level(), e.Op().Degree(), math.Log2(e.Op().ScalingFactor()))
	}
	c.Note("%s", desc)
	var snap []*Ent
	var orig []*Ent
	if g.Pure {
		for _, e := range append(append([]*Ent{}, g.Pool...), s.In...) {
			if (e.Ct != nil || e.Pt != nil) && (out == nil || e.Ct != out) {
				orig, snap = append(orig, e), append(snap, e.clone())
			}
		}
	}
	var ref *Ent
	if g.Twin != nil && !s.Rand {
		if place != "new" {
			ref = (&Ent{Ct: out}).clone()
			if !s.Acc && !s.Only {
				for _, v := range ref.Ct.Value {
					v.Zero()
				}
			}
		}
		restore := g.Twin()
		if e := Panics(func() {
			if place == "new" {
				ref = &Ent{Ct: s.New()}
			} else {
				s.Call(ref.Ct)
			}
		}); e != "" {
			c.Fatalf("%s, by a new evaluator with a new output: %s", desc, e)
		}
		restore()
		for i, e := range orig {
			if d := e.differs(snap[i]); d != "" {
				c.Fatalf("%s, by a new evaluator with a new output: changed an operand that is not its output: %s", desc, d)
			}
		}
	}
	if len(s.In) > 0 && c.Chance(1, 8, s.Name+".earlier") { // the same operands, with other contents
		var polys []interface{}
		for _, e := range s.In {
			for _, v := range e.Op().El().Value {
				polys = append(polys, v)
			}
		}
		var junk *Ent
		if place != "new" {
			junk = (&Ent{Ct: out}).clone()
		}
		Earlier(func() {
			if junk == nil {
				s.New()
			} else {
				s.Call(junk.Ct)
			}
		}, polys...)
	}
	if e := Panics(func() {
		if place == "new" {
			out = s.New()
		} else {
			s.Call(out)
		}
	}); e != "" {
		c.Fatalf("%s: %s", desc, e)
	}
	g.last = desc
	for i, e := range orig {
		if d := e.differs(snap[i]); d != "" {
			c.Fatalf("%s: changed an operand that is not its output: %s", desc, d)
		}
	}
	if ref != nil {
		if d := (&Ent{Ct: out}).differs(ref); d != "" {
			c.Fatalf("%s: differs from the result of a new evaluator in a new output: %s", desc, d)
		}
	}
	if target == nil {
		target = &Ent{}
		if len(g.Pool) < 10 {
			g.Pool = append(g.Pool, target)
		} else {
			g.Pool[g.R.IntN(len(g.Pool))] = target
		}
	}
	*target = Ent{Ct: out, Key: s.Key, Lazy: 1}
	if s.Lazy > 1 {
		target.Lazy = s.Lazy
	}
	if out.Level() != outLvl {
		c.Fatalf("%s: result at level %d, expected %d", desc, out.Level(), outLvl)
	}
	if out.Degree() != deg {
		c.Fatalf("%s: result of degree %d, expected %d", desc, out.Degree(), deg)
	}
	if d := math.Abs(out.Scale/scale - 1); d > 1e-14 || math.IsNaN(d) {
		c.Fatalf("%s: result of scale %g, expected %g", desc, out.Scale, scale)
	}
	for i, v := range out.Value {
		if !v.IsNTT {
			c.Fatalf("%s: polynomial %d of the result is not marked as NTT", desc, i)
		}
	}
	got := g.Val(target)
	for i := range want {
		if d := got[i] - want[i]; !(math.Hypot(real(d), imag(d)) <= tol) {
			c.Fatalf("%s: slot %d decrypts to %v, expected %v (tolerance %g)", desc, i, got[i], want[i], tol)
		}
	}
	if tol < 1e-2*MaxC(want) {
		g.Ops++
		c.NonTrivial(g.Ops >= 4)
	}
	c.Class("%s", s.Name)
	return true
}

// Cts lists pool entries satisfying f.
func (g *Prog) Find(label string, f func(e *Ent) bool) *Ent {
	var cand []*Ent
	for _, e := range g.Pool {
		if f(e) {
			cand = append(cand, e)
		}
	}
	if len(cand) == 0 {
		return nil
	}
	return cand[g.C.Uni(0, len(cand)-1, label)]
}
