package vh

import (
	"math"
	"math/big"
	"math/cmplx"

	"fast-ksw/ckks"
	"fast-ksw/ring"
)

// Extra are the exported methods of the evaluator that are not part of its interface.
type Extra interface {
	MulByPow2New(ct0 *ckks.Ciphertext, pow2 int) *ckks.Ciphertext
	MulByPow2(ct0 *ckks.Ciphertext, pow2 int, ctOut *ckks.Ciphertext)
	RescaleNew(ct0 *ckks.Ciphertext, threshold float64) (*ckks.Ciphertext, error)
}

// ring operations of ratio r done with the integer k: relative error
func mismatch(r float64) float64 {
	if r < 1 {
		r = 1 / r
	}
	return math.Abs(1 - math.Max(1, math.Round(r))/r)
}

// close to half way between integers: the scale matching may go either way
func (g *Prog) match(r float64) float64 {
	if r < 1 {
		r = 1 / r
	}
	if f := r - math.Floor(r); math.Abs(f-0.5) < 1e-9 {
		return 0.5 / r * 1.01
	}
	return mismatch(r) * (1 + 1e-9)
}

func same(x, y complex128) complex128 { return x + y }

// Const draws a constant: as an argument, its value, and whether it is an integer.
func (g *Prog) Const() (interface{}, complex128, bool) {
	c, r := g.C, g.R
	integer := func() float64 {
		switch r.IntN(6) {
		case 0:
			return 0
		case 1:
			return 1
		case 2:
			return float64(r.IntN(1 << 20))
		case 3:
			return float64(r.Uint64() >> uint(12+r.IntN(52)))
		}
		return float64(r.IntN(20))
	}
	frac := func() float64 {
		switch r.IntN(5) {
		case 0:
			return r.Float(1e-4)
		case 1:
			return float64(r.IntN(40)-20) + 0.5
		case 2:
			return r.Float(1 << 20)
		}
		return r.Float(4)
	}
	sign := func(x float64) float64 {
		if r.IntN(2) == 0 {
			return -x
		}
		return x
	}
	switch c.Pick("const", "int", "int64", "uint64", "float", "floatint", "complex", "complexint", "complexint", "imag", "mixed") {
	case "int":
		x := sign(integer())
		return int(x), complex(x, 0), true
	case "int64":
		x := sign(integer())
		return int64(x), complex(x, 0), true
	case "uint64":
		x := integer()
		return uint64(x), complex(x, 0), true
	case "float":
		x := frac()
		return x, complex(x, 0), x == math.Trunc(x)
	case "floatint":
		x := sign(integer())
		return x, complex(x, 0), true
	case "complexint":
		x := complex(sign(integer()), sign(integer()))
		if g.Real { // the imaginary part is ignored
			return x, complex(real(x), 0), true
		}
		return x, x, true
	case "imag":
		if !g.Real {
			x := complex(0, frac())
			return x, x, imag(x) == math.Trunc(imag(x))
		}
	case "mixed":
		if !g.Real {
			x := complex(sign(integer()), frac())
			if r.IntN(2) == 0 {
				x = complex(imag(x), real(x))
			}
			return x, x, real(x) == math.Trunc(real(x)) && imag(x) == math.Trunc(imag(x))
		}
	}
	x := complex(frac(), frac())
	v := x
	if g.Real {
		v = complex(real(x), 0)
	}
	return x, v, real(x) == math.Trunc(real(x)) && imag(x) == math.Trunc(imag(x))
}

// Gauss draws a Gaussian integer.
func (g *Prog) Gauss() (re, im interface{}, v complex128) {
	one := func(zero bool) (interface{}, float64) {
		x := g.R.IntN(1 << uint(1+g.R.IntN(12)))
		if g.R.IntN(5) == 0 {
			x = int(g.R.Uint64() >> uint(12+g.R.IntN(20)))
		}
		if g.R.IntN(8) == 0 {
			x = int(g.P.Q()[g.R.IntN(g.P.QCount())]) * (1 + g.R.IntN(2))
		}
		if zero || g.R.IntN(6) == 0 {
			x = 0
		}
		k := g.R.IntN(3)
		if k > 0 && g.R.IntN(2) == 0 {
			x = -x
		}
		switch k {
		case 0:
			return uint64(x), float64(x)
		case 1:
			return int64(x), float64(x)
		}
		return big.NewInt(int64(x)), float64(x)
	}
	re, a := one(false)
	im, b := one(g.Real)
	return re, im, complex(a, b)
}

// StepOps are the operations of MakeStep.
var StepOps = []string{"Add", "Add", "Sub", "Sub", "Neg", "AddConst", "MultByConst", "MultByConst", "MultByGaussianInteger", "MultByConstAndAdd", "MultByConstAndAdd",
	"MultByGaussianIntegerAndAdd", "MultByi", "DivByi", "Mul", "MulRelin", "MulRelin", "MulAndAdd", "MulRelinAndAdd", "Relinearize", "Relinearize", "Rotate", "Rotate", "Conjugate",
	"SwitchKeys", "ScaleUp", "MulByPow2", "AddNoMod", "SubNoMod", "Reduce", "Reduce", "Rescale", "Rescale", "DropLevel", "SetScale"}

// MakeStep draws the operands of the named operation; nil when there are none.
func (g *Prog) MakeStep(name string) *Step {
	c := g.C
	ct := func(label string, maxDeg int, f func(e *Ent) bool) *Ent {
		return g.Find(name+"."+label, func(e *Ent) bool {
			return e.Ct != nil && e.Ct.Degree() <= maxDeg && (f == nil && e.Lazy == 1 || f != nil && f(e))
		})
	}
	keep := func(e *Ent) func(int, float64) float64 {
		return func(int, float64) float64 { return e.Op().ScalingFactor() }
	}
	// want from the values of the operands, before the call
	unary := func(e *Ent, f func(int, complex128) complex128, tol float64) func(int, float64, []complex128, float64) ([]complex128, float64) {
		return func(int, float64, []complex128, float64) ([]complex128, float64) { return mapC(g.Val(e), f), tol }
	}
	ks := func(key int) func(int, float64) float64 {
		return func(lvl int, scale float64) float64 { return g.KS(lvl, key) * g.Exp() / scale }
	}
	withKS := func(key int, f func(int, float64, []complex128, float64) ([]complex128, float64)) func(int, float64, []complex128, float64) ([]complex128, float64) {
		return func(l int, s float64, o []complex128, so float64) ([]complex128, float64) {
			v, t := f(l, s, o, so)
			return v, t + ks(key)(l, s)
		}
	}
	switch name {
	case "Add", "Sub", "AddNoMod", "SubNoMod":
		lazy := name == "AddNoMod" || name == "SubNoMod"
		a := g.Find(name+".0", func(e *Ent) bool { return e.Lazy == 1 || lazy && e.Lazy < 4 && e.Ct != nil })
		if a == nil {
			return nil
		}
		b := g.Find(name+".1", func(e *Ent) bool {
			return (e.Lazy == 1 || name == "AddNoMod" && e.Lazy < 4) && (e.Key == a.Key || a.Pt != nil || e.Pt != nil) && (a.Pt == nil || e.Pt == nil)
		})
		if b == nil {
			return nil
		}
		if c.Chance(1, 10, name+".same") && a.Ct != nil && a.Lazy == 1 {
			b = a
		}
		d := a.Op().Degree()
		if x := b.Op().Degree(); x > d {
			d = x
		}
		key := a.Key
		if a.Pt != nil {
			key = b.Key
		}
		sa, sb := a.Op().ScalingFactor(), b.Op().ScalingFactor()
		sgn := complex(1, 0)
		if name == "Sub" || name == "SubNoMod" {
			sgn = -1
		}
		s := &Step{Name: name, In: []*Ent{a, b}, Deg: d, MinD: d, Key: key,
			Scale: func(int, float64) float64 { return math.Max(sa, sb) },
			Want: func(int, float64, []complex128, float64) ([]complex128, float64) {
				va, vb := g.Val(a), g.Val(b)
				t := 1e-12 * (MaxC(va) + MaxC(vb))
				if sa < sb {
					t += MaxC(va) * g.match(sb/sa)
				} else {
					t += MaxC(vb) * g.match(sa/sb)
				}
				return mapC(va, func(i int, x complex128) complex128 { return x + sgn*vb[i] }), t
			}}
		switch name {
		case "Add":
			s.Call = func(o *ckks.Ciphertext) { g.Eval.Add(a.Op(), b.Op(), o) }
			s.New = func() *ckks.Ciphertext { return g.Eval.AddNew(a.Op(), b.Op()) }
		case "Sub":
			s.Call = func(o *ckks.Ciphertext) { g.Eval.Sub(a.Op(), b.Op(), o) }
			s.New = func() *ckks.Ciphertext { return g.Eval.SubNew(a.Op(), b.Op()) }
		case "AddNoMod":
			s.Lazy = a.Lazy + b.Lazy
			s.Call = func(o *ckks.Ciphertext) { g.Eval.AddNoMod(a.Op(), b.Op(), o) }
			s.New = func() *ckks.Ciphertext { return g.Eval.AddNoModNew(a.Op(), b.Op()) }
		case "SubNoMod":
			s.Lazy = a.Lazy + 1
			s.Call = func(o *ckks.Ciphertext) { g.Eval.SubNoMod(a.Op(), b.Op(), o) }
			s.New = func() *ckks.Ciphertext { return g.Eval.SubNoModNew(a.Op(), b.Op()) }
		}
		return s

	case "Neg", "MultByi", "DivByi", "MulByPow2", "Reduce", "AddConst", "MultByConst", "MultByGaussianInteger", "ScaleUp":
		a := ct("0", 2, nil)
		if name == "Reduce" {
			a = ct("0", 2, func(e *Ent) bool { return e.Lazy > 1 || c.Chance(1, 6, "Reduce.any") })
		}
		if a == nil || g.Real && (name == "MultByi" || name == "DivByi") {
			return nil
		}
		s := &Step{Name: name, In: []*Ent{a}, Deg: a.Ct.Degree(), MinD: 1, Key: a.Key, Scale: keep(a)}
		switch name {
		case "Neg":
			s.Exact = true
			s.Want = unary(a, func(_ int, x complex128) complex128 { return -x }, 0)
			s.Call = func(o *ckks.Ciphertext) { g.Eval.Neg(a.Ct, o) }
			s.New = func() *ckks.Ciphertext { return g.Eval.NegNew(a.Ct) }
		case "Reduce":
			s.Exact = true
			s.Want = unary(a, func(_ int, x complex128) complex128 { return x }, 0)
			s.Call = func(o *ckks.Ciphertext) {
				if err := g.Eval.Reduce(a.Ct, o); err != nil {
					panic(err)
				}
			}
			s.New = func() *ckks.Ciphertext { return g.Eval.ReduceNew(a.Ct) }
		case "MultByi":
			s.Want = unary(a, func(_ int, x complex128) complex128 { return complex(-imag(x), real(x)) }, 0)
			s.Call = func(o *ckks.Ciphertext) { g.Eval.MultByi(a.Ct, o) }
			s.New = func() *ckks.Ciphertext { return g.Eval.MultByiNew(a.Ct) }
		case "DivByi":
			s.Want = unary(a, func(_ int, x complex128) complex128 { return complex(imag(x), -real(x)) }, 0)
			s.Call = func(o *ckks.Ciphertext) { g.Eval.DivByi(a.Ct, o) }
			s.New = func() *ckks.Ciphertext { return g.Eval.DivByiNew(a.Ct) }
		case "MulByPow2":
			k := c.Uni(0, 20, name+".pow")
			f := complex(math.Exp2(float64(k)), 0)
			s.Want = unary(a, func(_ int, x complex128) complex128 { return f * x }, 0)
			s.Call = func(o *ckks.Ciphertext) { g.Eval.(Extra).MulByPow2(a.Ct, k, o) }
			s.New = func() *ckks.Ciphertext { return g.Eval.(Extra).MulByPow2New(a.Ct, k) }
		case "AddConst":
			k, v, _ := g.Const()
			s.Name += "(" + typeName(k) + ")"
			s.Want = func(l int, sc float64, o []complex128, so float64) ([]complex128, float64) {
				x := g.Val(a)
				return mapC(x, func(_ int, x complex128) complex128 { return x + v }), 1.5/sc + 1e-12*(MaxC(x)+cmplx.Abs(v))
			}
			s.Call = func(o *ckks.Ciphertext) { g.Eval.AddConst(a.Ct, k, o) }
			s.New = func() *ckks.Ciphertext { return g.Eval.AddConstNew(a.Ct, k) }
		case "MultByConst":
			k, v, exact := g.Const()
			s.Name += "(" + typeName(k) + ")"
			s.Scale = func(l int, _ float64) float64 {
				if exact {
					return a.Ct.Scale
				}
				return a.Ct.Scale * float64(g.P.Q()[l])
			}
			s.Want = func(l int, sc float64, o []complex128, so float64) ([]complex128, float64) {
				x := g.Val(a)
				t := 1e-12 * MaxC(x) * cmplx.Abs(v)
				if !exact {
					t += 0.8 * MaxC(x) / float64(g.P.Q()[l])
				}
				return mapC(x, func(_ int, x complex128) complex128 { return x * v }), t
			}
			s.Call = func(o *ckks.Ciphertext) { g.Eval.MultByConst(a.Ct, k, o) }
			s.New = func() *ckks.Ciphertext { return g.Eval.MultByConstNew(a.Ct, k) }
		case "MultByGaussianInteger":
			re, im, v := g.Gauss()
			s.Name += "(" + typeName(re) + "," + typeName(im) + ")"
			s.Want = func(l int, sc float64, o []complex128, so float64) ([]complex128, float64) {
				x := g.Val(a)
				return mapC(x, func(_ int, x complex128) complex128 { return x * v }), 1e-12 * MaxC(x) * cmplx.Abs(v)
			}
			s.Call = func(o *ckks.Ciphertext) { g.Eval.MultByGaussianInteger(a.Ct, re, im, o) }
		case "ScaleUp":
			k := float64(c.Uni(1, 40, name+".k"))
			if c.Bool(name + ".large") {
				k = math.Exp2(float64(c.Uni(0, 70, name+".exp")))
			}
			if c.Chance(1, 3, name+".frac") { // the integer nearest to a fraction
				k = k + (g.R.Float64()-0.5)*0.98
				if k < 0.51 {
					k = 0.51 + 0.4*g.R.Float64()
				}
			}
			s.Scale = func(int, float64) float64 { return a.Ct.Scale * math.Round(k) }
			s.Want = unary(a, func(_ int, x complex128) complex128 { return x }, 0)
			s.Call = func(o *ckks.Ciphertext) { g.Eval.ScaleUp(a.Ct, k, o) }
			s.New = func() *ckks.Ciphertext { return g.Eval.ScaleUpNew(a.Ct, k) }
		}
		return s

	case "MultByConstAndAdd":
		a := ct("0", 2, nil)
		if a == nil {
			return nil
		}
		k, v, exact := g.Const()
		s := &Step{Name: name + "(" + typeName(k) + ")", In: []*Ent{a}, Deg: a.Ct.Degree(), MinD: 1, Key: a.Key, Acc: true}
		s0 := a.Ct.Scale
		target := func(l int) float64 {
			if exact {
				return s0
			}
			return s0 * float64(g.P.Q()[l])
		}
		s.Scale = func(l int, so float64) float64 { return math.Max(so, target(l)) }
		s.Want = func(l int, sc float64, o []complex128, so float64) ([]complex128, float64) {
			x := g.Val(a)
			t := 1e-12 * (MaxC(x)*cmplx.Abs(v) + MaxC(o))
			if ts := target(l); so < ts {
				t += MaxC(o) * g.match(ts/so)
				if !exact {
					t += 0.8 * MaxC(x) / float64(g.P.Q()[l])
				}
			} else if r := so / s0; !exact || r != math.Trunc(r) {
				t += 0.8 * MaxC(x) / r
			}
			return mapC(x, func(i int, x complex128) complex128 { return o[i] + x*v }), t
		}
		s.Call = func(o *ckks.Ciphertext) { g.Eval.MultByConstAndAdd(a.Ct, k, o) }
		return s

	case "MultByGaussianIntegerAndAdd":
		a := ct("0", 2, nil)
		if a == nil {
			return nil
		}
		re, im, v := g.Gauss()
		s := &Step{Name: name, In: []*Ent{a}, Deg: a.Ct.Degree(), MinD: 1, Key: a.Key, Acc: true, Scale: keep(a)}
		s.Out = func(o *ckks.Ciphertext) bool { return o.Scale == a.Ct.Scale }
		s.Want = func(l int, sc float64, o []complex128, so float64) ([]complex128, float64) {
			x := g.Val(a)
			return mapC(x, func(i int, x complex128) complex128 { return o[i] + x*v }), 1e-12 * (MaxC(x)*cmplx.Abs(v) + MaxC(o))
		}
		s.Call = func(o *ckks.Ciphertext) { g.Eval.MultByGaussianIntegerAndAdd(a.Ct, re, im, o) }
		return s

	case "Mul", "MulRelin", "MulAndAdd", "MulRelinAndAdd":
		relin := name == "MulRelin" || name == "MulRelinAndAdd"
		acc := name == "MulAndAdd" || name == "MulRelinAndAdd"
		ok := func(e *Ent) bool { return e.Lazy == 1 && (e.Pt != nil || e.Ct.Degree() < 2 && (!relin || e.Key == 0)) }
		a := g.Find(name+".0", ok)
		if a == nil {
			return nil
		}
		b := g.Find(name+".1", func(e *Ent) bool {
			return ok(e) && (e.Key == a.Key || a.Pt != nil || e.Pt != nil) && (a.Pt == nil || e.Pt == nil)
		})
		if b == nil {
			return nil
		}
		if c.Chance(1, 8, name+".square") && a.Ct != nil {
			b = a
		}
		key := a.Key
		if a.Pt != nil {
			key = b.Key
		}
		d := a.Op().Degree() + b.Op().Degree()
		full := d == 2
		if relin {
			d = 1
		}
		sc := a.Op().ScalingFactor() * b.Op().ScalingFactor()
		s := &Step{Name: name, In: []*Ent{a, b}, Deg: d, MinD: 1, Key: key, Acc: acc}
		s.Scale = func(int, float64) float64 { return sc }
		if acc {
			s.Out = func(o *ckks.Ciphertext) bool { return o.Scale <= sc }
		}
		s.Want = func(l int, sc float64, o []complex128, so float64) ([]complex128, float64) {
			x, y := g.Val(a), g.Val(b)
			t := 1e-12 * MaxC(x) * MaxC(y)
			if acc {
				t += MaxC(o) * (1e-12 + g.match(sc/so))
			}
			if relin && full {
				t += ks(0)(l, sc)
			}
			return mapC(x, func(i int, x complex128) complex128 {
				x *= y[i]
				if acc {
					x += o[i]
				}
				return x
			}), t
		}
		// the same ciphertext may come in two wrappers
		wrap := a == b && c.Bool(name+".wrapped")
		opB := func() ckks.Operand {
			if wrap {
				return &ckks.Ciphertext{Ciphertext: a.Ct.Ciphertext, Scale: a.Ct.Scale}
			}
			return b.Op()
		}
		switch name {
		case "Mul":
			s.Call = func(o *ckks.Ciphertext) { g.Eval.Mul(a.Op(), opB(), o) }
			s.New = func() *ckks.Ciphertext { return g.Eval.MulNew(a.Op(), opB()) }
		case "MulRelin":
			s.Call = func(o *ckks.Ciphertext) { g.Eval.MulRelin(a.Op(), opB(), o) }
			s.New = func() *ckks.Ciphertext { return g.Eval.MulRelinNew(a.Op(), opB()) }
		case "MulAndAdd":
			s.Call = func(o *ckks.Ciphertext) { g.Eval.MulAndAdd(a.Op(), opB(), o) }
		case "MulRelinAndAdd":
			s.Call = func(o *ckks.Ciphertext) { g.Eval.MulRelinAndAdd(a.Op(), opB(), o) }
		}
		return s

	case "Relinearize":
		a := ct("0", 2, func(e *Ent) bool { return e.Ct.Degree() == 2 && e.Lazy == 1 && e.Key == 0 })
		if a == nil {
			return nil
		}
		return &Step{Name: name, In: []*Ent{a}, Deg: 1, MinD: 1, Scale: keep(a),
			Want: withKS(0, unary(a, func(_ int, x complex128) complex128 { return x }, 0)),
			Call: func(o *ckks.Ciphertext) { g.Eval.Relinearize(a.Ct, o) },
			New:  func() *ckks.Ciphertext { return g.Eval.RelinearizeNew(a.Ct) }}

	case "Rotate", "Conjugate", "SwitchKeys":
		a := ct("0", 1, func(e *Ent) bool { return e.Lazy == 1 && (e.Key == 0 || name == "SwitchKeys") })
		if a == nil || name == "Conjugate" && g.Real {
			return nil
		}
		s := &Step{Name: name, In: []*Ent{a}, Deg: 1, Exact: true, Scale: keep(a)}
		switch name {
		case "Rotate":
			k := g.Rots[c.Uni(0, len(g.Rots)-1, name+".k")] + g.M*c.PickInt(name+".turns", 0, 0, -1, 1, 3)
			if c.Chance(1, 8, name+".zero") {
				k = 0
			}
			s.Want = withKS(0, func(int, float64, []complex128, float64) ([]complex128, float64) {
				v := g.Val(a)
				return mapC(v, func(i int, _ complex128) complex128 { return v[((i+k)%g.M+g.M)%g.M] }), 0
			})
			s.Call = func(o *ckks.Ciphertext) { g.Eval.Rotate(a.Ct, k, o) }
			s.New = func() *ckks.Ciphertext { return g.Eval.RotateNew(a.Ct, k) }
		case "Conjugate":
			s.Want = withKS(0, unary(a, func(_ int, x complex128) complex128 { return cmplx.Conj(x) }, 0))
			s.Call = func(o *ckks.Ciphertext) { g.Eval.Conjugate(a.Ct, o) }
			s.New = func() *ckks.Ciphertext { return g.Eval.ConjugateNew(a.Ct) }
		case "SwitchKeys":
			s.Key = 1 - a.Key
			swk := g.Swk[a.Key][s.Key]
			s.Want = withKS(s.Key, unary(a, func(_ int, x complex128) complex128 { return x }, 0))
			s.Call = func(o *ckks.Ciphertext) { g.Eval.SwitchKeys(a.Ct, swk, o) }
			s.New = func() *ckks.Ciphertext { return g.Eval.SwitchKeysNew(a.Ct, swk) }
		}
		return s

	case "Rescale":
		a := ct("0", 2, func(e *Ent) bool { return e.Lazy == 1 && e.Ct.Level() > 0 })
		if a == nil {
			return nil
		}
		min := g.P.DefaultScale()
		switch c.Uni(0, 4, name+".min") {
		case 0:
			min = a.Ct.Scale
		case 1:
			min = a.Ct.Scale / math.Exp2(float64(c.Uni(0, 60, name+".exp")))
		}
		nb, sc := g.Rescales(a.Ct.Scale, a.Ct.Level(), min)
		return &Step{Name: name, In: []*Ent{a}, Deg: a.Ct.Degree(), Exact: true, Key: a.Key,
			Scale: func(int, float64) float64 { return sc },
			Lvl:   func(l int) int { return l - nb },
			Out:   func(o *ckks.Ciphertext) bool { return o.Level() == a.Ct.Level() },
			Want: func(l int, sc float64, o []complex128, so float64) ([]complex128, float64) {
				t := 0.0
				if nb > 0 {
					t = g.Exp() * g.RescaleErr(a.Key, a.Ct.Degree()) / sc
				}
				return g.Val(a), t
			},
			Call: func(o *ckks.Ciphertext) {
				if err := g.Eval.Rescale(a.Ct, min, o); err != nil {
					panic(err)
				}
			},
			New: func() *ckks.Ciphertext {
				o, err := g.Eval.(Extra).RescaleNew(a.Ct, min)
				if err != nil {
					panic(err)
				}
				return o
			}}

	case "DropLevel":
		a := ct("0", 2, func(e *Ent) bool { return true })
		if a == nil {
			return nil
		}
		n := c.Uni(0, a.Ct.Level(), name+".n")
		if n > 2 && c.Bool(name+".few") {
			n = 1
		}
		s := &Step{Name: name, In: []*Ent{a}, Deg: a.Ct.Degree(), Key: a.Key, Only: true, Scale: keep(a), Lazy: a.Lazy,
			Lvl:  func(l int) int { return l - n },
			Want: unary(a, func(_ int, x complex128) complex128 { return x }, 0),
			Call: func(o *ckks.Ciphertext) { g.Eval.DropLevel(o, n) }}
		if c.Bool(name + ".new") {
			s.Only, s.Out = false, func(*ckks.Ciphertext) bool { return false }
			s.New = func() *ckks.Ciphertext { return g.Eval.DropLevelNew(a.Ct, n) }
		}
		return s

	case "SetScale":
		a := ct("0", 2, func(e *Ent) bool { return e.Lazy == 1 && e.Ct.Level() > 0 })
		if a == nil {
			return nil
		}
		to := g.Scale()
		if c.Bool(name + ".near") {
			to = a.Ct.Scale * (0.25 + 4*g.R.Float64())
		}
		r := to / a.Ct.Scale
		q := float64(g.P.Q()[a.Ct.Level()])
		used := 1
		if r == math.Trunc(r) {
			used = 0
		}
		return &Step{Name: name, In: []*Ent{a}, Deg: a.Ct.Degree(), Key: a.Key, Only: true,
			Scale: func(int, float64) float64 { return to },
			Lvl:   func(l int) int { return l - used },
			Out: func(o *ckks.Ciphertext) bool { // the value has to fit before the division
				return MaxC(g.Val(a))*a.Ct.Scale*math.Max(1, r)*q*4 < g.Q(a.Ct.Level()) && r*q > 64
			},
			Want: func(l int, sc float64, o []complex128, so float64) ([]complex128, float64) {
				v := g.Val(a)
				t := 1e-12 * MaxC(v)
				if used == 1 {
					t += 0.8*MaxC(v)/(r*q) + g.Exp()*g.RescaleErr(a.Key, a.Ct.Degree())/sc
				}
				return v, t
			},
			Call: func(o *ckks.Ciphertext) { g.Eval.SetScale(o, to) }}
	}
	panic("no operation " + name)
}

// Rescales is the number of moduli a rescaling divides by and the scale it reaches: as many trailing moduli as leave the scale at
// half of min at least, and never the first.
func (g *Prog) Rescales(scale float64, level int, min float64) (int, float64) {
	nb := 0
	for nb < level && scale/float64(g.P.Q()[level-nb]) >= min/2 {
		scale /= float64(g.P.Q()[level-nb])
		nb++
	}
	return nb, scale
}

// RescaleErr bounds the coefficients of the rounding error of a rescaling of a ciphertext of the given degree.
func (g *Prog) RescaleErr(key, deg int) float64 {
	f, t := float64(g.P.RP.F*L1(g.S[key])), 1.0
	e := t
	for i := 0; i < deg; i++ {
		t *= f
		e += t
	}
	return 1.1 * e
}

func typeName(x interface{}) string {
	switch x.(type) {
	case int:
		return "int"
	case int64:
		return "int64"
	case uint64:
		return "uint64"
	case float64:
		return "float64"
	case complex128:
		return "complex128"
	case *big.Int:
		return "big.Int"
	}
	return "?"
}

var _ = ring.Standard
