package vh

import (
	"fmt"
	"hash/fnv"
	"math"
	"math/big"
	"reflect"
	"sort"
)

// Digest is a fingerprint of the data reachable from x through exported fields.
func Digest(xs ...interface{}) string {
	h := fnv.New128a()
	var b [8]byte
	num := func(v uint64) {
		for i := range b {
			b[i] = byte(v >> uint(8*i))
		}
		h.Write(b[:])
	}
	var walk func(v reflect.Value, depth int)
	walk = func(v reflect.Value, depth int) {
		if depth > 40 {
			panic("vh.Digest: too deep")
		}
		if v.IsValid() && v.CanInterface() {
			switch x := v.Interface().(type) {
			case *big.Int:
				if x != nil {
					h.Write([]byte(x.Text(16)))
				}
				num(1)
				return
			case *big.Float:
				if x != nil {
					h.Write([]byte(x.Text('p', 0)))
					num(uint64(x.Prec()))
				}
				num(2)
				return
			case []uint64:
				num(uint64(len(x)))
				for _, w := range x {
					num(w)
				}
				return
			}
		}
		switch v.Kind() {
		case reflect.Ptr, reflect.Interface:
			if v.IsNil() {
				num(3)
				return
			}
			num(4)
			walk(v.Elem(), depth+1)
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).PkgPath == "" {
					walk(v.Field(i), depth+1)
				}
			}
		case reflect.Slice, reflect.Array:
			num(uint64(v.Len()))
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), depth+1)
			}
		case reflect.Map:
			var keys []string
			m := map[string]reflect.Value{}
			for _, k := range v.MapKeys() {
				s := fmt.Sprint(k.Interface())
				keys = append(keys, s)
				m[s] = v.MapIndex(k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				h.Write([]byte(k))
				walk(m[k], depth+1)
			}
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			num(uint64(v.Int()))
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			num(v.Uint())
		case reflect.Bool:
			if v.Bool() {
				num(1)
			} else {
				num(0)
			}
		case reflect.Float32, reflect.Float64:
			num(math.Float64bits(v.Float()))
		case reflect.Complex64, reflect.Complex128:
			num(math.Float64bits(real(v.Complex())))
			num(math.Float64bits(imag(v.Complex())))
		case reflect.String:
			h.Write([]byte(v.String()))
		}
	}
	for _, x := range xs {
		walk(reflect.ValueOf(x), 0)
	}
	return fmt.Sprintf("%x", h.Sum(nil))
}

// Scribble overwrites the numbers reachable from x through exported fields.
func Scribble(r *Rand, xs ...interface{}) {
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		if v.IsValid() && v.CanInterface() {
			switch x := v.Interface().(type) {
			case *big.Int:
				if x != nil {
					b := x.Bits()
					for i := range b {
						b[i] = big.Word(r.Uint64())
					}
				}
				return
			case *big.Float:
				if x != nil {
					x.SetFloat64(r.Float(100))
				}
				return
			case []uint64:
				for i := range x {
					x[i] = r.Uint64() >> 3
				}
				return
			}
		}
		switch v.Kind() {
		case reflect.Ptr, reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).PkgPath == "" {
					walk(v.Field(i))
				}
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Map:
			for _, k := range v.MapKeys() {
				walk(v.MapIndex(k))
			}
		case reflect.Float32, reflect.Float64:
			if v.CanSet() {
				v.SetFloat(r.Float(100))
			}
		case reflect.Complex64, reflect.Complex128:
			if v.CanSet() {
				v.SetComplex(complex(r.Float(100), r.Float(100)))
			}
		}
	}
	for _, x := range xs {
		walk(reflect.ValueOf(x))
	}
}

// Rotated rotates the slices of numbers reachable from x through exported fields by one element, in place (residues stay
// residues), and returns the inverse.
func Rotated(xs ...interface{}) (restore func()) {
	var undo []func()
	seen := map[uintptr]bool{}
	seenPtr := map[uintptr]bool{}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() || seenPtr[v.Pointer()] {
				return
			}
			seenPtr[v.Pointer()] = true
			switch v.Interface().(type) {
			case *big.Int, *big.Float:
				return
			}
			walk(v.Elem())
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).PkgPath == "" {
					walk(v.Field(i))
				}
			}
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Map:
			for _, k := range v.MapKeys() {
				walk(v.MapIndex(k))
			}
		case reflect.Slice:
			if v.Len() == 0 {
				return
			}
			switch x := v.Interface().(type) {
			case []uint64:
				if p := v.Pointer(); !seen[p] {
					seen[p] = true
					o := append([]uint64{}, x...)
					copy(x, append(append([]uint64{}, o[1:]...), o[0]))
					undo = append(undo, func() { copy(x, o) })
				}
			case []complex128:
				if p := v.Pointer(); !seen[p] {
					seen[p] = true
					o := append([]complex128{}, x...)
					copy(x, append(append([]complex128{}, o[1:]...), o[0]/2))
					undo = append(undo, func() { copy(x, o) })
				}
			case []float64:
				if p := v.Pointer(); !seen[p] {
					seen[p] = true
					o := append([]float64{}, x...)
					copy(x, append(append([]float64{}, o[1:]...), o[0]/2))
					undo = append(undo, func() { copy(x, o) })
				}
			default:
				for i := 0; i < v.Len(); i++ {
					walk(v.Index(i))
				}
			}
		}
	}
	for _, x := range xs {
		walk(reflect.ValueOf(x))
	}
	return func() {
		for i := len(undo) - 1; i >= 0; i-- {
			undo[i]()
		}
	}
}

// Earlier runs f with other numbers in the same operands, as an earlier call: nothing of it may matter later.
func Earlier(f func(), xs ...interface{}) {
	defer Rotated(xs...)()
	Panics(f)
}

// History judges a sequence of operations of long-lived objects: none changes its inputs or an earlier result.
type History struct {
	C    *C
	R    *Rand
	kept []keptT
	last string
}

type keptT struct {
	what string
	v    interface{}
	d    string
}

// Op is one operation: In are the operands (none of them the output), Run performs it and returns its outputs; with fresh set it is
// performed by new objects and in new outputs.
type Op struct {
	Name string
	In   []interface{}
	Run  func(fresh bool) []interface{}
	Same bool // Fresh is comparable: the result is a function of the inputs
	Once bool // it overwrites an operand: only one run with fresh unset
}

// Kept are the results still in use.
func (h *History) Kept() (o []interface{}) {
	for _, k := range h.kept {
		o = append(o, k.v)
	}
	return
}

// Drop forgets a result, since it becomes an output.
func (h *History) Drop(v interface{}) {
	for i, k := range h.kept {
		if k.v == v {
			h.kept = append(append([]keptT{}, h.kept[:i]...), h.kept[i+1:]...)
			return
		}
	}
}

// Check compares the results kept with what they were.
func (h *History) Check(when string) {
	for _, k := range h.kept {
		if Digest(k.v) != k.d {
			h.C.Fatalf("%s: the result of an earlier %s changes", when, k.what)
		}
	}
}

// Do performs the operation.
func (h *History) Do(o Op) (out []interface{}) {
	c := h.C
	in := Digest(o.In...)
	run := func(fresh bool) (out []interface{}) {
		by := ""
		if fresh {
			by = " by a new object"
		}
		if s := Panics(func() { out = o.Run(fresh) }); s != "" {
			c.Fatalf("%s%s: %s", o.Name, by, s)
		}
		if Digest(o.In...) != in {
			c.Fatalf("%s%s changes an input", o.Name, by)
		}
		h.Check(o.Name + by)
		return
	}
	ref := ""
	if o.Same {
		x := run(true)
		ref = Digest(x...)
		Scribble(h.R, x...)
		if Digest(o.In...) != in {
			c.Fatalf("%s returns memory of an input", o.Name)
		}
	}
	if !o.Once && c.Chance(1, 4, "earlier") { // the same operands, with other contents
		Earlier(func() { o.Run(false) }, o.In...)
		if Digest(o.In...) != in {
			c.Fatalf("HARNESS-ERROR: operands of %s not restored", o.Name)
		}
		h.Check(o.Name)
	}
	out = run(false)
	if o.Same && Digest(out...) != ref {
		c.Fatalf("%s: differs from the result of a new object in a new output (after %s)", o.Name, h.last)
	}
	h.last = o.Name
	for _, x := range out {
		h.kept = append(h.kept, keptT{o.Name, x, Digest(x)})
	}
	// overwriting a result changes nothing else
	for len(h.kept) > 12 || len(h.kept) > 0 && c.Chance(1, 5, "scribble") {
		i := c.Uni(0, len(h.kept)-1, "scribbled")
		k := h.kept[i]
		h.kept = append(append([]keptT{}, h.kept[:i]...), h.kept[i+1:]...)
		Scribble(h.R, k.v)
		h.Check("overwriting the result of " + k.what)
		if among(k.v, o.In) {
			in = Digest(o.In...)
		} else if Digest(o.In...) != in {
			c.Fatalf("the result of %s shares memory with an input of %s", k.what, o.Name)
		}
	}
	c.Class("%s", o.Name)
	return
}

func among(x interface{}, in []interface{}) bool {
	for _, y := range in {
		a, b := reflect.ValueOf(x), reflect.ValueOf(y)
		if a.Kind() == reflect.Ptr && b.Kind() == reflect.Ptr && a.Pointer() == b.Pointer() {
			return true
		}
	}
	return false
}
