package c08

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"sort"
	"testing"

	"fast-ksw/ckks"
	"fast-ksw/fckks"
	"fast-ksw/frlwe"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"vharness/vh"
)

// prime is a Miller-Rabin test with the first twelve primes as bases: exact below 2^64.
func prime(n uint64) bool {
	if n < 2 {
		return false
	}
	bases := []uint64{2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}
	for _, p := range bases {
		if n%p == 0 {
			return n == p
		}
	}
	d, s := n-1, 0
	for d&1 == 0 {
		d >>= 1
		s++
	}
	for _, a := range bases {
		x := vh.PowMod(a, d, n)
		if x == 1 || x == n-1 {
			continue
		}
		comp := true
		for r := 1; r < s && comp; r++ {
			x = vh.MulMod(x, x, n)
			comp = x != n-1
		}
		if comp {
			return false
		}
	}
	return true
}

// odd composites that fool weak primality tests: strong pseudoprimes to small bases, Carmichael numbers,
// strong Lucas pseudoprimes
var liars = []uint64{2047, 1373653, 25326001, 3215031751, 2152302898747, 3474749660383, 341550071728321,
	3825123056546413051, 561, 1105, 1729, 2465, 2821, 6601, 8911, 10585, 15841, 29341, 5459, 5777, 10877, 16109, 18971,
	4759123141, 1122004669633, 3186658578340311511 / 1, 318665857834031151, 18446744065119617025, 18446743979220271189}

func TestIsPrime(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 20000, Thorough: 80000, Rule: "numbers of every size: random, primes of an NTT form, products of two close or NTT-friendly primes, pseudoprimes; non-trivial: odd and above 1000"}, func(c *vh.C) {
		var x uint64
		r := c.Rng("x")
		kind := c.Pick("kind", "small", "random", "ntt", "product", "square", "liar", "nearpow2")
		switch kind {
		case "small":
			x = uint64(r.IntN(2000))
		case "random":
			x = r.Uint64() >> uint(r.IntN(60))
		case "ntt":
			x = (r.Uint64()>>uint(3+r.IntN(40)))&^31 | 1
		case "product", "square":
			a := uint64(r.IntN(1<<31))&^31 | 1
			for !prime(a) {
				a += 32
			}
			b := a
			if kind == "product" {
				b += 32
				for !prime(b) {
					b += 32
				}
			}
			x = a * b
		case "liar":
			x = liars[r.IntN(len(liars))]
		default:
			x = uint64(1)<<uint(1+r.IntN(62)) + uint64(r.IntN(65)) - 32
		}
		c.Note("%s %d", kind, x)
		want := prime(x)
		c.Class("%s/%v", kind, want)
		c.NonTrivial(x&1 == 1 && x > 1000)
		if got := ring.IsPrime(x); got != want {
			c.Fatalf("IsPrime(%d) = %v, want %v", x, got, want)
		}
	})
}

func absdiff(a, b uint64) uint64 {
	if a > b {
		return a - b
	}
	return b - a
}

// nearest lists the distances to 2^logQ of the n nearest primes p = 1 mod nth, the one just above 2^logQ excepted
// (the generators start from there and may or may not count it).
func nearest(logQ int, nth uint64, n int, down bool) (dist []uint64, enough bool) {
	base := uint64(1)<<uint(logQ) + 1
	for k := uint64(1); len(dist) < n; k++ {
		d := k * nth
		up := !down && base+d > base
		dn := d < base
		if !up && !dn {
			return dist, false
		}
		if up && prime(base+d) {
			dist = append(dist, d)
		}
		if dn && prime(base-d) && len(dist) < n {
			dist = append(dist, d)
		}
	}
	return dist, true
}

func TestGenerate(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 900, Thorough: 4000, Rule: "size 6..61 bits, root order 2^5..2^19 not above the size, 1..20 primes, all three generators; non-trivial: at least two primes"}, func(c *vh.C) {
		logQ := c.Uni(6, 61, "logQ")
		hi := 19
		if logQ < hi {
			hi = logQ
		}
		logNth := c.Uni(5, hi, "logNth")
		nth := uint64(1) << uint(logNth)
		n := c.Uni(1, 20, "n")
		if c.Chance(1, 20, "toobig") {
			big := c.Uni(62, 64, "toobig.logQ")
			if vh.Panics(func() { ring.GenerateNTTPrimes(big, int(nth), n) }) == "" {
				c.Fatalf("primes of %d bits were generated, at most 61 are supported", big)
			}
			return
		}
		which := c.Pick("which", "all", "Q", "P")
		if which == "Q" && logQ == 61 {
			logQ = 60
		}
		down := which == "P" || logQ == 61
		c.Note("%s logQ=%d nth=2^%d n=%d", which, logQ, logNth, n)
		want, enough := nearest(logQ, nth, n, down)
		var got []uint64
		p := vh.Panics(func() {
			switch which {
			case "all":
				got = ring.GenerateNTTPrimes(logQ, int(nth), n)
			case "Q":
				got = ring.GenerateNTTPrimesQ(logQ, int(nth), n)
			default:
				got = ring.GenerateNTTPrimesP(logQ, int(nth), n)
			}
		})
		c.Class("%s/down=%v/enough=%v", which, down, enough)
		if !enough {
			if p == "" {
				c.Fatalf("returned %d primes, only %d exist", len(got), len(want))
			}
			return
		}
		if p != "" {
			c.Fatalf("panic %s, but %d primes exist", p, n)
		}
		c.NonTrivial(n > 1)
		if len(got) != n {
			c.Fatalf("%d primes returned, %d requested", len(got), n)
		}
		seen := map[uint64]bool{}
		var dist []uint64
		base := uint64(1)<<uint(logQ) + 1
		for _, q := range got {
			if !prime(q) || q%nth != 1 {
				c.Fatalf("%d is not a prime = 1 mod %d", q, nth)
			}
			if seen[q] {
				c.Fatalf("%d returned twice", q)
			}
			seen[q] = true
			if down && q >= base-1 {
				c.Fatalf("%d is not below 2^%d", q, logQ)
			}
			if q != base {
				dist = append(dist, absdiff(q, base))
			}
		}
		sort.Slice(dist, func(i, j int) bool { return dist[i] < dist[j] })
		for i := range dist {
			if dist[i] != want[i] {
				c.Fatalf("primes %v are not the nearest to 2^%d: distance #%d is %d, want %d", got, logQ, i, dist[i], want[i])
			}
		}
	})
}

func TestNextPrevious(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 3000, Thorough: 12000, Rule: "root order 2^5..2^18, a prime = 1 mod the order of any size up to 61 bits, among them the smallest and the largest ones; non-trivial: a neighbour exists"}, func(c *vh.C) {
		logNth := c.Uni(5, 18, "logNth")
		nth := uint64(1) << uint(logNth)
		kind := c.Pick("kind", "mid", "low", "high")
		r := c.Rng("q")
		var q uint64
		switch kind {
		case "mid":
			q = (r.Uint64()>>uint(4+r.IntN(56-logNth)))&^(nth-1) | 1
			for !prime(q) {
				q += nth
			}
		case "low":
			q = 1
			for k := r.IntN(4); k >= 0; k-- {
				for q += nth; !prime(q); q += nth {
				}
			}
		default:
			q = 1<<61 + 1
			for k := r.IntN(4); k >= 0; k-- {
				for q -= nth; !prime(q); q -= nth {
				}
			}
		}
		if q >= 1<<61 {
			c.Skip("too large")
		}
		c.Note("%s q=%d nth=2^%d", kind, q, logNth)
		c.Class("%s", kind)
		wantN, wantP := q+nth, q
		for bits.Len64(wantN) <= 61 && !prime(wantN) {
			wantN += nth
		}
		okN := bits.Len64(wantN) <= 61
		okP := false
		for wantP > nth {
			wantP -= nth
			if prime(wantP) {
				okP = true
				break
			}
		}
		c.NonTrivial(okN || okP)
		var gotN, gotP uint64
		var errN, errP error
		if p := vh.Panics(func() {
			gotN, errN = ring.NextNTTPrime(q, int(nth))
			gotP, errP = ring.PreviousNTTPrime(q, int(nth))
		}); p != "" {
			c.Fatalf("panic: %s", p)
		}
		if okN != (errN == nil) || okN && gotN != wantN {
			c.Fatalf("NextNTTPrime(%d, %d) = %d, %v; want %d (exists within 61 bits: %v)", q, nth, gotN, errN, wantN, okN)
		}
		if okP != (errP == nil) || okP && gotP != wantP {
			c.Fatalf("PreviousNTTPrime(%d, %d) = %d, %v; want %d (exists: %v)", q, nth, gotP, errP, wantP, okP)
		}
	})
}

// chain is a candidate moduli list with at most one planted fault
func chain(c *vh.C, label string, nth uint64, max int, allowEmpty, limit bool, avoid map[uint64]bool) []uint64 {
	lo := 1
	if allowEmpty {
		lo = 0
	}
	n := c.Uni(lo, max, label+".n")
	q := make([]uint64, 0, n)
	loBits := bits.Len64(nth) + 5
	if loBits < 24 {
		loBits = 24
	}
	for _, x := range c.Moduli(n+3, nth, loBits, 60, label) {
		if !avoid[x] && len(q) < n {
			q = append(q, x)
		}
	}
	if len(q) == 0 || !c.Chance(1, 5, label+".fault") {
		return q
	}
	i := c.Uni(0, len(q)-1, label+".at")
	fault := c.Pick(label+".kind", "dup", "even", "composite", "halfroot", "noroot", "bits61", "bits62", "bits63", "zero", "one")
	c.Note("%s fault %s at %d", label, fault, i)
	r := c.Rng(label + ".r")
	switch fault {
	case "dup":
		if len(q) > 1 {
			q[i] = q[(i+1)%len(q)]
		}
	case "even":
		q[i]++
	case "composite":
		for q[i] += nth; prime(q[i]); q[i] += nth {
		}
	case "halfroot": // prime, 1 modulo half the root order only
		x := (r.Uint64()>>uint(5+r.IntN(25)))&^(nth-1) | 1
		for x += nth / 2; !prime(x) || avoid[x]; x += nth {
		}
		q[i] = x
	case "noroot":
		x := r.Uint64()>>uint(5+r.IntN(25)) | 1
		for x%nth == 1 || !prime(x) || avoid[x] {
			x += 2
		}
		q[i] = x
	case "bits61", "bits62", "bits63":
		b := map[string]uint{"bits61": 60, "bits62": 61, "bits63": 62}[fault]
		x := (uint64(1)<<b|r.Uint64()>>(64-b))&^(nth-1) | 1
		if x>>b == 0 {
			x += nth
		}
		if r.IntN(3) == 0 {
			x = uint64(1)<<b + 1 // the smallest ones of that size
		}
		for !prime(x) || avoid[x] {
			x += nth
		}
		q[i] = x
	case "zero":
		q[i] = 0
	case "one":
		q[i] = 1
	}
	return q
}

func chainOK(q []uint64, nth uint64, limit bool) string {
	seen := map[uint64]bool{}
	for _, x := range q {
		switch {
		case limit && bits.Len64(x) > 61:
			return "too large"
		case !prime(x):
			return "not prime"
		case x%nth != 1:
			return "not 1 mod the root order"
		case seen[x]:
			return "duplicate"
		}
		seen[x] = true
	}
	return ""
}

func nthRoot(n int, t ring.Type) uint64 {
	if t == ring.ConjugateInvariant {
		return uint64(4 * n)
	}
	return uint64(2 * n)
}

func eq(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// ringIs reports how r differs from the ring of the given definition, and multiplies two polynomials in it.
func ringIs(c *vh.C, r *ring.Ring, n int, q []uint64, typ ring.Type) string {
	if r == nil {
		return "no ring"
	}
	if r.N != n || !eq(r.Modulus, q) || r.NthRoot != nthRoot(n, typ) || r.Type() != typ || !r.AllowsNTT {
		return fmt.Sprintf("N=%d NthRoot=%d type=%v NTT=%v moduli=%v", r.N, r.NthRoot, r.Type(), r.AllowsNTT, r.Modulus)
	}
	if r.ModulusBigint.Cmp(vh.Prod(q)) != 0 {
		return "wrong modulus product"
	}
	for i, x := range q {
		if r.Mask[i] != 1<<uint(bits.Len64(x))-1 {
			return fmt.Sprintf("mask %x of %x", r.Mask[i], x)
		}
	}
	if n > 256 {
		return ""
	}
	g := c.Rng("use")
	a, b, p := r.NewPoly(), r.NewPoly(), r.NewPoly()
	vh.Fill(g, a, q, "uniform")
	vh.Fill(g, b, q, "uniform")
	na, nb := r.NewPoly(), r.NewPoly()
	r.NTT(a, na)
	r.NTT(b, nb)
	r.MForm(nb, nb)
	r.MulCoeffsMontgomery(na, nb, p)
	r.InvNTT(p, p)
	i := g.IntN(len(q))
	want := vh.RingMul(a.Coeffs[i], b.Coeffs[i], q[i], typ)
	if k := vh.CongVec(p.Coeffs[i], want, q[i]); k >= 0 {
		return fmt.Sprintf("product wrong modulo %d", q[i])
	}
	return ""
}

func TestNewRing(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 2500, Thorough: 8000, Rule: "degrees (powers of two up to 2^12, and invalid ones), 0..5 moduli with at most one fault, ring types; non-trivial: the ring is valid, or the only fault is in the moduli"}, func(c *vh.C) {
		n := 1 << uint(c.Uni(4, 9, "logN"))
		if c.Chance(1, 12, "big") {
			n = 1 << uint(c.Uni(10, 12, "logNbig"))
		}
		badN := c.Chance(1, 8, "badN")
		typ := ring.Type(c.Uni(0, 1, "type"))
		q := chain(c, "q", nthRoot(n, typ), 5, true, false, nil)
		if badN {
			n = []int{0, 1, 2, 4, 8, 17, 24, 48, 96, 100, -16, n - 1, n + 16, n * 3}[c.Uni(0, 13, "n")]
		}
		badType := c.Chance(1, 20, "badType")
		if badType {
			typ = ring.Type([]int{2, -1, 7}[c.Uni(0, 2, "typ")])
		}
		for _, x := range q {
			if bits.Len64(x) > 61 { // the ring constructor documents no size limit; parameters do
				c.Skip("oversized modulus")
			}
		}
		why := ""
		switch {
		case badType:
			why = "type"
		case n < 16 || n&(n-1) != 0:
			why = "degree"
		case len(q) == 0:
			why = "no moduli"
		default:
			why = chainOK(q, nthRoot(n, typ), false)
		}
		c.Note("N=%d type=%d moduli=%v: %s", n, typ, q, why)
		c.Class("%s", why)
		c.NonTrivial(why != "degree" && why != "type")
		var r *ring.Ring
		var err error
		entry := c.Pick("entry", "type", "own", "custom")
		if badType {
			entry = "type"
		}
		if p := vh.Panics(func() {
			switch {
			case entry == "type":
				r, err = ring.NewRingFromType(n, q, typ)
			case entry == "custom" && typ == ring.Standard:
				r, err = ring.NewRingWithCustomNTT(n, q, ring.NumberTheoreticTransformerStandard{}, 2*n)
			case entry == "custom":
				r, err = ring.NewRingWithCustomNTT(n, q, ring.NumberTheoreticTransformerConjugateInvariant{}, 4*n)
			case typ == ring.Standard:
				r, err = ring.NewRing(n, q)
			default:
				r, err = ring.NewRingConjugateInvariant(n, q)
			}
		}); p != "" {
			c.Fatalf("panic: %s", p)
		}
		if why != "" {
			if err == nil || r != nil && r.AllowsNTT {
				c.Fatalf("accepted (err=%v) although %s", err, why)
			}
			return
		}
		if err != nil {
			c.Fatalf("valid ring refused: %v", err)
		}
		if d := ringIs(c, r, n, q, typ); d != "" {
			c.Fatalf("ring: %s", d)
		}
	})
}

type lit struct {
	logN       int
	q, p       []uint64
	logQ, logP []int
	h          int
	sigma      float64
	typ        ring.Type
	why        string // why it is invalid, or ""
}

func nilOr(c *vh.C, label string, x []uint64) []uint64 {
	if len(x) == 0 && c.Bool(label) {
		return nil
	}
	return x
}

// literal draws a literal that is valid or has one fault.
func literal(c *vh.C, forceStandard bool, maxLogN int) lit {
	l := lit{logN: c.Uni(4, 7, "logN"), typ: ring.Type(c.Uni(0, 1, "type"))}
	if c.Chance(1, 15, "large") {
		l.logN = c.Uni(8, maxLogN, "logNlarge")
	}
	if forceStandard {
		l.typ = ring.Standard
	}
	l.h = c.PickInt("h", 0, 0, 1, 5, 1<<uint(l.logN-1), 1<<uint(l.logN))
	l.sigma = []float64{0, 0, 3.2, 1, 0.5, 12.25}[c.Uni(0, 5, "sigma")]
	nth := nthRoot(1<<uint(l.logN), l.typ)
	max := 6
	if l.logN > 10 {
		max = 2
	}
	fault := c.Pick("fault", "", "", "", "", "", "logN", "empty", "type", "mix", "count", "sizes")
	sized := c.Chance(2, 5, "sized")
	if fault == "sizes" {
		sized = true
	}
	lo := bits.Len64(nth) + 6
	sizes := func(label string, n, hi int) []int {
		s := make([]int, n)
		b := c.Uni(lo, hi, label)
		for i := range s {
			s[i] = b
			if c.Chance(1, 3, label+"i") {
				s[i] = c.Uni(lo, hi, label+"b")
			}
		}
		return s
	}
	if sized {
		l.logQ = sizes("logQ", c.Uni(1, max, "nQ"), 60)
		l.logP = sizes("logP", c.Uni(0, max, "nP"), 61)
	} else {
		l.q = chain(c, "Q", nth, max, false, true, nil)
		av := map[uint64]bool{}
		for _, x := range l.q {
			av[x] = true
		}
		l.p = chain(c, "P", nth, max, true, true, av)
	}
	switch fault {
	case "logN":
		l.logN = []int{-1, 0, 1, 2, 3, 18, 19, 63, 64, 65, 100, -100, math.MinInt64, math.MaxInt64}[c.Uni(0, 13, "bad")]
		l.why = "degree"
		if c.Bool("allzero") {
			l.h = 0
		}
	case "empty":
		l.q, l.logQ = l.q[:0], l.logQ[:0]
		l.why = "no moduli"
	case "type":
		l.typ = ring.Type([]int{2, 3, -1, 1 << 40}[c.Uni(0, 3, "bad")])
		l.why = "type"
	case "mix":
		l.why = "both or neither of moduli and sizes"
		switch c.Uni(0, 3, "mix") {
		case 0:
			if sized {
				l.q = vh.Primes(40, nth, 2, true)
			} else {
				l.logQ = []int{40}
			}
		case 1:
			if sized {
				l.p = vh.Primes(40, nth, 2, true)
			} else {
				l.logP = []int{40}
			}
		case 2:
			l.q, l.p, l.logQ, l.logP = nil, nil, nil, nil
		default:
			if sized {
				l.logQ, l.q = nil, vh.Primes(40, nth, 2, true)
			} else {
				l.p, l.logP = nil, []int{40}
			}
		}
		return l
	case "count":
		if l.logN > 7 {
			break
		}
		n := c.PickInt("count", 99, 100, 101, 128, 255, 256, 257, 300)
		if n == 100 || n == 99 {
			l.logN = 4
		}
		side := c.Bool("side")
		if sized {
			s := make([]int, n)
			for i := range s {
				s[i] = 45
			}
			if side {
				l.logQ = s
			} else {
				l.logP = s
			}
		} else {
			nth = nthRoot(1<<uint(l.logN), l.typ)
			s := vh.Primes(45, nthRoot(128, ring.ConjugateInvariant), n, true)
			if side {
				l.q, l.p = s, l.p[:0]
			} else {
				l.q, l.p = l.q[:1], s
			}
		}
		if n > 100 {
			l.why = "too many moduli"
			return l
		}
	case "sizes":
		bad := c.PickInt("badsize", 0, -1, -60, 61, 62, 63, 64, 100, 1000)
		if len(l.logP) == 0 || c.Bool("side") {
			l.logQ[c.Uni(0, len(l.logQ)-1, "at")] = bad
			l.why = "size out of range"
		} else {
			l.logP[c.Uni(0, len(l.logP)-1, "at")] = bad
			if bad != 61 {
				l.why = "size out of range"
			}
		}
	}
	if l.why == "" && !sized {
		av := map[uint64]bool{}
		for _, x := range l.q {
			av[x] = true
		}
		for _, x := range l.p {
			if av[x] {
				c.Skip("modulus shared by both chains")
			}
		}
		if l.why = chainOK(l.q, nth, true); l.why == "" {
			l.why = chainOK(l.p, nth, true)
		}
	}
	return l
}

func (l lit) note(c *vh.C) {
	c.Note("logN=%d type=%d H=%d sigma=%v Q=%v P=%v logQ=%v logP=%v: %s", l.logN, l.typ, l.h, l.sigma, l.q, l.p, l.logQ, l.logP, l.why)
	c.Class("sized=%v/%s", l.logQ != nil, l.why)
}

// sizesMatch checks a generated chain against the requested sizes: per size, the nearest primes.
func sizesMatch(q, p []uint64, logQ, logP []int, nth uint64) string {
	if len(q) != len(logQ) || len(p) != len(logP) {
		return "wrong number of moduli"
	}
	group := map[int][]uint64{}
	seen := map[uint64]bool{}
	add := func(x uint64, s int) string {
		if seen[x] {
			return fmt.Sprintf("%d appears twice", x)
		}
		seen[x] = true
		group[s] = append(group[s], x)
		return ""
	}
	for i, x := range q {
		if e := add(x, logQ[i]); e != "" {
			return e
		}
	}
	for i, x := range p {
		if e := add(x, logP[i]); e != "" {
			return e
		}
	}
	for s, g := range group {
		want, _ := nearest(s, nth, len(g), s == 61)
		var d []uint64
		for _, x := range g {
			if !prime(x) || x%nth != 1 || bits.Len64(x) > 61 {
				return fmt.Sprintf("%d is not usable", x)
			}
			if y := absdiff(x, 1<<uint(s)+1); y != 0 {
				d = append(d, y)
			}
		}
		sort.Slice(d, func(i, j int) bool { return d[i] < d[j] })
		for i := range d {
			if d[i] != want[i] {
				return fmt.Sprintf("moduli of %d bits are not the nearest ones: %v", s, g)
			}
		}
	}
	return ""
}

func floorMargin(q []uint64) int {
	m := uint64(0)
	for _, x := range q {
		if x > m {
			m = x
		}
	}
	z := new(big.Int).Lsh(big.NewInt(1), 64)
	return int(z.Div(z, new(big.Int).SetUint64(m)).Int64())
}

// checkRLWE compares every derived quantity with its definition.
func checkRLWE(c *vh.C, p rlwe.Parameters, l lit, q, pp []uint64) string {
	n := 1 << uint(l.logN)
	h, sigma := l.h, l.sigma
	if h == 0 {
		h = n / 2
	}
	if sigma == 0 {
		sigma = 3.2
	}
	if p.N() != n || p.LogN() != l.logN || p.HammingWeight() != h || p.Sigma() != sigma || p.RingType() != l.typ {
		return fmt.Sprintf("N=%d logN=%d h=%d sigma=%v type=%v", p.N(), p.LogN(), p.HammingWeight(), p.Sigma(), p.RingType())
	}
	if !eq(p.Q(), q) || !eq(p.P(), pp) || !eq(p.QP(), append(append([]uint64{}, q...), pp...)) {
		return fmt.Sprintf("Q=%v P=%v QP=%v", p.Q(), p.P(), p.QP())
	}
	if p.QCount() != len(q) || p.PCount() != len(pp) || p.QPCount() != len(q)+len(pp) || p.MaxLevel() != len(q)-1 || p.Alpha() != len(pp) {
		return "wrong counts"
	}
	bq, bp := vh.Prod(q), vh.Prod(pp)
	bqp := new(big.Int).Mul(bq, bp)
	if p.QBigInt().Cmp(bq) != 0 || p.PBigInt().Cmp(bp) != 0 || p.QPBigInt().Cmp(bqp) != 0 {
		return "wrong products"
	}
	if p.LogQ() != bq.BitLen() || p.LogP() != bp.BitLen() || p.LogQP() != bqp.BitLen() {
		return "wrong bit sizes"
	}
	beta := 1
	if len(pp) > 0 {
		beta = (len(q) + len(pp) - 1) / len(pp)
	}
	if p.Beta() != beta {
		return fmt.Sprintf("Beta %d, want %d", p.Beta(), beta)
	}
	for i := range q {
		if p.QiFloat64(i) != float64(q[i]) {
			return "wrong QiFloat64"
		}
		if got, want := p.QiOverflowMargin(i), floorMargin(q[:i+1]); got != want {
			return fmt.Sprintf("QiOverflowMargin(%d) = %d, want %d", i, got, want)
		}
	}
	for i := range pp {
		if got, want := p.PiOverflowMargin(i), floorMargin(pp[:i+1]); got != want {
			return fmt.Sprintf("PiOverflowMargin(%d) = %d, want %d", i, got, want)
		}
	}
	if s := ringIs(c, p.RingQ(), n, q, l.typ); s != "" {
		return "RingQ: " + s
	}
	if len(pp) > 0 {
		if s := ringIs(c, p.RingP(), n, pp, l.typ); s != "" {
			return "RingP: " + s
		}
	} else if p.RingP() != nil {
		return "RingP without moduli"
	}
	if qp := p.RingQP(); qp.RingQ != p.RingQ() || qp.RingP != p.RingP() {
		return "RingQP is not made of RingQ and RingP"
	}
	// what is handed out is a copy
	p.Q()[0] = 3
	if len(pp) > 0 {
		p.P()[0] = 3
	}
	p.QP()[0] = 3
	if !eq(p.Q(), q) || !eq(p.P(), pp) {
		return "Q or P aliases the parameters"
	}
	return ""
}

func TestRLWE(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 2500, Thorough: 8000, Rule: "literals over degree, explicit moduli or sizes, H, sigma, ring type, valid or with one fault; non-trivial: valid with at least two moduli in Q or one in P, or invalid"}, func(c *vh.C) {
		l := literal(c, false, 13)
		l.note(c)
		var p rlwe.Parameters
		var err error
		pl := rlwe.ParametersLiteral{LogN: l.logN, Q: l.q, P: l.p, LogQ: l.logQ, LogP: l.logP, H: l.h, Sigma: l.sigma, RingType: l.typ}
		direct := l.logQ == nil && l.logP == nil && l.q != nil && l.p != nil && c.Bool("direct")
		if pan := vh.Panics(func() {
			if direct {
				p, err = rlwe.NewParameters(l.logN, l.q, l.p, l.h, l.sigma, l.typ)
			} else {
				p, err = rlwe.NewParametersFromLiteral(pl)
			}
		}); pan != "" {
			c.Fatalf("panic: %s", pan)
		}
		if l.why != "" {
			c.NonTrivial(true)
			if err == nil {
				c.Fatalf("accepted although invalid: %s", l.why)
			}
			if p.LogN() != 0 || p.RingQ() != nil || p.RingP() != nil || p.QCount() != 0 || p.PCount() != 0 || p.Sigma() != 0 || p.HammingWeight() != 0 {
				c.Fatalf("refused (%v), but the parameters returned are not empty", err)
			}
			return
		}
		if err != nil {
			c.Fatalf("valid literal refused: %v", err)
		}
		q, pp := l.q, l.p
		if l.logQ != nil {
			q, pp = p.Q(), p.P()
			nth := nthRoot(1<<uint(l.logN), l.typ)
			if s := sizesMatch(q, pp, l.logQ, l.logP, nth); s != "" {
				c.Fatalf("%s", s)
			}
			g1, g2, gerr := rlwe.GenModuli(bits.Len64(nth)-2, l.logQ, l.logP)
			if gerr != nil || !eq(g1, q) || !eq(g2, pp) {
				c.Fatalf("GenModuli gives %v %v (%v), the parameters %v %v", g1, g2, gerr, q, pp)
			}
		}
		c.NonTrivial(len(q) > 1 || len(pp) > 0)
		if rlwe.CheckModuli(q, pp) != nil {
			c.Fatalf("CheckModuli refuses the accepted moduli: %v", rlwe.CheckModuli(q, pp))
		}
		ll := l
		if direct && l.h == 0 || direct && l.sigma == 0 { // the direct constructor takes them as they are
			if p.HammingWeight() != l.h || p.Sigma() != l.sigma {
				c.Fatalf("NewParameters changed H or sigma: %d %v", p.HammingWeight(), p.Sigma())
			}
			if ll.h == 0 || ll.sigma == 0 {
				ll.h, ll.sigma = 4, 3.2
				if p, err = rlwe.NewParameters(l.logN, q, pp, 4, 3.2, l.typ); err != nil {
					c.Fatalf("%v", err)
				}
			}
		}
		if s := checkRLWE(c, p, ll, q, pp); s != "" {
			c.Fatalf("%s", s)
		}
		if len(q) > 0 && l.q != nil { // the parameters do not keep the caller's slices
			k := q[0]
			q[0] = 3
			if p.Q()[0] != k {
				c.Fatalf("the parameters alias the literal's moduli")
			}
			q[0] = k
		}
		st, err := p.StandardParameters()
		if err != nil {
			c.Fatalf("StandardParameters: %v", err)
		}
		sl := ll
		if sl.h == 0 {
			sl.h = 1 << uint(l.logN-1)
		}
		if l.typ == ring.ConjugateInvariant {
			sl.logN++
			sl.typ = ring.Standard
		}
		if s := checkRLWE(c, st, sl, q, pp); s != "" {
			c.Fatalf("StandardParameters: %s", s)
		}
		cp := p.CopyNew()
		if s := checkRLWE(c, cp, ll, q, pp); s != "" {
			c.Fatalf("CopyNew: %s", s)
		}
		if cp.RingQ() == p.RingQ() || cp.RingP() != nil && cp.RingP() == p.RingP() {
			c.Fatalf("CopyNew shares the rings")
		}
		if s := checkRLWE(c, p, ll, q, pp); s != "" {
			c.Fatalf("after StandardParameters and CopyNew: %s", s)
		}
	})
}

func TestCKKS(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 1500, Thorough: 5000, Rule: "literals as for rlwe plus slot count (valid and not) and scale; non-trivial: valid with a slot count below the maximum, or refused for the slot count"}, func(c *vh.C) {
		l := literal(c, false, 12)
		scale := math.Exp2(float64(c.Uni(5, 60, "scale"))) * (1 + c.Rng("s").Float64())
		max := l.logN - 1
		if l.typ == ring.ConjugateInvariant {
			max = l.logN
		}
		ls := 0
		if l.logN >= 4 && l.logN <= 17 {
			ls = c.Uni(0, max, "logSlots")
			if c.Chance(1, 6, "badslots") {
				ls = []int{max + 1, max + 2, l.logN + 5, -1, -7, 1 << 40, 64}[c.Uni(0, 6, "bad")]
			}
		}
		l.note(c)
		c.Note("logSlots=%d scale=%v", ls, scale)
		var p ckks.Parameters
		var err error
		if pan := vh.Panics(func() {
			p, err = ckks.NewParametersFromLiteral(ckks.ParametersLiteral{LogN: l.logN, Q: l.q, P: l.p, LogQ: l.logQ, LogP: l.logP, H: l.h, Sigma: l.sigma, RingType: l.typ, LogSlots: ls, DefaultScale: scale})
		}); pan != "" {
			c.Fatalf("panic: %s", pan)
		}
		slotsBad := ls > max || ls < 0
		if l.why != "" || slotsBad {
			c.NonTrivial(l.why == "")
			if err == nil {
				c.Fatalf("accepted although invalid: %s logSlots=%d", l.why, ls)
			}
			if p.LogN() != 0 || p.RingQ() != nil || p.DefaultScale() != 0 || p.LogSlots() != 0 {
				c.Fatalf("refused (%v), but the parameters returned are not empty", err)
			}
			if l.why != "" {
				return
			}
			// and through the other constructor
			rp, e2 := rlwe.NewParametersFromLiteral(rlwe.ParametersLiteral{LogN: l.logN, Q: l.q, P: l.p, LogQ: l.logQ, LogP: l.logP, H: l.h, Sigma: l.sigma, RingType: l.typ})
			if e2 != nil {
				c.Fatalf("%v", e2)
			}
			if p, err = ckks.NewParameters(rp, ls, scale); err == nil || p.LogN() != 0 {
				c.Fatalf("NewParameters accepts %d slots (log)", ls)
			}
			return
		}
		if err != nil {
			c.Fatalf("valid literal refused: %v", err)
		}
		want := ls
		if ls == 0 {
			want = max
		}
		direct := c.Bool("direct")
		if direct {
			want = ls
			rp := p.Parameters
			if p, err = ckks.NewParameters(rp, ls, scale); err != nil {
				c.Fatalf("NewParameters: %v", err)
			}
		}
		c.NonTrivial(want < max)
		q, pp := l.q, l.p
		if l.logQ != nil {
			q, pp = p.Q(), p.P()
		}
		if s := checkRLWE(c, p.Parameters, l, q, pp); s != "" {
			c.Fatalf("%s", s)
		}
		chk := func(p ckks.Parameters, mx int, what string) {
			if p.LogSlots() != want || p.Slots() != 1<<uint(want) || p.MaxLogSlots() != mx || p.MaxSlots() != 1<<uint(mx) || p.DefaultScale() != scale || p.MaxLevel() != len(q)-1 {
				c.Fatalf("%s: logSlots=%d slots=%d maxLogSlots=%d maxSlots=%d scale=%v maxLevel=%d", what, p.LogSlots(), p.Slots(), p.MaxLogSlots(), p.MaxSlots(), p.DefaultScale(), p.MaxLevel())
			}
			for i := range q {
				b := vh.Prod(q[:i+1])
				if p.QLvl(i).Cmp(b) != 0 || p.LogQLvl(i) != b.BitLen() {
					c.Fatalf("%s: QLvl(%d) = %v (%d bits)", what, i, p.QLvl(i), p.LogQLvl(i))
				}
			}
		}
		chk(p, max, "parameters")
		st, err := p.StandardParameters()
		if err != nil {
			c.Fatalf("StandardParameters: %v", err)
		}
		sl := l
		if sl.h == 0 {
			sl.h = 1 << uint(l.logN-1)
		}
		if l.typ == ring.ConjugateInvariant {
			sl.logN++
			sl.typ = ring.Standard
		}
		if s := checkRLWE(c, st.Parameters, sl, q, pp); s != "" {
			c.Fatalf("StandardParameters: %s", s)
		}
		chk(st, max, "StandardParameters") // CI of degree N has N slots, as has the standard ring of degree 2N
		cp := p.CopyNew()
		if s := checkRLWE(c, cp.Parameters, l, q, pp); s != "" {
			c.Fatalf("CopyNew: %s", s)
		}
		chk(cp, max, "CopyNew")
		if p2, e := ckks.NewParameters(rlwe.Parameters{}, 3, scale); e == nil || p2.LogN() != 0 {
			c.Fatalf("empty rlwe parameters accepted")
		}
		batch, n := c.Uni(1, 5, "batch"), c.Uni(1, 9, "n")
		for name, got := range map[string][]int{"InnerSum": p.RotationsForInnerSum(batch, n), "Replicate": p.RotationsForReplicate(batch, n)} {
			sg := batch
			if name == "Replicate" {
				sg = -batch
			}
			if len(got) != n-1 {
				c.Fatalf("RotationsFor%s(%d,%d) = %v", name, batch, n, got)
			}
			for i, g := range got {
				if g != sg*(i+1) {
					c.Fatalf("RotationsFor%s(%d,%d) = %v", name, batch, n, got)
				}
			}
		}
		// logarithmic versions: the powers of two below n and the suffixes of n, distinct
		for name, got := range map[string][]int{"InnerSumLog": p.RotationsForInnerSumLog(batch, n), "ReplicateLog": p.RotationsForReplicateLog(batch, n)} {
			sg := batch
			if name == "ReplicateLog" {
				sg = -batch
			}
			set := map[int]bool{}
			for _, g := range got {
				if set[g] {
					c.Fatalf("RotationsFor%s(%d,%d) = %v: repeated", name, batch, n, got)
				}
				set[g] = true
			}
			for i := 1; i < n; i <<= 1 {
				if !set[i*sg] {
					c.Fatalf("RotationsFor%s(%d,%d) = %v: missing %d", name, batch, n, got, i*sg)
				}
			}
			// double-and-add over n: acc covers [0,k) for the processed low bits; its parts are put together
			// by rotations by the multiple of 2^(i+1) just below n
			for i := 1; i < n; i <<= 1 {
				if k := n &^ (2*i - 1); n&i != 0 && k != 0 && !set[k*sg] {
					c.Fatalf("RotationsFor%s(%d,%d) = %v: missing %d", name, batch, n, got, k*sg)
				}
			}
		}
		a, b := c.Uni(0, max, "trA"), c.Uni(0, max, "trB")
		tr := p.RotationsForTrace(a, b)
		wantLen := b - a
		if wantLen < 0 {
			wantLen = 0
		}
		if len(tr) != wantLen {
			c.Fatalf("RotationsForTrace(%d,%d) = %v", a, b, tr)
		}
		for i, x := range tr {
			if x != 1<<uint(a+i) {
				c.Fatalf("RotationsForTrace(%d,%d) = %v", a, b, tr)
			}
		}
	})
}

// TestFast builds frlwe and fckks parameters; these constructors refuse by panicking.
func TestFast(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 1200, Thorough: 4000, Rule: "literals as for rlwe over the standard ring plus auxiliary moduli T with at most one fault; non-trivial: valid, or invalid only in T"}, func(c *vh.C) {
		l := literal(c, true, 10)
		if l.typ != ring.Standard || len(l.q)+len(l.logQ)+len(l.p)+len(l.logP) > 60 {
			c.Skip("no such frlwe literal")
		}
		var tm []uint64
		twhy := ""
		if l.logN >= 4 && l.logN <= 17 {
			nth := nthRoot(1<<uint(l.logN), ring.Standard)
			tm = chain(c, "T", nth, 4, true, false, nil)
			for _, x := range tm {
				if bits.Len64(x) > 61 {
					c.Skip("oversized auxiliary modulus")
				}
			}
			if twhy = chainOK(tm, nth, false); len(tm) == 0 {
				twhy = "no auxiliary moduli"
			}
		}
		gamma := c.Uni(1, 4, "gamma")
		l.note(c)
		c.Note("T=%v gamma=%d: %s", tm, gamma, twhy)
		valid := l.why == "" && twhy == ""
		c.NonTrivial(l.why == "")
		scale := math.Exp2(float64(c.Uni(10, 45, "scale")))
		var fp frlwe.Parameters
		var cp fckks.Parameters
		p1 := vh.Panics(func() {
			fp = frlwe.NewParametersFromLiteral(frlwe.ParametersLiteral{LogN: l.logN, Q: l.q, P: l.p, T: tm, LogQ: l.logQ, LogP: l.logP, Sigma: l.sigma, H: l.h, Gamma: gamma})
		})
		p2 := vh.Panics(func() {
			cp = fckks.NewParametersFromLiteral(fckks.ParametersLiteral{LogN: l.logN, Q: l.q, P: l.p, T: tm, LogQ: l.logQ, LogP: l.logP, Sigma: l.sigma, H: l.h, Gamma: gamma, DefaultScale: scale})
		})
		if !valid {
			if p1 == "" || p2 == "" {
				c.Fatalf("accepted although invalid: %s %s (frlwe refuses: %v, fckks refuses: %v)", l.why, twhy, p1 != "", p2 != "")
			}
			return
		}
		if p1 != "" || p2 != "" {
			c.Fatalf("valid literal refused: frlwe %q, fckks %q", p1, p2)
		}
		q, pp := l.q, l.p
		if l.logQ != nil {
			q, pp = fp.Q(), fp.P()
			if s := sizesMatch(q, pp, l.logQ, l.logP, nthRoot(1<<uint(l.logN), ring.Standard)); s != "" {
				c.Fatalf("%s", s)
			}
		}
		if s := checkRLWE(c, fp.Parameters, l, q, pp); s != "" {
			c.Fatalf("frlwe: %s", s)
		}
		if s := checkRLWE(c, cp.Parameters.Parameters, l, q, pp); s != "" {
			c.Fatalf("fckks: %s", s)
		}
		n := 1 << uint(l.logN)
		all := append(append([]uint64{}, pp...), q...)
		if s := ringIs(c, fp.RingR(), n, all, ring.Standard); s != "" {
			c.Fatalf("RingR: %s", s)
		}
		if s := ringIs(c, cp.RingR(), n, all, ring.Standard); s != "" {
			c.Fatalf("fckks RingR: %s", s)
		}
		if s := ringIs(c, fp.RingT(), n, tm, ring.Standard); s != "" {
			c.Fatalf("RingT: %s", s)
		}
		for i := range tm {
			if got, want := fp.TiOverflowMargin(i), floorMargin(tm[:i+1]); got != want {
				c.Fatalf("TiOverflowMargin(%d) = %d, want %d", i, got, want)
			}
		}
		if fp.Gamma() != gamma || cp.DefaultScale() != scale || cp.LogSlots() != l.logN-1 {
			c.Fatalf("gamma=%d scale=%v logSlots=%d", fp.Gamma(), cp.DefaultScale(), cp.LogSlots())
		}
		// both key generators work with these parameters
		if len(pp) == 0 || l.logN > 7 || len(q)+len(pp) > 12 || !c.Bool("keys") {
			return
		}
		for i, kg := range []*frlwe.KeyGenerator{frlwe.NewKeyGenerator(fp), fckks.NewKeyGenerator(cp)} {
			name := []string{"frlwe", "fckks"}[i]
			sk := kg.GenSecretKey()
			if sk.Value.Q.Level() != len(q)-1 || sk.Value.P.Level() != len(pp)-1 || sk.Value.Q.Degree() != n {
				c.Fatalf("%s: shape of the secret key", name)
			}
			rq := fp.RingQ()
			x := rq.NewPoly()
			rq.InvMForm(sk.Value.Q, x)
			rq.InvNTT(x, x)
			w := 0
			for _, v := range x.Coeffs[0] {
				if v != 0 {
					w++
				}
			}
			if w != fp.HammingWeight() {
				c.Fatalf("%s: the secret key has %d non-zero coefficients, H is %d", name, w, fp.HammingWeight())
			}
			sum, cnt := 0.0, 0
			for cnt < 1024 {
				pk := kg.GenPublicKey(sk)
				rq.MulCoeffsMontgomery(pk.Value[1].Q, sk.Value.Q, x)
				rq.Add(x, pk.Value[0].Q, x)
				rq.InvNTT(x, x)
				for _, v := range x.Coeffs[0] {
					e := float64(v)
					if v > q[0]/2 {
						e = -float64(q[0] - v)
					}
					sum += e * e
				}
				cnt += n
			}
			// the variance of 1024 rounded Gaussians: standard error 4.5%
			if got, want := math.Sqrt(sum/float64(cnt)), fp.Sigma(); want >= 1 && !(got > 0.75*want && got < 1.3*want) {
				c.Fatalf("%s: the error of the public key has standard deviation %v, sigma is %v", name, got, want)
			}
		}
	})
}

// TestDefaults builds every default parameter set the package offers.
func TestDefaults(t *testing.T) {
	sets := [][]ckks.ParametersLiteral{ckks.DefaultParams, ckks.DefaultConjugateInvariantParams, ckks.DefaultPostQuantumParams, ckks.DefaultPostQuantumConjugateInvariantParams}
	vh.Check(t, vh.Opts{Quick: 8, Thorough: 40, Rule: "one of the default ckks parameter sets up to degree 2^14; non-trivial: all"}, func(c *vh.C) {
		s := sets[c.Uni(0, len(sets)-1, "set")]
		d := s[c.Uni(0, 2, "i")]
		c.NonTrivial(true)
		p, err := ckks.NewParametersFromLiteral(d)
		if err != nil {
			c.Fatalf("%v", err)
		}
		c.Note("logN=%d type=%v", d.LogN, d.RingType)
		l := lit{logN: d.LogN, h: d.H, sigma: d.Sigma, typ: d.RingType}
		if e := checkRLWE(c, p.Parameters, l, d.Q, d.P); e != "" {
			c.Fatalf("%s", e)
		}
		if p.LogSlots() != p.MaxLogSlots() || p.DefaultScale() != d.DefaultScale {
			c.Fatalf("slots %d of %d, scale %v", p.LogSlots(), p.MaxLogSlots(), p.DefaultScale())
		}
	})
}

// TestContainers: containers created for a parameter set have the shape it prescribes, hold zero and share no memory.
func TestContainers(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 600, Thorough: 4000, Rule: "parameter sets of either ring, levels below and at the top; non-trivial: several digits"}, func(c *vh.C) {
		p := c.CKKS(vh.RO{LogNLo: 4, LogNHi: 6, QLo: 1, QHi: 8, PLo: 1, PHi: 4, BitsLo: 20, BitsHi: 61, CI: true}, 1<<30, "params")
		rp := p.Parameters.Parameters
		nq, np := p.QCount(), p.PCount()
		lq, lp := c.Uni(0, nq-1, "lq"), c.Uni(0, np-1, "lp")
		seen := map[*uint64]string{}
		poly := func(what string, x *ring.Poly, limbs int, ntt bool) {
			if x == nil || len(x.Coeffs) != limbs || x.IsNTT != ntt || x.IsMForm {
				c.Fatalf("%s: not a polynomial of %d limbs in the expected domain", what, limbs)
			}
			for i := range x.Coeffs {
				if len(x.Coeffs[i]) != p.N() {
					c.Fatalf("%s: limb of %d coefficients", what, len(x.Coeffs[i]))
				}
				if k := &x.Coeffs[i][0]; seen[k] != "" {
					c.Fatalf("%s shares memory with %s", what, seen[k])
				} else {
					seen[k] = what
				}
				for _, y := range x.Coeffs[i] {
					if y != 0 {
						c.Fatalf("%s is not zero", what)
					}
				}
			}
		}
		qp := func(what string, x rlwe.PolyQP, lq, lp int) {
			poly(what+" modulo Q", x.Q, lq+1, false)
			poly(what+" modulo P", x.P, lp+1, false)
		}
		swk := func(what string, k *rlwe.SwitchingKey, lq, lp int) {
			d := (lq + 1 + lp) / (lp + 1)
			c.NonTrivial(d > 1)
			if k == nil || len(k.Value) != d {
				c.Fatalf("%s: not %d digits", what, d)
			}
			for i := range k.Value {
				qp(what, k.Value[i][0], lq, lp)
				qp(what, k.Value[i][1], lq, lp)
			}
		}
		gals := map[uint64]bool{}
		var els []uint64
		for i := c.Uni(0, 3, "keys"); i > 0; i-- {
			g := p.GaloisElementForColumnRotationBy(c.Uni(0, p.N()/2-1, "rot"))
			gals[g] = true
			els = append(els, g)
		}
		set := func(what string, s *rlwe.RotationKeySet) {
			if len(s.Keys) != len(gals) {
				c.Fatalf("%s: %d keys for the elements %v", what, len(s.Keys), els)
			}
			for g := range gals {
				k, ok := s.GetRotationKey(g)
				if !ok {
					c.Fatalf("%s: no key for %d of %v", what, g, els)
				}
				swk(what, k, nq-1, np-1)
			}
		}
		relin := func(what string, k *rlwe.RelinearizationKey, n int) {
			if len(k.Keys) != n {
				c.Fatalf("%s: %d keys, expected %d", what, len(k.Keys), n)
			}
			for _, x := range k.Keys {
				swk(what, x, nq-1, np-1)
			}
		}
		qp("rlwe.NewSecretKey", rlwe.NewSecretKey(rp).Value, nq-1, np-1)
		qp("ckks.NewSecretKey", ckks.NewSecretKey(p.Parameters).Value, nq-1, np-1)
		for i := 0; i < 2; i++ {
			qp("rlwe.NewPublicKey", rlwe.NewPublicKey(rp).Value[i], nq-1, np-1)
			qp("ckks.NewPublicKey", ckks.NewPublicKey(p.Parameters).Value[i], nq-1, np-1)
		}
		swk("rlwe.NewSwitchingKey", rlwe.NewSwitchingKey(rp, lq, lp), lq, lp)
		swk("ckks.NewSwitchingKey", ckks.NewSwitchingKey(p.Parameters), nq-1, np-1)
		n := c.Uni(1, 3, "degree")
		relin("rlwe.NewRelinKey", rlwe.NewRelinKey(rp, n), n)
		relin("ckks.NewRelinearizationKey", ckks.NewRelinearizationKey(p.Parameters), 2)
		set("rlwe.NewRotationKeySet", rlwe.NewRotationKeySet(rp, els))
		set("ckks.NewRotationKeySet", ckks.NewRotationKeySet(p.Parameters, els))
		qp("RingQP.NewPoly", p.RingQP().NewPoly(), nq-1, np-1)
		qp("RingQP.NewPolyLvl", p.RingQP().NewPolyLvl(lq, lp), lq, lp)
		poly("rlwe.NewPlaintext", rlwe.NewPlaintext(rp, lq).Value, lq+1, false)
		poly("ckks.NewPlaintext", ckks.NewPlaintext(p.Parameters, lq, 1).Value, lq+1, true)
		s := rlwe.NewAdditiveShareAtLevel(rp, lq)
		poly("rlwe.NewAdditiveShareAtLevel", &s.Value, lq+1, false)
		b := rlwe.NewAdditiveShareBigint(rp, n)
		if len(b.Value) != n {
			c.Fatalf("NewAdditiveShareBigint(%d) holds %d values", n, len(b.Value))
		}
		for i, x := range b.Value {
			if x == nil || x.Sign() != 0 || i > 0 && x == b.Value[0] {
				c.Fatalf("NewAdditiveShareBigint: value %d is not a zero of its own", i)
			}
		}
		deg := c.Uni(0, 3, "ctdegree")
		for _, ntt := range []bool{false, true} {
			ct := rlwe.NewCiphertext(rp, deg, lq)
			if ntt {
				ct = rlwe.NewCiphertextNTT(rp, deg, lq)
			}
			if ct.Degree() != deg {
				c.Fatalf("ciphertext of degree %d, expected %d", ct.Degree(), deg)
			}
			for _, x := range ct.Value {
				poly("rlwe.NewCiphertext", x, lq+1, ntt)
			}
		}
		// the constants P^-1 of the moduli, in Montgomery form
		Q, P := p.Q(), p.P()
		for i, x := range ckks.GenSwitchkeysRescalingParams(Q, P) {
			m := new(big.Int).SetUint64(Q[i])
			y := new(big.Int).Mul(vh.Prod(P), new(big.Int).SetUint64(x))
			if x >= Q[i] || y.Sub(y, new(big.Int).Lsh(big.NewInt(1), 64)).Mod(y, m).Sign() != 0 {
				c.Fatalf("GenSwitchkeysRescalingParams: constant %d of modulus %d is not P^-1 2^64", x, Q[i])
			}
		}
		// smallest and largest degree
		x, y := rlwe.NewCiphertext(rp, deg, 0), rlwe.NewCiphertext(rp, c.Uni(0, 3, "other"), 0)
		lo, hi, same := rlwe.GetSmallestLargest(x, y)
		if same != (x.Degree() == y.Degree()) || lo.Degree() > hi.Degree() || !(lo == x && hi == y || lo == y && hi == x) || same && lo != x {
			c.Fatalf("GetSmallestLargest of degrees %d, %d gives %d, %d, %v", x.Degree(), y.Degree(), lo.Degree(), hi.Degree(), same)
		}
		lo.SetValue(hi.Value)
		if lo.Degree() != hi.Degree() || &lo.Value[0] != &hi.Value[0] {
			c.Fatalf("SetValue does not set the value")
		}
		// too many moduli, of either kind
		many := make([]uint64, rlwe.MaxModuliCount+c.Uni(0, 2, "many"))
		for i := range many {
			many[i] = Q[i%nq]
		}
		bad := len(many) > rlwe.MaxModuliCount
		if (rlwe.CheckModuli(many, P) != nil) != bad || (rlwe.CheckModuli(Q, many) != nil) != bad {
			c.Fatalf("CheckModuli of %d moduli of one kind: the supported number is %d", len(many), rlwe.MaxModuliCount)
		}
	})
}
