package c06

import (
	"fmt"
	"math"
	"testing"

	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"fast-ksw/utils"
	"vharness/vh"
)

func prng(key uint64) utils.PRNG {
	k := make([]byte, 8)
	for i := range k {
		k[i] = byte(key >> (8 * i))
	}
	p, err := utils.NewKeyedPRNG(k)
	if err != nil {
		panic(err)
	}
	return p
}

func dirty(r *vh.Rand, n int, m []uint64) *ring.Poly {
	p := ring.NewPoly(n, len(m))
	vh.Fill(r, p, m, "uniform")
	return p
}

// small recovers the signed integers that residue vector represents, bounded by b; ok=false if out of range.
func small(c *vh.C, what string, v []uint64, q uint64, b int64) []int64 {
	o := make([]int64, len(v))
	for j, x := range v {
		if x > q {
			c.Fatalf("%s: residue %d above modulus %d", what, x, q)
		}
		y := int64(x % q)
		if uint64(y) > q/2 {
			y -= int64(q)
		}
		if y > b || y < -b {
			c.Fatalf("%s: coefficient %d is %d, bound %d", what, j, y, b)
		}
		o[j] = y
	}
	return o
}

// consistent checks that all limbs up to level hold the same bounded integers and returns them.
func consistent(c *vh.C, what string, p *ring.Poly, m []uint64, level int, b int64) []int64 {
	s := small(c, what, p.Coeffs[0], m[0], b)
	for i := 1; i <= level; i++ {
		t := small(c, what, p.Coeffs[i], m[i], b)
		for j := range t {
			if t[j] != s[j] {
				c.Fatalf("%s: coefficient %d is %d modulo %d but %d modulo %d", what, j, s[j], m[0], t[j], m[i])
			}
		}
	}
	return s
}

func untouched(c *vh.C, what string, got, before *ring.Poly, level int) {
	for i := level + 1; i < len(before.Coeffs); i++ {
		if !vh.SameVec(got.Coeffs[i], before.Coeffs[i]) {
			c.Fatalf("%s wrote limb %d above level %d", what, i, level)
		}
	}
}

func genRing(c *vh.C, lo int) (*ring.Ring, []uint64, int) {
	n := 1 << c.Deg(4, 8, 16, "logN")
	m := c.Moduli(c.Count(1, 4, 16, "nQ"), uint64(4*n), lo, 61, "mod")
	typ := ring.Standard
	if c.Chance(1, 4, "ci") {
		typ = ring.ConjugateInvariant
	}
	return vh.Ring(n, m, typ), m, c.Uni(0, len(m)-1, "level")
}

// readAll compares the four Read forms of a sampler made from the same key, and determinism.
type reader interface {
	Read(*ring.Poly)
	ReadLvl(int, *ring.Poly)
	ReadNew() *ring.Poly
	ReadLvlNew(int) *ring.Poly
}

// forms draws three successive samples; returns the ones of ReadLvl into a dirty target.
func forms(c *vh.C, what string, mk func() reader, n int, m []uint64, level int, lvlIsPrefix bool) []*ring.Poly {
	r := c.Rng("dirt")
	var o []*ring.Poly
	a, b := mk(), mk()
	for k := 0; k < 3; k++ {
		p := dirty(r, n, m)
		p0 := vh.Clone(p)
		a.ReadLvl(level, p)
		untouched(c, what+".ReadLvl", p, p0, level)
		q := b.ReadLvlNew(level)
		if len(q.Coeffs) != level+1 || !vh.SameCoeffs(p, q, level) {
			c.Fatalf("%s.ReadLvlNew differs from ReadLvl", what)
		}
		o = append(o, p)
	}
	if vh.SameCoeffs(o[0], o[1], level) && n*int(m[0]%1000) > 0 && what == "uniform" {
		c.Fatalf("%s repeats itself", what)
	}
	a, b = mk(), mk()
	for k := 0; k < 3; k++ {
		p := dirty(r, n, m)
		a.Read(p)
		q := b.ReadNew()
		if len(q.Coeffs) != len(m) || !vh.Same(p, q) {
			c.Fatalf("%s.ReadNew differs from Read", what)
		}
		if lvlIsPrefix && !vh.SameCoeffs(p, o[k], level) {
			c.Fatalf("%s: Read and ReadLvl(%d) draw different samples from the same generator", what, level)
		}
	}
	return o
}

func TestTernary(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 1200, Thorough: 4000, Rule: "key, ring, level, density or Hamming weight, Montgomery form; non-trivial: some coefficient non-zero"}, func(c *vh.C) {
		rg, m, level := genRing(c, 14)
		n := rg.N
		key := c.U64("key")
		mont := c.Bool("montgomery")
		var mk func() reader
		hw := -1
		p := 0.5
		if c.Bool("sparse") {
			hw = c.Uni(0, n+3, "hw")
			if c.Chance(1, 4, "edge") {
				hw = c.PickInt("hwe", 0, 1, 7, 8, 9, n-1, n)
			}
			mk = func() reader { return ring.NewTernarySamplerWithHammingWeight(prng(key), rg, hw, mont) }
			hw = min(hw, n)
		} else {
			switch c.Uni(0, 3, "p.kind") {
			case 0:
				p = 1.0 / 3
			case 1:
				p = float64(c.Uni(1, 255, "p256")) / 256
			case 2:
				p = float64(c.Uni(1, 9999, "p10000")) / 10000
			}
			mk = func() reader { return ring.NewTernarySampler(prng(key), rg, p, mont) }
		}
		h := hw
		_ = h
		for _, x := range forms(c, "ternary", mk, n, m, level, true) {
			y := vh.Clone(x)
			if mont {
				for i := 0; i <= level; i++ {
					for j := range y.Coeffs[i] {
						if y.Coeffs[i][j] >= m[i] {
							c.Fatalf("unreduced residue")
						}
						y.Coeffs[i][j] = vh.MulMod(y.Coeffs[i][j], vh.InvMod(vh.PowMod(2, 64, m[i]), m[i]), m[i])
					}
				}
			}
			s := consistent(c, "ternary", y, m, level, 1)
			w := 0
			for _, v := range s {
				if v != 0 {
					w++
				}
			}
			c.NonTrivial(w > 0)
			if hw >= 0 && w != hw {
				c.Fatalf("Hamming weight %d, want %d", w, hw)
			}
		}
	})
}

func TestGaussian(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 1200, Thorough: 4000, Rule: "key, ring, level, sigma 0.3..100, bound; non-trivial: some coefficient non-zero"}, func(c *vh.C) {
		rg, m, level := genRing(c, 16)
		n := rg.N
		key := c.U64("key")
		sigma := float64(c.Uni(3, 60, "sigma10")) / 10
		if c.Chance(1, 4, "large") {
			sigma = float64(c.Uni(6, 100, "sigma"))
		}
		bound := int(sigma*float64(c.Uni(5, 60, "bound10"))/10) + c.Uni(0, 1, "b")
		mk := func() reader { return ring.NewGaussianSampler(prng(key), rg, sigma, bound) }
		o := forms(c, "gaussian", mk, n, m, level, true)
		for _, x := range o {
			for _, v := range consistent(c, "gaussian", x, m, level, int64(bound)) {
				c.NonTrivial(v != 0)
			}
		}
		// accumulate variants add exactly the sample Read would give
		r := c.Rng("acc")
		g := ring.NewGaussianSampler(prng(key), rg, sigma, bound)
		g2 := ring.NewGaussianSampler(prng(key), rg, sigma*2+1, bound+5)
		g3 := ring.NewGaussianSampler(prng(key), rg, sigma*2+1, bound+5)
		for k := 0; k < 3; k++ {
			for v := 0; v < 3; v++ {
				acc := ring.NewPoly(n, len(m))
				if v < 2 {
					vh.Fill(r, acc, m, []string{"uniform", "edge", "max", "zero"}[r.IntN(4)])
				}
				before := vh.Clone(acc)
				name := ""
				switch v {
				case 0:
					name = "ReadAndAddLvl"
					g.ReadAndAddLvl(level, acc)
				case 1:
					name = "ReadAndAddFromDistLvl"
					g2.ReadAndAddFromDistLvl(level, acc, rg, sigma, bound)
				case 2:
					name = "ReadFromDistLvl"
					vh.Fill(r, acc, m, "uniform")
					before = vh.Clone(acc)
					g3.ReadFromDistLvl(level, acc, rg, sigma, bound)
				}
				untouched(c, name, acc, before, level)
				for i := 0; i <= level; i++ {
					for j := range acc.Coeffs[i] {
						want := o[k].Coeffs[i][j]
						if v < 2 {
							want = vh.AddMod(want, before.Coeffs[i][j], m[i])
							if acc.Coeffs[i][j] >= m[i] && acc.Coeffs[i][j] != m[i] {
								c.Fatalf("%s: unreduced", name)
							}
						}
						if acc.Coeffs[i][j]%m[i] != want%m[i] {
							c.Fatalf("%s: limb %d coefficient %d: %d + sample %d gave %d mod %d", name, i, j, before.Coeffs[i][j], o[k].Coeffs[i][j], acc.Coeffs[i][j], m[i])
						}
					}
				}
			}
		}
		// sampling in another ring than the sampler's own, larger or smaller
		n2 := 2 * n
		if n > 16 && c.Bool("smaller") {
			n2 = n / 2
		}
		m2 := append([]uint64(nil), vh.Primes(c.Uni(30, 60, "bits2"), uint64(8*n), c.Uni(1, 4, "n2"), true)...)
		rg2 := vh.Ring(n2, m2, ring.Standard)
		l2 := c.Uni(0, len(m2)-1, "level2")
		p := dirty(r, n2, m2)
		ga, gb := ring.NewGaussianSampler(prng(key), rg, sigma, bound), ring.NewGaussianSampler(prng(key), rg, sigma, bound)
		for k := 0; k < 2; k++ {
			q := dirty(r, n2, m2)
			before, old := vh.Clone(q), vh.Clone(p)
			ga.ReadFromDistLvl(l2, p, rg2, sigma, bound)
			gb.ReadAndAddFromDistLvl(l2, q, rg2, sigma, bound)
			untouched(c, "ReadFromDistLvl in another ring", p, old, l2)
			untouched(c, "ReadAndAddFromDistLvl in another ring", q, before, l2)
			consistent(c, "other ring", p, m2, l2, int64(bound))
			for i := 0; i <= l2; i++ {
				for j, v := range q.Coeffs[i] {
					if v%m2[i] != vh.AddMod(p.Coeffs[i][j]%m2[i], before.Coeffs[i][j]%m2[i], m2[i]) {
						c.Fatalf("ReadAndAddFromDistLvl in a ring of degree %d by a sampler of degree %d: limb %d coefficient %d is not the sample plus the target", n2, n, i, j)
					}
				}
			}
		}
	})
}

func TestUniform(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 800, Thorough: 3000, Rule: "key, ring, level; range, determinism, Read forms, QP sampler; non-trivial: several moduli"}, func(c *vh.C) {
		rg, m, level := genRing(c, 14)
		n := rg.N
		key := c.U64("key")
		c.NonTrivial(len(m) > 1)
		mk := func() reader { return ring.NewUniformSampler(prng(key), rg) }
		o := forms(c, "uniform", mk, n, m, level, false)
		for _, p := range o {
			for i := 0; i <= level; i++ {
				for _, v := range p.Coeffs[i] {
					if v >= m[i] {
						c.Fatalf("uniform sample %d not below %d", v, m[i])
					}
				}
			}
		}
		other := ring.NewUniformSampler(prng(key+1), rg).ReadNew()
		if vh.SameCoeffs(other, o[0], level) {
			c.Fatalf("another key gives the same sample")
		}
		// a target with fewer limbs
		p := dirty(c.Rng("d"), n, m[:level+1])
		mk().Read(p)
		if !vh.SameCoeffs(p, o[0], level) {
			c.Fatalf("Read into %d limbs differs from ReadLvl", level+1)
		}
	})
}

func TestUniformQP(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 400, Thorough: 1500, Rule: "parameters with and without P; non-trivial: with P"}, func(c *vh.C) {
		logN := c.Deg(4, 7, 15, "logN")
		nq, np := c.Count(1, 3, 12, "nQ"), c.Count(0, 2, 8, "nP")
		all := c.Moduli(nq+np, uint64(4<<uint(logN)), 20, 60, "mod")
		par, err := rlwe.NewParameters(logN, all[:nq], all[nq:], 0, 3.2, ring.Standard)
		if err != nil {
			c.Fatalf("%v", err)
		}
		key := c.U64("key")
		n := 1 << uint(logN)
		r := c.Rng("d")
		draw := func(withP bool) rlwe.PolyQP {
			s := rlwe.NewUniformSamplerQP(par, prng(key))
			o := rlwe.PolyQP{Q: dirty(r, n, all[:nq])}
			if withP && np > 0 {
				o.P = dirty(r, n, all[nq:])
			}
			s.Read(&o)
			return o
		}
		c.NonTrivial(np > 0)
		a, b := draw(true), draw(true)
		if !vh.Same(a.Q, b.Q) || (np > 0 && !vh.Same(a.P, b.P)) {
			c.Fatalf("not a function of the key")
		}
		for i, q := range all {
			var v []uint64
			if i < nq {
				v = a.Q.Coeffs[i]
			} else {
				v = a.P.Coeffs[i-nq]
			}
			same := 0
			for j := range v {
				if v[j] >= q {
					c.Fatalf("unreduced")
				}
				if i > 0 && v[j] == a.Q.Coeffs[0][j] {
					same++
				}
			}
			if same > 6 {
				c.Fatalf("limb %d repeats limb 0", i)
			}
		}
		draw(false)
	})
}

// ---- distributions ----

// binom fails when k of n is further than 7.5 standard deviations (plus one) from n*p.
func binom(c *vh.C, what string, k, n int, p float64) {
	mu := float64(n) * p
	sd := math.Sqrt(mu * (1 - p))
	lim := 7.5*sd + 25
	if mu < 50 {
		lim = 10*math.Sqrt(mu) + 25
	}
	if math.Abs(float64(k)-mu) > lim {
		c.Fatalf("%s: %d of %d, expected %.1f +- %.1f", what, k, n, mu, sd)
	}
}

func sampleSize() int {
	if vh.Thorough() {
		return 1 << 20
	}
	return 1 << 17
}

// repeats fails when a stretch of the sequence occurs twice that independent draws with match probability match would
// practically never show: the fresh randomness of the sampler is being reused.
func repeats(c *vh.C, what string, v []int, match float64) {
	n := float64(len(v))
	w := int(math.Ceil((2*math.Log(n) + 40) / -math.Log(match)))
	if w < 1 || w > len(v)/4 || w > 4096 {
		return
	}
	const base = 0x9E3779B97F4A7C15
	var h, top uint64 = 0, 1
	for i := 0; i < w; i++ {
		top *= base
	}
	seen := make(map[uint64]int, len(v))
	for i, x := range v {
		h = h*base + uint64(x) + 1
		if i >= w {
			h -= top * (uint64(v[i-w]) + 1)
		}
		if i+1 < w {
			continue
		}
		if j, ok := seen[h]; ok {
			for k := 0; k < w; k++ {
				if v[i-k] != v[j-k] {
					return // a collision of the hash
				}
			}
			c.Fatalf("%s: the %d values from position %d on repeat those from position %d on", what, w, i-w+1, j-w+1)
		}
		seen[h] = i
	}
}

// sequence statistics on small categories: frequencies of single values and of pairs at lags.
func categories(c *vh.C, what string, rows [][]int, p []float64) {
	k := len(p)
	n := 0
	cnt := make([]int, k)
	for _, r := range rows {
		for _, v := range r {
			cnt[v]++
			n++
		}
	}
	for v := range cnt {
		binom(c, fmt.Sprintf("%s: category %d", what, v), cnt[v], n, p[v])
	}
	for _, lag := range []int{1, 2, 3, 8} {
		pairs := make([]int, k*k)
		m := 0
		for _, r := range rows {
			for i := 0; i+lag < len(r); i++ {
				pairs[r[i]*k+r[i+lag]]++
				m++
			}
		}
		for a := 0; a < k; a++ {
			for b := 0; b < k; b++ {
				// pairs overlap, hence the wider interval
				binom(c, fmt.Sprintf("%s: pair %d,%d at distance %d", what, a, b, lag), pairs[a*k+b], m, p[a]*p[b])
			}
		}
	}
}

func tern(v []uint64, q uint64) []int {
	o := make([]int, len(v))
	for i, x := range v {
		switch x {
		case 1:
			o[i] = 1
		case q - 1:
			o[i] = 2
		}
	}
	return o
}

func TestTernaryDistribution(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 24, Thorough: 12, Rule: "frequencies of -1, 0, 1, of neighbouring pairs and repeated stretches for a density; every case non-trivial"}, func(c *vh.C) {
		n := 1 << c.Uni(4, 12, "logN")
		m := vh.Primes(30, uint64(2*n), 1, true)
		rg := vh.Ring(n, m, ring.Standard)
		p := 0.5
		switch c.Uni(0, 3, "kind") {
		case 0:
			p = 1.0 / 3
		case 1:
			p = float64(c.Uni(1, 99, "p100")) / 100
		case 2:
			p = float64(c.Uni(1, 15, "p16")) / 16
		}
		c.Note("p=%v", p)
		c.NonTrivial(true)
		s := ring.NewTernarySampler(prng(c.U64("key")), rg, p, false)
		var rows [][]int
		var all []int
		for k := 0; k < sampleSize()/n; k++ {
			rows = append(rows, tern(s.ReadNew().Coeffs[0], m[0]))
			all = append(all, rows[k]...)
		}
		repeats(c, fmt.Sprintf("density %v", p), all, p*p+(1-p)*(1-p)/2)
		categories(c, fmt.Sprintf("density %v", p), rows, []float64{p, (1 - p) / 2, (1 - p) / 2})
	})
}

func TestSparseDistribution(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 16, Thorough: 12, Rule: "positions and signs of fixed-weight samples; every case non-trivial"}, func(c *vh.C) {
		n := 1 << c.Deg(4, 7, 15, "logN")
		m := vh.Primes(30, uint64(2*n), 1, true)
		rg := vh.Ring(n, m, ring.Standard)
		hw := c.Uni(1, n, "hw")
		c.NonTrivial(true)
		s := ring.NewTernarySamplerWithHammingWeight(prng(c.U64("key")), rg, hw, false)
		reps := sampleSize() / n / 4
		pos := make([]int, n)
		neg := make([]int, n)
		total, negs := 0, 0
		spread := 0.0
		for k := 0; k < reps; k++ {
			before := negs
			for j, v := range tern(s.ReadNew().Coeffs[0], m[0]) {
				if v != 0 {
					pos[j]++
					total++
				}
				if v == 2 {
					neg[j]++
					negs++
				}
			}
			d := float64(negs-before) - float64(hw)/2
			spread += d * d / (float64(hw) / 4)
		}
		// the number of negative signs of a sample varies like that of independent ones
		if k := float64(reps); math.Abs(spread-k) > 8*math.Sqrt(2*k)+80 {
			c.Fatalf("hw %d: the number of negative coefficients has %.3f times the variance of independent signs", hw, spread/k)
		}
		binom(c, "signs", negs, total, 0.5)
		for j := range pos {
			binom(c, fmt.Sprintf("position %d", j), pos[j], reps, float64(hw)/float64(n))
			binom(c, fmt.Sprintf("sign at position %d", j), neg[j], pos[j], 0.5)
		}
	})
}

func TestGaussianDistribution(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 24, Thorough: 12, Rule: "frequencies of every value, both tails, second and fourth moments, neighbouring pairs, repeated stretches against the rounded truncated normal law; every case non-trivial"}, func(c *vh.C) {
		n := 1 << c.Uni(4, 12, "logN")
		m := vh.Primes(30, uint64(2*n), 2, true)
		rg := vh.Ring(n, m, ring.Standard)
		sigma := float64(c.Uni(4, 60, "sigma10")) / 10
		bound := int(6 * sigma)
		if c.Chance(1, 3, "tight") {
			bound = int(float64(c.Uni(10, 40, "bound10")) / 10 * sigma)
		}
		bound = max(bound, 1)
		c.NonTrivial(true)
		c.Note("sigma=%v bound=%d", sigma, bound)
		s := ring.NewGaussianSampler(prng(c.U64("key")), rg, sigma, bound)
		dist := s
		other := c.Bool("fromdist")
		if other {
			dist = ring.NewGaussianSampler(prng(c.U64("key2")), rg, 17, 90)
		}
		var rows [][]int // 0 zero, 1 positive, 2 negative
		var mags [][]int // |x| below or above the median cell
		cnt := make([]int, 2*bound+1)
		var stream []int
		p := ring.NewPoly(n, 2)
		tot := 0
		med := int(0.6745*sigma + 0.5)
		med = min(med, bound-1)
		more := 16
		if c.Chance(1, 6, "deep") {
			more = (1 << 24) / sampleSize()
		}
		// the first part is looked at in detail, the rest only adds to the frequencies
		for k := 0; k < more*sampleSize()/n; k++ {
			if other {
				dist.ReadFromDistLvl(1, p, rg, sigma, bound)
			} else {
				dist.Read(p)
			}
			if k >= sampleSize()/n {
				for j, v := range p.Coeffs[1] {
					x := int(v)
					if v > m[1]/2 {
						x = int(v - m[1])
					}
					if x < -bound || x > bound {
						c.Fatalf("coefficient %d: %d outside of +-%d", j, x, bound)
					}
					cnt[x+bound]++
				}
				tot += n
				continue
			}
			row, mag := make([]int, n), make([]int, n)
			for j, x := range small(c, "gaussian", p.Coeffs[1], m[1], int64(bound)) {
				cnt[int(x)+bound]++
				stream = append(stream, int(x)+bound)
				tot++
				if x > 0 {
					row[j] = 1
				} else if x < 0 {
					row[j] = 2
				}
				if x > int64(med) || x < -int64(med) {
					mag[j] = 1
				}
			}
			rows, mags = append(rows, row), append(mags, mag)
		}
		// |x| = floor(|z| sigma + 1/2) <= bound, independent sign
		half := func(a, b float64) float64 { return math.Erf(b/sigma/math.Sqrt2) - math.Erf(a/sigma/math.Sqrt2) }
		z := half(0, float64(bound)+0.5)
		p0 := half(0, 0.5) / z
		big := half(float64(med)+0.5, float64(bound)+0.5) / z
		match := 0.0
		for k := -bound; k <= bound; k++ {
			pk := p0
			if k != 0 {
				a := math.Abs(float64(k))
				pk = half(a-0.5, a+0.5) / z / 2
			}
			match += pk * pk
			binom(c, fmt.Sprintf("sigma %v bound %d value %d", sigma, bound, k), cnt[k+bound], tot, pk)
		}
		// both tails, and the even moments
		up, down := 0, 0
		for k := bound; k > 0; k-- {
			up, down = up+cnt[k+bound], down+cnt[bound-k]
			pk := half(float64(k)-0.5, float64(bound)+0.5) / z / 2
			binom(c, fmt.Sprintf("sigma %v bound %d values from %d up", sigma, bound, k), up, tot, pk)
			binom(c, fmt.Sprintf("sigma %v bound %d values from %d down", sigma, bound, -k), down, tot, pk)
		}
		for _, e := range []float64{2, 4} {
			var m1, m2, x float64
			for k := 1; k <= bound; k++ {
				pk, v := half(float64(k)-0.5, float64(k)+0.5)/z, math.Pow(float64(k), e)
				m1, m2, x = m1+pk*v, m2+pk*v*v, x+v*float64(cnt[bound+k]+cnt[bound-k])
			}
			if d := (x - m1*float64(tot)) / math.Sqrt((m2-m1*m1)*float64(tot)); math.Abs(d) > 8 {
				c.Fatalf("sigma %v bound %d: moment %v is %v, expected %v (%.1f standard errors)", sigma, bound, e, x/float64(tot), m1, d)
			}
		}
		repeats(c, "gaussian", stream, match)
		categories(c, "gaussian sign", rows, []float64{p0, (1 - p0) / 2, (1 - p0) / 2})
		categories(c, "gaussian magnitude", mags, []float64{1 - big, big})
	})
}

func TestUniformDistribution(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 24, Thorough: 12, Rule: "buckets of high and low bits, pairs across coefficients and across moduli; every case non-trivial"}, func(c *vh.C) {
		n := 1 << c.Uni(4, 10, "logN")
		m := c.Moduli(2, uint64(2*n), 14, 61, "mod")
		rg := vh.Ring(n, m, ring.Standard)
		c.NonTrivial(true)
		s := ring.NewUniformSampler(prng(c.U64("key")), rg)
		const B = 8
		bucket := func(v, q uint64) int { return int(float64(v) / float64(q) * B) }
		var hi, lo, cross [][]int
		for k := 0; k < sampleSize()/n/2; k++ {
			p := s.ReadNew()
			for i, q := range m {
				h, l := make([]int, n), make([]int, n)
				for j, v := range p.Coeffs[i] {
					h[j] = min(bucket(v, q), B-1)
					l[j] = int(v % B)
				}
				hi, lo = append(hi, h), append(lo, l)
			}
			for j := 0; j < n; j++ {
				cross = append(cross, []int{min(bucket(p.Coeffs[0][j], m[0]), B-1), min(bucket(p.Coeffs[1][j], m[1]), B-1)})
			}
		}
		eq := make([]float64, B)
		for i := range eq {
			eq[i] = 1.0 / B
		}
		categories(c, "high bits", hi, eq)
		categories(c, "low bits", lo, eq)
		categories(c, "across moduli", cross, eq)
	})
}

// single uniform integers below a bound
func TestRandUniform(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 200, Thorough: 400, Rule: "bound of 1 to 64 bits, key; range, determinism, buckets of high and low bits; non-trivial: bound above 8"}, func(c *vh.C) {
		bl := c.Uni(1, 64, "bits")
		mask := ^uint64(0) >> uint(64-bl)
		v := mask
		switch c.Uni(0, 2, "bound") {
		case 0:
			v = mask>>1 + 1 // half of the draws are rejected
		case 1:
			v = mask>>1 + 1 + c.U64("v")&(mask>>1)
		}
		key := c.U64("key")
		c.NonTrivial(v > 8)
		const n, B = 4096, 8
		a, b := prng(key), prng(key)
		other := prng(key + 1)
		hi, lo := make([]int, n), make([]int, n)
		seen := map[uint64]bool{}
		diff := 0
		for i := 0; i < n; i++ {
			x := ring.RandUniform(a, v, mask)
			if x >= v {
				c.Fatalf("RandUniform below %d gives %d", v, x)
			}
			if y := ring.RandUniform(b, v, mask); y != x {
				c.Fatalf("RandUniform below %d: draw %d is %d and %d under one key", v, i, x, y)
			}
			if ring.RandUniform(other, v, mask) != x {
				diff++
			}
			seen[x] = true
			hi[i] = min(int(float64(x)/float64(v)*B), B-1)
			lo[i] = int(x % B)
		}
		if v > 1 && diff == 0 {
			c.Fatalf("RandUniform below %d does not depend on the key", v)
		}
		if v <= 64 && len(seen) != int(v) {
			c.Fatalf("RandUniform below %d: only %d values in %d draws", v, len(seen), n)
		}
		if v < 1<<20 {
			return // buckets are uneven
		}
		eq := make([]float64, B)
		for i := range eq {
			eq[i] = 1.0 / B
		}
		categories(c, "RandUniform, high bits", [][]int{hi}, eq)
		categories(c, "RandUniform, low bits", [][]int{lo}, eq)
	})
}

// random ciphertexts: uniform at every limb of every component, a function of the key
func TestRandomElements(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 200, Thorough: 600, Rule: "parameters, degree, level, key; range, spread and repeats of the limbs, determinism, both entry points; non-trivial: below the top level or degree above 1"}, func(c *vh.C) {
		p := c.RLWE(vh.RO{LogNLo: 6, LogNHi: 9, QLo: 1, QHi: 5, PLo: 0, PHi: 2, BitsLo: 25, BitsHi: 60, CI: true}, "p")
		deg := c.Uni(0, 3, "degree")
		level := c.Uni(0, p.MaxLevel(), "level")
		key := c.U64("key")
		c.NonTrivial(level < p.MaxLevel() || deg > 1)
		draw := func(key uint64) *rlwe.Ciphertext {
			if c.Bool("populate") {
				ct := rlwe.NewCiphertext(p.Parameters, deg, level)
				rlwe.PopulateElementRandom(prng(key), p.Parameters, ct)
				return ct
			}
			return rlwe.NewCiphertextRandom(prng(key), p.Parameters, deg, level)
		}
		a, b, o := draw(key), draw(key), draw(key+1)
		if a.Degree() != deg || a.Level() != level {
			c.Fatalf("degree %d level %d, expected %d and %d", a.Degree(), a.Level(), deg, level)
		}
		for d, v := range a.Value {
			if !vh.SameCoeffs(v, b.Value[d], level) {
				c.Fatalf("component %d is not a function of the key", d)
			}
			for i, row := range v.Coeffs {
				q := p.Q()[i]
				var hi, lo, same, again int
				for j, x := range row {
					if x >= q {
						c.Fatalf("component %d limb %d: %d is not below %d", d, i, x, q)
					}
					if x > q/2 {
						hi++
					} else {
						lo++
					}
					if x == o.Value[d].Coeffs[i][j] {
						same++
					}
					if i > 0 && x == v.Coeffs[0][j] {
						again++
					}
					if d > 0 && x == a.Value[0].Coeffs[i][j] {
						again++
					}
				}
				// each has probability below 2^-60 for uniform limbs
				if hi == 0 || lo == 0 || same > 6 || again > 8 {
					c.Fatalf("component %d limb %d: %d values above and %d below half the modulus, %d shared with another key, %d with another limb", d, i, hi, lo, same, again)
				}
			}
		}
	})
}
