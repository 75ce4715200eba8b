// Package vh is the core of the harness: property cases driven by rapid, evidence
// counters, deterministic library randomness.
package vh

import (
	crand "crypto/rand"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Opts says how many cases a facet runs and what makes one non-trivial.
type Opts struct {
	Quick    int // cases in the quick tier
	Thorough int // cases per shard in the thorough tier
	Rule     string
}

// Thorough reports whether the thorough tier runs.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

type facetStats struct {
	Facet       string         `json:"facet"`
	Rule        string         `json:"rule"`
	Evaluations int            `json:"evaluations"`
	Nontrivial  int            `json:"nontrivial"`
	Hashes      []uint64       `json:"hashes"`
	Classes     map[string]int `json:"classes"`
	Samples     []string       `json:"samples"`
	Known       []string       `json:"known"`
	seen        map[uint64]bool
}

// C is one generated case.
type C struct {
	*rapid.T
	hash    uint64
	notes   []string
	nontriv bool
	classes []string
}

func init() { debug.SetMaxStack(128 << 20) }

func (s *facetStats) flush() {
	dir := os.Getenv("VH_OUT")
	if dir == "" {
		return
	}
	for h := range s.seen {
		s.Hashes = append(s.Hashes, h)
	}
	sort.Slice(s.Hashes, func(i, j int) bool { return s.Hashes[i] < s.Hashes[j] })
	b, _ := json.Marshal(s)
	name := fmt.Sprintf("%s-%s.json", strings.ReplaceAll(s.Facet, "/", "_"), os.Getenv("VH_SHARD"))
	if err := os.WriteFile(filepath.Join(dir, name), b, 0o644); err != nil {
		panic(err)
	}
}

// Check runs the property f on generated cases.
func Check(t *testing.T, o Opts, f func(c *C)) {
	t.Helper()
	n := o.Quick
	if Thorough() {
		n = o.Thorough
		if n == 0 {
			n = o.Quick * 8
		}
	}
	if v := os.Getenv("VH_CHECKS"); v != "" {
		n, _ = strconv.Atoi(v)
	}
	_ = flag.Set("rapid.checks", strconv.Itoa(n))
	_ = flag.Set("rapid.shrinktime", "20s")
	st := &facetStats{Facet: t.Name(), Rule: o.Rule, Classes: map[string]int{}, seen: map[uint64]bool{}}
	defer st.flush()
	defer watch()()
	rapid.Check(t, func(rt *rapid.T) {
		caseNo.Add(1)
		c := &C{T: rt, hash: 1469598103934665603}
		SeedRandom(c.U64("entropy"))
		c.notes = nil
		f(c)
		st.Evaluations++
		for _, k := range c.classes {
			st.Classes[k]++
		}
		if c.nontriv {
			st.Nontrivial++
			if len(st.seen) < 200000 {
				st.seen[c.hash] = true
			}
			if len(st.Samples) < 3 || (len(st.Samples) < 6 && st.Evaluations%(1+n/5) == 0) {
				s := strings.Join(c.notes, " ")
				if len(s) > 600 {
					s = s[:600] + "..."
				}
				st.Samples = append(st.Samples, s)
			}
		}
	})
}

// caseNo counts the cases begun, for watch.
var caseNo atomic.Int64

// watch ends the process when one case does not finish: a case takes milliseconds, so one that has used caseCPU
// seconds of processor time (or caseWall seconds of idle waiting, when the whole process used next to none) hangs in
// the code under test, which is a violation. It returns the function that stops the watch.
func watch() func() {
	const caseCPU, caseIdle = 200.0, 300.0
	stop := make(chan struct{})
	cpu := func() float64 {
		var u syscall.Rusage
		_ = syscall.Getrusage(syscall.RUSAGE_SELF, &u)
		return float64(u.Utime.Nano()+u.Stime.Nano()) / 1e9
	}
	go func() {
		at, from := caseNo.Load(), cpu()
		last, idle := from, 0.0
		for {
			select {
			case <-stop:
				return
			case <-time.After(time.Second):
			}
			now := cpu()
			if n := caseNo.Load(); n != at {
				at, from, last, idle = n, now, now, 0
				continue
			}
			if now-last < 0.01 {
				idle++
			} else {
				idle = 0
			}
			last = now
			if now-from > caseCPU || idle > caseIdle {
				debug.SetTraceback("all")
				panic(fmt.Sprintf("case %d does not finish: %.0f s of processor time, %.0f s idle", at, now-from, idle))
			}
		}
	}()
	return func() { close(stop) }
}

func (c *C) mix(label string, v uint64) {
	h := fnv.New64a()
	var b [16]byte
	binary.LittleEndian.PutUint64(b[:], c.hash)
	binary.LittleEndian.PutUint64(b[8:], v)
	h.Write(b[:])
	c.hash = h.Sum64()
	if label != "" && len(c.notes) < 60 {
		c.notes = append(c.notes, fmt.Sprintf("%s=%d", label, v))
	}
}

// Note records something about the case for the evidence samples and failure logs.
func (c *C) Note(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	if len(c.notes) < 60 {
		c.notes = append(c.notes, s)
	}
	c.T.Log(s)
}

// Class counts the case under a class name.
func (c *C) Class(format string, a ...interface{}) {
	c.classes = append(c.classes, fmt.Sprintf(format, a...))
}

// NonTrivial marks the case as non-trivial if cond holds.
func (c *C) NonTrivial(cond bool) { c.nontriv = c.nontriv || cond }

// Int draws an integer in [lo,hi].
func (c *C) Int(lo, hi int, label string) int {
	if lo == hi {
		return lo
	}
	v := rapid.IntRange(lo, hi).Draw(c.T, label)
	c.mix(label, uint64(int64(v)))
	return v
}

// Count draws a number of things: nearly uniform in [lo,hi], and now and then (once in 16) in (hi,wide].
func (c *C) Count(lo, hi, wide int, label string) int {
	if wide > hi && c.Chance(1, 16, label+".wide") {
		return c.Uni(hi+1, wide, label+".many")
	}
	return c.Uni(lo, hi, label)
}

// Deg draws the log of a ring degree: nearly uniform in [lo,hi], and now and then (once in 32) in (hi,wide].
func (c *C) Deg(lo, hi, wide int, label string) int {
	if wide > hi && c.Chance(1, 32, label+".wide") {
		return c.Uni(hi+1, wide, label+".large")
	}
	return c.Uni(lo, hi, label)
}

// Uni draws an integer of [lo,hi] nearly uniformly (rapid's own integers favour small values).
func (c *C) Uni(lo, hi int, label string) int {
	if lo == hi {
		return lo
	}
	idx := make([]int, hi-lo+1)
	for i := range idx {
		idx[i] = lo + i
	}
	v := rapid.SampledFrom(idx).Draw(c.T, label)
	c.mix(label, uint64(int64(v)))
	return v
}

// U64 draws 64 bits, spread uniformly (for seeds).
func (c *C) U64(label string) uint64 {
	v := rapid.Uint64().Draw(c.T, label)
	c.mix(label, v)
	// rapid favours small values: spread them
	x := v + 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// Bool draws a boolean.
func (c *C) Bool(label string) bool { return c.Uni(0, 1, label) == 1 }

// Chance is true with probability about num/den.
func (c *C) Chance(num, den int, label string) bool { return c.Uni(0, den-1, label) < num }

// Pick draws one of the strings.
func (c *C) Pick(label string, xs ...string) string {
	i := rapid.SampledFrom(xs).Draw(c.T, label)
	h := fnv.New64a()
	h.Write([]byte(i))
	c.mix("", h.Sum64())
	c.notes = append(c.notes, label+"="+i)
	return i
}

// PickInt draws one of the ints.
func (c *C) PickInt(label string, xs ...int) int {
	i := rapid.SampledFrom(xs).Draw(c.T, label)
	c.mix(label, uint64(int64(i)))
	return i
}

// Rng returns a generator expanded from one drawn seed.
func (c *C) Rng(label string) *Rand { return NewRand(c.U64(label)) }

// Rand is a deterministic generator expanded from a seed.
type Rand struct{ *rand.Rand }

// NewRand returns a generator for the seed.
func NewRand(seed uint64) *Rand { return &Rand{rand.New(rand.NewPCG(seed, 0x5851f42d4c957f2d))} }

// Float returns a float in [-b,b].
func (r *Rand) Float(b float64) float64 { return (2*r.Float64() - 1) * b }

// ---- library randomness ----

type lockedReader struct {
	mu sync.Mutex
	r  *rand.ChaCha8
	n  uint64
}

func (l *lockedReader) Read(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.n += uint64(len(p))
	return l.r.Read(p)
}

// SeedRandom makes crypto/rand, hence all randomness of the library, a function of the seed.
func SeedRandom(seed uint64) {
	var k [32]byte
	binary.LittleEndian.PutUint64(k[:], seed)
	binary.LittleEndian.PutUint64(k[8:], ^seed)
	crand.Reader = &lockedReader{r: rand.NewChaCha8(k)}
}

// ---- known findings ----

// Known runs the probe of one recorded finding. The probe returns "" when the library behaves.
// A listed finding that still fails prints a KNOWN-FINDING line; an unlisted one fails the test.
func Known(t *testing.T, property, key string, probe func() string) {
	t.Helper()
	st := &facetStats{Facet: t.Name() + "-" + key, Rule: "one recorded input, re-run", Classes: map[string]int{}, seen: map[uint64]bool{}}
	defer st.flush()
	SeedRandom(1)
	what := func() (s string) {
		defer func() {
			if r := recover(); r != nil {
				s = fmt.Sprintf("panic: %v", r)
			}
		}()
		return probe()
	}()
	st.Evaluations++
	if what == "" {
		return
	}
	if listed(property, key) {
		st.Known = append(st.Known, fmt.Sprintf("%s: %s", key, what))
		return
	}
	t.Errorf("%s: %s", key, what)
}

func listed(property, key string) bool {
	b, err := os.ReadFile(os.Getenv("VH_KNOWN"))
	if err != nil {
		return false
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "known: property="+property+" "+key+" ") {
			return true
		}
	}
	return false
}

// ---- panics ----

// Panics runs f and returns what it panicked with, or "".
func Panics(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprint(r)
			if msg == "" {
				msg = "panic"
			}
		}
	}()
	f()
	return ""
}

// Log2 of x, for notes.
func Log2(x float64) float64 { return math.Log2(x) }
