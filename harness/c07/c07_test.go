package c07

import (
	"bytes"
	"testing"

	"fast-ksw/utils"
	"vharness/vh"
)

func key(c *vh.C, label string) []byte {
	l := c.Uni(0, 64, label+".len")
	if c.Chance(1, 6, label+".edge") {
		l = c.PickInt(label+".l", 0, 1, 31, 32, 33, 63, 64)
	}
	r := c.Rng(label)
	k := make([]byte, l)
	if r.IntN(4) > 0 {
		for i := range k {
			k[i] = byte(r.Uint64())
		}
	}
	return k
}

func mk(c *vh.C, k []byte) *utils.KeyedPRNG {
	p, err := utils.NewKeyedPRNG(k)
	if err != nil || p == nil {
		c.Fatalf("NewKeyedPRNG(%d bytes): %v", len(k), err)
	}
	return p
}

type step struct {
	seek bool
	size int
	n    uint64
}

// TestHistory runs a random history on two generators of one key, against a third one that only ever
// clocks single steps, and interleaved with a generator of another key.
func TestHistory(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 6000, Thorough: 20000, Rule: "key of 0..64 bytes, history of 1..12 reads and seeks (forward, to the present, backward); non-trivial: at least one forward seek and one read of at least 16 bytes"}, func(c *vh.C) {
		k := key(c, "key")
		k0 := append([]byte(nil), k...)
		a := mk(c, k)
		for i := range k { // the generator must not keep reading the caller's key
			k[i] ^= 0xff
		}
		b, ref := mk(c, k0), mk(c, k0)
		k2 := append([]byte(nil), k0...)
		if len(k2) == 0 {
			k2 = []byte{1}
		} else {
			k2[c.Uni(0, len(k2)-1, "flip")] ^= byte(1 << c.Uni(0, 7, "bit"))
		}
		d := mk(c, k2)
		var clock uint64
		var seeks, reads, diff int
		var last []byte
		n := c.Uni(1, 12, "steps")
		for i := 0; i < n; i++ {
			size := c.Uni(0, 40, "size")
			if c.Chance(1, 8, "big") {
				size = c.Uni(100, 3000, "bigsize")
			}
			sa, sb, sr, sd := make([]byte, size), make([]byte, size), make([]byte, size), make([]byte, size)
			for j := range sa {
				sa[j], sb[j] = 0xaa, 0x55
			}
			switch c.Uni(0, 3, "op") {
			case 0: // seek forward or stay
				target := clock + uint64(c.Uni(0, 9, "delta"))
				if c.Chance(1, 20, "far") && clock < 1<<18 {
					switch c.Uni(0, 3, "distance") {
					case 0:
						target = clock + uint64(c.Uni(240, 270, "delta256"))
					case 1:
						target = clock + uint64(c.Int(1000, 5000, "delta5000"))
					case 2:
						target = 1<<uint(c.Uni(8, 16, "pow")) + uint64(c.Uni(0, 2, "around")) - 1
						if target < clock {
							target = clock
						}
					default:
						target = clock + 1<<uint(c.Uni(8, 15, "deltapow")) + uint64(c.Uni(0, 2, "around")) - 1
					}
				}
				if err := a.SetClock(sa, target); err != nil {
					c.Fatalf("SetClock(%d) at %d: %v", target, clock, err)
				}
				if err := b.SetClock(sb, target); err != nil {
					c.Fatalf("SetClock: %v", err)
				}
				stepped := target > clock
				for ; clock < target; clock++ {
					ref.Clock(sr)
				}
				if stepped {
					seeks++
					if !bytes.Equal(sa, sr) || !bytes.Equal(sb, sr) {
						c.Fatalf("after seeking to %d the buffer is not the one of the last step", target)
					}
				} else if size > 0 && (sa[0] != 0xaa || sb[0] != 0x55) {
					c.Fatalf("a seek to the present wrote output")
				}
				_ = d.SetClock(sd, target)
			case 1: // backward
				if clock == 0 {
					continue
				}
				target := clock - 1 - uint64(c.Int(0, int(clock)-1, "back"))
				if err := a.SetClock(sa, target); err == nil {
					c.Fatalf("SetClock back from %d to %d accepted", clock, target)
				}
				for _, x := range sa {
					if x != 0xaa {
						c.Fatalf("a refused seek wrote output")
					}
				}
			default:
				a.Clock(sa)
				b.Clock(sb)
				ref.Clock(sr)
				d.Clock(sd)
				clock++
				if size >= 16 {
					reads++
					if !bytes.Equal(sa, sd) {
						diff++
					} else {
						c.Fatalf("keys %x and %x give the same output", k0, k2)
					}
					if bytes.Equal(sa, last) {
						c.Fatalf("output repeats")
					}
					last = append([]byte(nil), sa...)
				}
				if !bytes.Equal(sa, sb) || !bytes.Equal(sa, sr) {
					c.Fatalf("same key, same requests, different output at step %d", clock)
				}
			}
			if a.GetClock() != clock || b.GetClock() != clock || ref.GetClock() != clock || d.GetClock() != clock {
				c.Fatalf("clock %d,%d,%d, want %d", a.GetClock(), b.GetClock(), ref.GetClock(), clock)
			}
		}
		c.NonTrivial(seeks > 0 && reads > 0)
	})
}

// TestUnkeyed: generators without a key differ from each other and from keyed ones.
func TestUnkeyed(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 600, Thorough: 4000, Rule: "several unkeyed generators compared pairwise; every case non-trivial"}, func(c *vh.C) {
		n := c.Uni(2, 6, "n")
		size := c.Uni(16, 80, "size")
		seen := map[string]bool{}
		nk := mk(c, nil)
		ek := mk(c, []byte{})
		s, s2 := make([]byte, size), make([]byte, size)
		nk.Clock(s)
		ek.Clock(s2)
		if !bytes.Equal(s, s2) {
			c.Fatalf("nil and empty key differ")
		}
		seen[string(s)] = true
		for i := 0; i < n; i++ {
			p, err := utils.NewPRNG()
			if err != nil || p.GetClock() != 0 {
				c.Fatalf("NewPRNG: %v", err)
			}
			for k := 0; k < 2; k++ {
				s := make([]byte, size)
				p.Clock(s)
				if seen[string(s)] {
					c.Fatalf("unkeyed output repeats")
				}
				seen[string(s)] = true
			}
		}
		c.NonTrivial(true)
	})
}
