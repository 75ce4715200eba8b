package c17

import (
	"testing"

	"vharness/vh"
)

func program(rots func(c *vh.C) int, ops ...string) func(c *vh.C) {
	return func(c *vh.C) {
		e := c.FSession(rots(c))
		for i, n := 0, c.Uni(8, 30, "steps"); i < n; i++ {
			for len(e.Pool) < 3 || c.Chance(1, 10, "fresh") {
				x := e.Fresh(c.Chance(1, 5, "pt"))
				if x.Ct != nil && c.Chance(1, 5, "s2") { // under s^2
					x = &vh.Ent{Ct: e.Enc[1].EncryptNew(e.Ecd.EncodeNew(e.Vec(), x.Ct.Level(), e.P.DefaultScale()/16, e.P.MaxLogSlots())), Key: len(e.S) - 1, Lazy: 1}
				}
				if len(e.Pool) < 10 {
					e.Pool = append(e.Pool, x)
				} else {
					e.Pool[c.Uni(0, 9, "replaced")] = x
				}
			}
			switch op := c.Pick("op", ops...); op {
			case "DecryptToMsg":
				e.Decrypt()
			default:
				if s := e.Step(op); s != nil {
					e.Run(s)
				}
			}
		}
	}
}

const rule = "at least four operations of the session have a result known to better than 1%"

func some(lo, hi int) func(c *vh.C) int { return func(c *vh.C) int { return c.Uni(lo, hi, "rots") } }

// Sessions with every operation.
func TestSession(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 500, Thorough: 4500, Rule: rule}, program(some(1, 3), "EncryptMsg", "EncryptMsg", "Add", "Sub", "MulRelin", "MulRelin", "MulRelin", "Rotate", "Rotate",
		"SwitchKeys", "Rescale", "Rescale", "DropLevel", "DecryptToMsg", "DecryptToMsg", "DecryptToMsg", "MultByConst", "AddConst", "Neg", "Mul", "MultByi", "SetScale"))
}

// Rotations by any amount and key switches.
func TestRotations(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 500, Thorough: 4500, Rule: rule}, program(some(2, 8), "Rotate", "Rotate", "Rotate", "SwitchKeys", "EncryptMsg", "DropLevel", "DecryptToMsg", "Add", "MulRelin"))
}

// Encryption and decryption of messages at all levels, products in between.
func TestMessages(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 500, Thorough: 4500, Rule: rule}, program(some(1, 1), "EncryptMsg", "EncryptMsg", "DecryptToMsg", "DecryptToMsg", "DecryptToMsg", "DropLevel", "Mul", "MulRelin", "Rescale", "AddConst"))
}

// Products at all levels.
func TestProducts(t *testing.T) {
	vh.Check(t, vh.Opts{Quick: 500, Thorough: 4500, Rule: rule}, program(some(1, 1), "MulRelin", "MulRelin", "MulRelin", "Rescale", "DropLevel", "EncryptMsg", "DecryptToMsg", "Add"))
}
