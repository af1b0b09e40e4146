// Package props holds one file per sketch family: scenarios (closed drivers), reference models and oracles.
package props

import (
	"encoding/binary"
	"fmt"
	"math"
	"sort"

	"github.com/twmb/murmur3"

	"verifmc/engine"
)

type C = engine.Ctx

const defaultSeed = uint64(9001)

func le64(v uint64) []byte {
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], v)
	return b[:]
}

func hash128(b []byte, seed uint64) (uint64, uint64) { return murmur3.SeedSum128(seed, seed, b) }

// hashI64 is the reference hash of a 64-bit integer key.
func hashI64(v int64, seed uint64) (uint64, uint64) {
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], uint64(v))
	return murmur3.SeedSum128(seed, seed, b[:])
}

func u64s(a []uint64) uint64 {
	h := uint64(1469598103934665603)
	for _, x := range a {
		h ^= x
		h *= 0x9e3779b97f4a7c15
		h ^= h >> 31
	}
	return h
}

func mix(a ...uint64) uint64 { return u64s(a) }

func sorted(a []uint64) []uint64 {
	b := append([]uint64{}, a...)
	sort.Slice(b, func(i, j int) bool { return b[i] < b[j] })
	return b
}

func eqU64(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func eqBytes(a, b []byte) bool { return string(a) == string(b) }

func sameF(a, b float64) bool {
	return a == b || (math.IsNaN(a) && math.IsNaN(b))
}

func near(a, b, rel float64) bool {
	if sameF(a, b) {
		return true
	}
	d := math.Abs(a - b)
	return d <= rel*math.Max(math.Abs(a), math.Abs(b)) || d < 1e-300
}

func pickInt(c *C, label string, opts ...int) int {
	v := opts[c.Choose(len(opts), "")]
	if c.Tracing() {
		c.Logf("%s=%d", label, v)
	}
	return v
}

func pickF(c *C, label string, opts ...float64) float64 {
	v := opts[c.Choose(len(opts), "")]
	if c.Tracing() {
		c.Logf("%s=%v", label, v)
	}
	return v
}

func pickS(c *C, label string, opts ...string) string {
	v := opts[c.Choose(len(opts), "")]
	if c.Tracing() {
		c.Logf("%s=%s", label, v)
	}
	return v
}

func short(v any) string {
	s := fmt.Sprint(v)
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}
