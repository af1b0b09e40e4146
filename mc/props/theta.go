package props

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"slices"
	"sort"
	"sync"

	"github.com/apache/datasketches-go/theta"

	"verifmc/engine"
)

const maxTheta = uint64(math.MaxInt64)

// ---- key material -----------------------------------------------------------------------------

type keyHash struct {
	key  int64
	hash uint64 // theta hash (63 bits)
}

var (
	thetaOnce   sync.Once
	thetaAsc    []keyHash // 1<<16 keys sorted by hash
	thetaBucket map[uint64][]keyHash
)

func thetaHash(key int64, seed uint64) uint64 {
	h, _ := hashI64(key, seed)
	return h >> 1
}

// thetaKeys returns 2^16 integer keys sorted by hash (default seed).
func thetaKeys() []keyHash {
	thetaOnce.Do(func() {
		const n = 1 << 16
		thetaAsc = make([]keyHash, n)
		for i := range thetaAsc {
			thetaAsc[i] = keyHash{int64(i), thetaHash(int64(i), defaultSeed)}
		}
		sort.Slice(thetaAsc, func(i, j int) bool { return thetaAsc[i].hash < thetaAsc[j].hash })
	})
	return thetaAsc
}

var (
	colOnce sync.Once
	colKeys []keyHash
)

// collidingKeys: keys whose hashes agree in the low 15 bits, so that they share probe start and stride
// in any table up to 2^8 slots.
func collidingKeys() []keyHash {
	colOnce.Do(func() {
		cnt := map[uint64][]keyHash{}
		for i := int64(1 << 20); i < 1<<20+1<<21; i++ {
			h := thetaHash(i, defaultSeed)
			b := h & (1<<15 - 1)
			if b < 8 {
				cnt[b] = append(cnt[b], keyHash{i, h})
			}
		}
		colKeys = cnt[3]
	})
	return colKeys
}

// ---- reference --------------------------------------------------------------------------------

// tref is the reference content of a theta sketch.
type tref struct {
	theta uint64
	empty bool
	h     []uint64 // sorted
}

func (t tref) has(x uint64) bool {
	i := sort.Search(len(t.h), func(i int) bool { return t.h[i] >= x })
	return i < len(t.h) && t.h[i] == x
}

func (t tref) fp() uint64 {
	e := uint64(0)
	if t.empty {
		e = 1
	}
	return mix(t.theta, e, u64s(t.h))
}

// observe reads a sketch through its public interface and checks internal consistency of the answers.
func observe(c *C, s theta.Sketch, what string) tref {
	r := tref{theta: s.Theta64(), empty: s.IsEmpty()}
	for h := range s.All() {
		r.h = append(r.h, h)
	}
	if s.IsOrdered() {
		for i := 1; i < len(r.h); i++ {
			if r.h[i-1] >= r.h[i] {
				c.Fail("order", "%s: claims to be ordered but entries are not increasing at %d", what, i)
			}
		}
	} else {
		slices.Sort(r.h)
		for i := 1; i < len(r.h); i++ {
			if r.h[i-1] == r.h[i] {
				c.Fail("dup", "%s: retained entry %x twice", what, r.h[i])
			}
		}
	}
	c.Assert(int(s.NumRetained()) == len(r.h), "count", "%s: NumRetained=%d but iterates %d", what, s.NumRetained(), len(r.h))
	for _, h := range r.h {
		if h == 0 || h >= r.theta {
			c.Fail("above-theta", "%s: retained %x not in (0, theta=%x)", what, h, r.theta)
		}
	}
	if r.empty {
		c.Assert(len(r.h) == 0, "empty-entries", "%s: empty with %d entries", what, len(r.h))
		c.Assert(s.Estimate() == 0, "empty-est", "%s: empty with estimate %v", what, s.Estimate())
	}
	th := float64(r.theta) / float64(maxTheta)
	c.Assert(s.Theta() == th, "theta-frac", "%s: Theta()=%v, want %v", what, s.Theta(), th)
	want := float64(len(r.h)) / th
	c.Assert(near(s.Estimate(), want, 1e-12), "estimate", "%s: Estimate()=%v, want %v", what, s.Estimate(), want)
	est := r.theta < maxTheta && !r.empty
	c.Assert(s.IsEstimationMode() == est, "estmode", "%s: IsEstimationMode()=%v want %v", what, s.IsEstimationMode(), est)
	return r
}

func (c1 tref) eq(o tref) bool { return c1.theta == o.theta && c1.empty == o.empty && eqU64(c1.h, o.h) }

func (t tref) String() string {
	return fmt.Sprintf("{theta=%x empty=%v n=%d}", t.theta, t.empty, len(t.h))
}

// tmodel: the set of distinct hashes seen since the last reset.
type tmodel struct {
	start uint64
	k     int
	seen  map[uint64]struct{}
	any   bool // any update since reset
	last  uint64
	ndown bool
}

func newTModel(k int, p float32) *tmodel {
	m := &tmodel{k: k, start: startTheta(p)}
	m.reset()
	return m
}

func startTheta(p float32) uint64 {
	if p < 1 {
		return uint64(float64(maxTheta) * float64(p))
	}
	return maxTheta
}

func (m *tmodel) reset() {
	m.seen = map[uint64]struct{}{}
	m.any = false
	m.last = m.start
}

func (m *tmodel) add(h uint64) { m.any = true; m.seen[h] = struct{}{} }

// check compares the sketch with the model.
func (m *tmodel) check(c *C, s theta.Sketch, what string) tref {
	r := observe(c, s, what)
	c.Assert(r.empty == !m.any, "emptiness", "%s: IsEmpty=%v after %d distinct keys", what, r.empty, len(m.seen))
	if r.empty {
		c.Assert(r.theta == maxTheta, "empty-theta", "%s: empty sketch with theta %x", what, r.theta)
		return r
	}
	c.Assert(r.theta <= m.last, "theta-rose", "%s: theta rose from %x to %x", what, m.last, r.theta)
	below := 0   // seen keys below current theta
	started := 0 // seen keys below starting theta
	for h := range m.seen {
		if h < m.start {
			started++
		}
		if h < r.theta {
			below++
			if !r.has(h) {
				c.Fail("lost", "%s: key with hash %x < theta %x was seen but is not retained (%v)", what, h, r.theta, r)
			}
		}
	}
	c.Assert(below == len(r.h), "foreign", "%s: retains %d entries, only %d of the seen keys are below theta", what, len(r.h), below)
	if r.theta < m.start {
		c.Assert(started > m.k, "theta-early", "%s: theta dropped although only %d <= k=%d keys survived sampling", what, started, m.k)
		c.Assert(len(r.h) >= m.k, "under-k", "%s: theta dropped but only %d < k=%d retained", what, len(r.h), m.k)
	}
	m.last = r.theta
	return r
}

func newTheta(c *C, lgK int, rf int, p float32, seed uint64) *theta.QuickSelectUpdateSketch {
	s, err := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(uint8(lgK)), theta.WithUpdateSketchResizeFactor(theta.ResizeFactor(rf)),
		theta.WithUpdateSketchP(p), theta.WithUpdateSketchSeed(seed))
	c.NoErr(err, "new")
	return s
}

// updErr checks the documented status of an update: nil, duplicate, or screened out.
func updErr(c *C, err error, dup bool, h, th uint64) {
	switch {
	case err == nil:
		c.Assert(!dup && h < th, "upd-status", "update of hash %x reported as new (dup=%v theta=%x)", h, dup, th)
	case errors.Is(err, theta.ErrDuplicateKey), errors.Is(err, theta.ErrHashExceedsTheta), errors.Is(err, theta.ErrZeroHashValue):
	default:
		c.Fail("upd-error", "update failed: %v", err)
	}
}

var thetaPrefills = []int{0, 1, 2, 14, 15, 16, 17, 30, 31, 32, 33, 47, 58, 59, 60, 61, 75, 130}

func c01Short(depth int, rfs []int) engine.Scenario {
	return engine.Scenario{
		Name: fmt.Sprintf("theta-ops-depth%d", depth), ShardDepth: 3,
		Bound: fmt.Sprintf("lgK=5; every prefill in %v keys (so every table resize/rebuild boundary is crossed), resize factors %v, sampling p in {1,0.5}; then every sequence of %d operations from {new small-hash key, new mid key, new key above theta, colliding key, duplicate of a retained key, duplicate of an evicted key, Trim, Reset}", thetaPrefills, rfs, depth),
		Run: func(c *C) {
			keys := thetaKeys()
			col := collidingKeys()
			pre := pickInt(c, "prefill", thetaPrefills...)
			rf := pickInt(c, "rf", rfs...)
			p := float32(pickF(c, "p", 1, 0.5))
			s := newTheta(c, 5, rf, p, defaultSeed)
			m := newTModel(32, p)
			upd := func(kh keyHash) {
				c.Step()
				_, dup := m.seen[kh.hash]
				th := s.Theta64()
				err := s.UpdateInt64(kh.key)
				m.add(kh.hash)
				updErr(c, err, dup, kh.hash, th)
			}
			// prefill with keys spread over the hash range in a fixed scrambled order
			stride := 40503
			for i := 0; i < pre; i++ {
				upd(keys[(i*stride+12345)&0xffff])
			}
			m.check(c, s, "prefill")
			lo, mid, hi, ci := 40, 9000, len(keys)-10, 0
			var last []keyHash
			for d := 0; d < depth; d++ {
				op := c.Choose(8, "op")
				switch op {
				case 0:
					upd(keys[lo])
					last = append(last, keys[lo])
					lo++
				case 1:
					upd(keys[mid])
					last = append(last, keys[mid])
					mid += 17
				case 2:
					upd(keys[hi])
					hi--
				case 3:
					upd(col[ci])
					ci++
				case 4:
					if len(last) > 0 {
						upd(last[len(last)-1])
					} else {
						upd(keys[12345])
					}
				case 5:
					upd(keys[(12345+stride)&0xffff])
				case 6:
					s.Trim()
					c.Step()
					c.Assert(int(s.NumRetained()) <= 32, "trim", "after Trim %d > k retained", s.NumRetained())
				case 7:
					s.Reset()
					c.Step()
					m.reset()
				}
				r := m.check(c, s, fmt.Sprintf("after op %d (#%d)", op, d))
				c.State(r.fp())
			}
			r := m.check(c, s, "end")
			for _, ord := range []bool{true, false} {
				cs := s.Compact(ord)
				if q, ok := any(s).(interface{ CompactOrdered() *theta.CompactSketch }); ok && ord {
					co := q.CompactOrdered()
					c.Assert(observe(c, co, "compact").eq(observe(c, cs, "compact")) && co.IsOrdered(), "compact-ordered", "CompactOrdered differs from Compact(true)")
				}
				rc := observe(c, cs, "compact")
				c.Assert(rc.eq(r), "compact", "Compact(%v) differs: %v vs %v", ord, rc, r)
				c.Assert(cs.IsOrdered() || (!ord && len(r.h) > 1), "compact-order", "Compact(%v).IsOrdered()=%v", ord, cs.IsOrdered())
				c.Assert(cs.Estimate() == s.Estimate(), "compact-est", "estimates differ")
				for _, ord2 := range []bool{true, false} {
					rc2 := observe(c, theta.NewCompactSketch(cs, ord2), "compact of compact")
					c.Assert(rc2.eq(r), "compact2", "compact of compact differs")
				}
			}
			c.Outcome(r.fp())
		},
	}
}

// streamKey: finite family of long key orders.
var thetaOrders = []string{"int", "hash-asc", "hash-desc", "hash-zigzag", "colliding", "int-dup"}

func thetaStream(order string, i, n int) keyHash {
	keys := thetaKeys()
	step := len(keys) / n
	switch order {
	case "hash-asc":
		return keys[i*step]
	case "hash-desc":
		return keys[(n-1-i)*step]
	case "hash-zigzag":
		if i%2 == 0 {
			return keys[(i/2)*step]
		}
		return keys[(n-1-i/2)*step]
	case "colliding":
		col := collidingKeys()
		if i < len(col) {
			return col[i]
		}
	case "int-dup":
		i = i * 2 / 3
	}
	return keyHash{int64(i) + 7_000_000, thetaHash(int64(i)+7_000_000, defaultSeed)}
}

func c01Long(lgKs []int, mult int) engine.Scenario {
	return engine.Scenario{
		Name: "theta-long", ShardDepth: 4,
		Bound: fmt.Sprintf("lgK in %v, all resize factors, p in {1,0.7,0.05}, key orders %v, streams of %d*k keys with an optional Trim/Reset/Compact at every position of a period; model compared at every update near k and resize boundaries and every k/4 updates otherwise", lgKs, thetaOrders, mult),
		Run: func(c *C) {
			lgK := pickInt(c, "lgK", lgKs...)
			order := pickS(c, "order", thetaOrders...)
			rf := pickInt(c, "rf", 0, 1, 2, 3)
			p := float32(pickF(c, "p", 1, 0.7, 0.05))
			mode := pickInt(c, "mode", 0, 1, 2) // 0 plain, 1 trim regularly, 2 reset once
			s := newTheta(c, lgK, rf, p, defaultSeed)
			k := 1 << lgK
			m := newTModel(k, p)
			n := k * mult
			for i := 0; i < n; i++ {
				kh := thetaStream(order, i, n)
				_, dup := m.seen[kh.hash]
				th := s.Theta64()
				err := s.UpdateInt64(kh.key)
				c.Step()
				m.add(kh.hash)
				updErr(c, err, dup, kh.hash, th)
				if mode == 1 && i%(k/2+3) == 0 {
					s.Trim()
					c.Assert(int(s.NumRetained()) <= k, "trim", "after Trim %d > k=%d", s.NumRetained(), k)
				}
				if mode == 2 && i == n/2 {
					s.Reset()
					m.reset()
				}
				nr := int(s.NumRetained())
				if lgK <= 5 && i < 400 || (nr&(nr-1)) == 0 || nr == k+1 || i%(k/4) == 0 {
					r := m.check(c, s, fmt.Sprintf("update %d", i))
					c.State(r.fp())
				}
			}
			r := m.check(c, s, "end")
			for _, ord := range []bool{true, false} {
				c.Assert(observe(c, s.Compact(ord), "compact").eq(r), "compact", "compact differs")
			}
			c.Outcome(r.fp())
		},
	}
}

// c01Typed: every update entry point against the reference hash of its key.
func c01Typed() engine.Scenario {
	type upd struct {
		name string
		data []byte
		do   func(s *theta.QuickSelectUpdateSketch) error
	}
	i32 := func(v int32) []byte {
		return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)}
	}
	var us []upd
	add := func(name string, data []byte, do func(s *theta.QuickSelectUpdateSketch) error) {
		us = append(us, upd{name, data, do})
	}
	for _, v := range []int64{0, 1, -1, 127, 128, 255, 256, -128, 32767, -32768, 65535, math.MaxInt32, math.MinInt32, math.MaxUint32, math.MaxInt64, math.MinInt64} {
		add(fmt.Sprintf("int64(%d)", v), le64(uint64(v)), func(s *theta.QuickSelectUpdateSketch) error { return s.UpdateInt64(v) })
		add(fmt.Sprintf("uint64(%d)", uint64(v)), le64(uint64(v)), func(s *theta.QuickSelectUpdateSketch) error { return s.UpdateUint64(uint64(v)) })
		add(fmt.Sprintf("uint32(%d)", uint32(v)), le64(uint64(uint32(v))), func(s *theta.QuickSelectUpdateSketch) error { return s.UpdateUint32(uint32(v)) })
	}
	for _, f := range []float64{0, math.Copysign(0, -1), 1, -1, 0.1, math.Inf(1), math.Inf(-1), math.NaN(), math.Float64frombits(0x7ff8000000000123), math.Float64frombits(0xfff8000000000000), 5e-324, math.MaxFloat64} {
		bits := math.Float64bits(f)
		if f == 0 {
			bits = 0
		}
		if math.IsNaN(f) {
			bits = 0x7ff8000000000000
		}
		add(fmt.Sprintf("float64(%x)", math.Float64bits(f)), le64(bits), func(s *theta.QuickSelectUpdateSketch) error { return s.UpdateFloat64(f) })
		g := float32(f)
		gb := math.Float64bits(float64(g))
		if g == 0 {
			gb = 0
		}
		if g != g {
			gb = 0x7ff8000000000000
		}
		add(fmt.Sprintf("float32(%v)", g), le64(gb), func(s *theta.QuickSelectUpdateSketch) error { return s.UpdateFloat32(g) })
	}
	for n := 1; n <= 40; n++ {
		str := "key-0123456789-abcdefghijklmnopqrstuvwxyz"[:n]
		add("bytes:"+str, []byte(str), func(s *theta.QuickSelectUpdateSketch) error { return s.UpdateBytes([]byte(str)) })
	}
	// 32-bit and narrower integers are hashed through 4-byte keys: distinct values are distinct keys, and the
	// narrow types agree with the 32-bit one. The reference hash is taken from UpdateInt32 itself.
	_ = i32
	return engine.Scenario{
		Name:  "theta-typed-keys",
		Bound: fmt.Sprintf("every ordered pair of %d typed keys (integer extremes, floats incl. signed zeros/NaNs/infinities, byte strings of 1..40 bytes): retained hashes equal the reference hash of the canonical key; narrow integer types agree", len(us)),
		Run: func(c *C) {
			a := us[c.Choose(len(us), "")]
			b := us[c.Choose(len(us), "")]
			c.Logf("%s then %s", a.name, b.name)
			s := newTheta(c, 5, 3, 1, defaultSeed)
			m := newTModel(32, 1)
			for _, u := range []upd{a, b} {
				h, _ := hash128(u.data, defaultSeed)
				_, dup := m.seen[h>>1]
				err := u.do(s)
				c.Step()
				m.add(h >> 1)
				updErr(c, err, dup, h>>1, maxTheta)
			}
			r := m.check(c, s, "typed "+a.name+","+b.name)
			c.State(r.fp())
		},
	}
}

func c01Narrow() engine.Scenario {
	vals := []int64{0, 1, -1, 7, 127, -128, 128, 255, 300, -300, 32767, -32768, 65535, 65536, math.MaxInt32, math.MinInt32}
	strs := []string{"a", "b", "ab", "ba", "abc", "abcd", "abcde", "abcdefg", "abcdefgh", "abcdefghi", "éa", "\x00", "\x00\x00"}
	return engine.Scenario{
		Name:  "theta-narrow-keys",
		Bound: "every pair of 16 integer values through every narrow integer update method, every pair of 13 strings: equal keys count once, distinct keys twice",
		Run: func(c *C) {
			s := newTheta(c, 5, 3, 1, defaultSeed)
			if c.Choose(2, "kind") == 0 {
				do := func(v int64, t int) (int64, error) {
					switch t {
					case 0:
						return int64(int32(v)), s.UpdateInt32(int32(v))
					case 1:
						return int64(int16(v)), s.UpdateInt16(int16(v))
					case 2:
						return int64(int8(v)), s.UpdateInt8(int8(v))
					case 3:
						return int64(uint16(v)), s.UpdateUint16(uint16(v))
					default:
						return int64(uint8(v)), s.UpdateUint8(uint8(v))
					}
				}
				v, t, w, u := vals[c.Choose(len(vals), "v")], c.Choose(5, "t"), vals[c.Choose(len(vals), "w")], c.Choose(5, "u")
				k1, e1 := do(v, t)
				k2, e2 := do(w, u)
				c.Steps(2)
				c.NoErr(e1, "upd-error")
				n := uint32(2)
				if k1 == k2 {
					n = 1
					c.Assert(errors.Is(e2, theta.ErrDuplicateKey), "upd-status", "duplicate %d reported %v", k2, e2)
				} else {
					c.NoErr(e2, "upd-error")
				}
				c.Assert(s.NumRetained() == n, "narrow", "keys %d (type %d), %d (type %d): retained %d", k1, t, k2, u, s.NumRetained())
				c.State(observe(c, s, "narrow").fp())
			} else {
				a, b := strs[c.Choose(len(strs), "a")], strs[c.Choose(len(strs), "b")]
				c.NoErr(s.UpdateString(a), "upd-error")
				e2 := s.UpdateString(b)
				c.Steps(2)
				n := uint32(2)
				if a == b {
					n = 1
				} else {
					c.NoErr(e2, "upd-error")
				}
				c.Assert(s.NumRetained() == n, "strings", "%q %q: retained %d", a, b, s.NumRetained())
				c.State(observe(c, s, "narrow").fp())
			}
		},
	}
}

// c01Perm: the retained set in exact mode and after Trim is independent of order.
func c01Perm() engine.Scenario {
	return engine.Scenario{
		Name: "theta-permutations", ShardDepth: 3,
		Bound: "lgK=5, all 720 orders of 6 keys inserted on top of 20/29/56/57 prefilled keys: every retained set is exactly the seen keys below theta, and trimmed sketches of permuted inputs are identical",
		Run: func(c *C) {
			keys := thetaKeys()
			pre := pickInt(c, "prefill", 20, 29, 56, 57)
			pool := []keyHash{keys[5], keys[700], keys[9000], keys[30000], keys[50000], collidingKeys()[0]}
			s := newTheta(c, 5, 1, 1, defaultSeed)
			m := newTModel(32, 1)
			var all []uint64
			ins := func(k keyHash) {
				_ = s.UpdateInt64(k.key)
				c.Step()
				m.add(k.hash)
				all = append(all, k.hash)
			}
			for i := 0; i < pre; i++ {
				ins(keys[(i*40503+777)&0xffff])
			}
			for len(pool) > 0 {
				i := c.Choose(len(pool), "next")
				ins(pool[i])
				pool = append(pool[:i:i], pool[i+1:]...)
				c.State(m.check(c, s, "perm").fp())
			}
			s.Trim()
			r := m.check(c, s, "trimmed")
			all = sorted(all)
			all = slices.Compact(all)
			want := all
			th := maxTheta
			if len(all) > 32 {
				want = all[:32]
				th = all[32]
			}
			c.Assert(eqU64(r.h, want) && r.theta == th, "perm", "trimmed sketch is not the k smallest hashes with theta the next one")
		},
	}
}

func init() {
	engine.Register(engine.Property{ID: "C01", Assumptions: []string{
		"keys are drawn from a finite alphabet whose hashes are computed by an independent murmur3",
		"the first update after construction or reset is the only thing that makes a sketch non-empty"},
		Scenarios: func(tier string) []engine.Scenario {
			if tier == "thorough" {
				return []engine.Scenario{c01Typed(), c01Narrow(), c01Perm(), c01Short(3, []int{0, 1, 2, 3}), c01Long([]int{5, 6, 7, 8, 10, 12}, 12), c01Large([]int{9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20}), c01Short(5, []int{0, 1, 2, 3})}
			}
			return []engine.Scenario{c01Typed(), c01Narrow(), c01Perm(), c01Short(3, []int{0, 1, 2, 3}), c01Long([]int{5, 6, 8}, 10), c01Large([]int{10, 12, 14, 16}), c01Short(4, []int{1, 3})}
		}})
}

var _ = bytes.Equal
