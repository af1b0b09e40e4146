package props

import (
	"bytes"
	"encoding/binary"
	"math"

	"github.com/apache/datasketches-go/count"
	"verifmc/engine"
)

// C23 (count-min sketch).

type cmKey struct {
	kind int // 0 bytes, 1 uint64, 2 string
	b    []byte
	u    uint64
}

func cmU(u uint64) cmKey  { return cmKey{1, le64(u), u} }
func cmS(s string) cmKey  { return cmKey{2, []byte(s), 0} }
func cmB(b ...byte) cmKey { return cmKey{0, b, 0} }

func (k cmKey) update(s *count.CountMinSketch, w int64) error {
	switch k.kind {
	case 1:
		return s.UpdateUint64(k.u, w)
	case 2:
		return s.UpdateString(string(k.b), w)
	}
	b := append([]byte{}, k.b...)
	err := s.Update(b, w)
	for i := range b {
		b[i] = 0x5A // the caller may reuse its slice
	}
	return err
}

func (k cmKey) est(s *count.CountMinSketch) int64 {
	switch k.kind {
	case 1:
		return s.GetEstimateUint64(k.u)
	case 2:
		return s.GetEstimateString(string(k.b))
	}
	return s.GetEstimate(k.b)
}

func (k cmKey) bounds(s *count.CountMinSketch) (lb, ub int64) {
	if k.kind == 1 {
		return s.GetLowerBoundUint64(k.u), s.GetUpperBoundUint64(k.u)
	}
	return s.GetLowerBound(k.b), s.GetUpperBound(k.b)
}

type cmCfg struct {
	rows int8
	cols int32
	seed int64
}

func (g cmCfg) mk(c *C) *count.CountMinSketch {
	s, err := count.NewCountMinSketch(g.rows, g.cols, g.seed)
	c.NoErr(err, "new")
	c.Assert(s.GetNumHashes() == g.rows && s.GetNumBuckets() == g.cols && s.GetSeed() == g.seed && s.GetTotalWeight() == 0, "parameters", "new sketch: %d x %d seed %d weight %d", s.GetNumHashes(), s.GetNumBuckets(), s.GetSeed(), s.GetTotalWeight())
	return s
}

// cmImage is the serialized sketch, split into its parts.
type cmImage struct {
	raw   []byte
	total int64
	cells []int64
}

func cmSer(c *C, s *count.CountMinSketch) cmImage {
	var w bytes.Buffer
	c.NoErr(s.Serialize(&w), "serialize")
	m := cmImage{raw: w.Bytes()}
	n := int(s.GetNumHashes()) * int(s.GetNumBuckets())
	m.cells = make([]int64, n)
	c.Assert(len(m.raw) >= 16, "image", "image of %d bytes", len(m.raw))
	if len(m.raw) > 16 {
		c.Assert(len(m.raw) == 24+8*n, "image", "image of %d bytes for %d counters", len(m.raw), n)
		m.total = int64(binary.LittleEndian.Uint64(m.raw[16:]))
		for i := range m.cells {
			m.cells[i] = int64(binary.LittleEndian.Uint64(m.raw[24+8*i:]))
		}
	}
	return m
}

// cmPos finds an item's cell in every row by feeding it to an empty sketch.
func cmPos(c *C, g cmCfg, k cmKey) []int {
	s := g.mk(c)
	c.NoErr(k.update(s, 1), "update")
	m := cmSer(c, s)
	var pos []int
	for r := 0; r < int(g.rows); r++ {
		n := 0
		for j := 0; j < int(g.cols); j++ {
			if v := m.cells[r*int(g.cols)+j]; v != 0 {
				c.Assert(v == 1, "cells", "one update of weight 1 left counter %d", v)
				pos = append(pos, r*int(g.cols)+j)
				n++
			}
		}
		c.Assert(n == 1, "cells", "one update changed %d counters of row %d", n, r)
	}
	return pos
}

// cmRef is the exact content: true weights, and the counters they imply.
type cmRef struct {
	g     cmCfg
	pos   [][]int
	w     []int64
	cells []int64
	total int64
}

func newCMRef(g cmCfg, pos [][]int) *cmRef {
	return &cmRef{g, pos, make([]int64, len(pos)), make([]int64, int(g.rows)*int(g.cols)), 0}
}

func (r *cmRef) add(i int, w int64) {
	r.w[i] += w
	r.total += w
	for _, p := range r.pos[i] {
		r.cells[p] += w
	}
}

func (r *cmRef) merge(o *cmRef) {
	for i := range r.w {
		r.w[i] += o.w[i]
	}
	for i := range r.cells {
		r.cells[i] += o.cells[i]
	}
	r.total += o.total
}

func (r *cmRef) clone() *cmRef {
	return &cmRef{r.g, r.pos, append([]int64{}, r.w...), append([]int64{}, r.cells...), r.total}
}

func (r *cmRef) hash() uint64 {
	h := uint64(r.total)
	for _, v := range r.cells {
		h = mix(h, uint64(v))
	}
	for _, v := range r.w {
		h = mix(h, uint64(v))
	}
	return h
}

func (r *cmRef) check(c *C, s *count.CountMinSketch, keys []cmKey) {
	c.Assert(s.GetTotalWeight() == r.total, "total", "total weight %d, want %d", s.GetTotalWeight(), r.total)
	slack := int64(s.GetRelativeError()*float64(r.total)) + 1
	for i, k := range keys {
		e := k.est(s)
		lb, ub := k.bounds(s)
		c.Assert(e >= r.w[i], "underestimate", "item %d (kind %d, % x): estimate %d, true weight %d", i, k.kind, k.b, e, r.w[i])
		c.Assert(e <= r.total, "above-total", "item %d: estimate %d, total weight %d", i, e, r.total)
		c.Assert(lb <= e && e <= ub, "bounds", "item %d: estimate %d not within [%d,%d]", i, e, lb, ub)
		c.Assert(ub <= e+slack, "bounds", "item %d: upper bound %d, estimate %d, relative error times weight %d", i, ub, e, slack)
		want := int64(math.MaxInt64)
		for _, p := range r.pos[i] {
			want = min(want, r.cells[p])
		}
		c.Assert(e == want, "estimate", "item %d: estimate %d, smallest of its counters %d", i, e, want)
	}
	c.Checked()
}

func (r *cmRef) checkState(c *C, s *count.CountMinSketch) cmImage {
	m := cmSer(c, s)
	c.Assert(m.total == r.total || len(m.raw) == 16 && r.total == 0, "image-total", "image holds weight %d, want %d", m.total, r.total)
	for i := range m.cells {
		c.Assert(m.cells[i] == r.cells[i], "state", "counter %d is %d, want %d", i, m.cells[i], r.cells[i])
	}
	return m
}

func cmDecode(c *C, b []byte, seed int64) *count.CountMinSketch {
	var recv count.CountMinSketch
	d, err := recv.Deserialize(b, seed)
	c.NoErr(err, "decode")
	return d
}

func cmRefused(c *C, err error, sig string, s *count.CountMinSketch, before cmImage) {
	c.Assert(err != nil, sig, "accepted")
	c.Assert(eqBytes(cmSer(c, s).raw, before.raw) && s.GetTotalWeight() == before.total, sig+"-changed", "a refused merge changed the sketch")
}

func cmRoundTrip(c *C, r *cmRef, s *count.CountMinSketch, keys []cmKey) *count.CountMinSketch {
	m := r.checkState(c, s)
	d := cmDecode(c, m.raw, r.g.seed)
	c.Assert(d.GetNumHashes() == r.g.rows && d.GetNumBuckets() == r.g.cols && d.GetSeed() == r.g.seed, "decoded-parameters", "decoded %d x %d seed %d", d.GetNumHashes(), d.GetNumBuckets(), d.GetSeed())
	r.check(c, d, keys)
	c.Assert(eqBytes(cmSer(c, d).raw, m.raw), "reencode", "decoding and encoding again changes the image")
	return d
}

// cmAlphabet has n items with the collisions that matter: same cell in every row, in some row, in none.
func cmAlphabet(c *C, g cmCfg, n int) ([]cmKey, [][]int) {
	keys := []cmKey{cmU(1)}
	pos := [][]int{cmPos(c, g, keys[0])}
	overlap := func(a, b []int) int {
		k := 0
		for i := range a {
			if a[i] == b[i] {
				k++
			}
		}
		return k
	}
	want := []int{int(g.rows), 0, max(1, int(g.rows)-1), 1}
	for len(keys) < n {
		w := want[(len(keys)-1)%len(want)]
		found := false
		for u := uint64(2); u < 3000; u++ {
			k := cmU(u)
			if len(keys)%2 == 0 {
				k = cmS(string(rune('a'+u%26)) + string(rune('A'+u/26%26)) + string(rune('0'+u/676)))
			}
			dup := false
			for _, o := range keys {
				dup = dup || eqBytes(o.b, k.b)
			}
			p := cmPos(c, g, k)
			if !dup && overlap(pos[0], p) == w {
				keys, pos, found = append(keys, k), append(pos, p), true
				break
			}
			if u > 200 && w == int(g.rows) {
				w = max(1, w-1)
			}
		}
		if !found {
			k := cmU(uint64(5000 + len(keys)))
			keys, pos = append(keys, k), append(pos, cmPos(c, g, k))
		}
	}
	return keys, pos
}

func cmOps(cfgs []cmCfg, nKeys, depth int) engine.Scenario {
	return engine.Scenario{
		Name:       "operations",
		Bound:      "all operation sequences on two sketches",
		ShardDepth: 3,
		Run: func(c *C) {
			g := cfgs[c.Choose(len(cfgs), "table")]
			c.Logf("table %d x %d seed %d", g.rows, g.cols, g.seed)
			keys, pos := cmAlphabet(c, g, nKeys)
			s := [2]*count.CountMinSketch{g.mk(c), g.mk(c)}
			r := [2]*cmRef{newCMRef(g, pos), newCMRef(g, pos)}
			ws := []int64{1, 3, 0, 1 << 40}
			nUpd := nKeys + len(ws) - 1
			for i := 0; i < depth; i++ {
				op := c.Choose(2*nUpd+6, "op")
				switch {
				case op < 2*nUpd:
					t, k, w := op%2, op/2, int64(1)
					if k >= nKeys {
						w, k = ws[k-nKeys+1], 0
					}
					c.Logf("update %d item %d weight %d", t, k, w)
					c.NoErr(keys[k].update(s[t], w), "update")
					r[t].add(k, w)
				case op < 2*nUpd+2:
					t := op % 2
					c.Logf("merge %d into %d", 1-t, t)
					b := cmSer(c, s[1-t])
					c.NoErr(s[t].Merge(s[1-t]), "merge")
					r[t].merge(r[1-t])
					c.Assert(eqBytes(b.raw, cmSer(c, s[1-t]).raw), "merge-source", "merging changed its source")
				case op == 2*nUpd+2:
					c.Logf("self merge")
					b := cmSer(c, s[0])
					cmRefused(c, s[0].Merge(s[0]), "self-merge", s[0], b)
				case op == 2*nUpd+3:
					c.Logf("incompatible merges")
					for _, og := range []cmCfg{{g.rows + 1, g.cols, g.seed}, {g.rows, g.cols + 1, g.seed}, {g.rows, g.cols, g.seed + 1}, {int8(min(127, int(g.cols))), int32(max(3, int(g.rows))), g.seed}} {
						if og == g {
							continue
						}
						o := og.mk(c)
						c.NoErr(o.UpdateUint64(1, 5), "update")
						b, bo := cmSer(c, s[0]), cmSer(c, o)
						cmRefused(c, s[0].Merge(o), "incompatible-merge", s[0], b)
						cmRefused(c, o.Merge(s[0]), "incompatible-merge", o, bo)
					}
				default:
					t := op % 2
					c.Logf("serialize and decode %d", t)
					s[t] = cmRoundTrip(c, r[t], s[t], keys)
				}
				c.Step()
				for t := range s {
					r[t].check(c, s[t], keys)
				}
				c.State(mix(uint64(g.rows), uint64(g.cols), r[0].hash(), r[1].hash()))
				c.PruneIfSeen(mix(uint64(depth-i), uint64(g.seed), uint64(g.rows), uint64(g.cols), r[0].hash(), r[1].hash()))
			}
			for t := range s {
				cmRoundTrip(c, r[t], s[t], keys)
			}
			c.Outcome(mix(r[0].hash(), r[1].hash()))
		},
	}
}

func cmWeight(shape, i int) int64 {
	switch shape {
	case 0:
		return 1
	case 1:
		return int64(i % 4)
	case 2:
		return int64(1) << (i % 40)
	default:
		return 1<<31 - 2 + int64(i%4)
	}
}

func cmStreams(rows []int, cols []int, seeds []int64, ns []int) engine.Scenario {
	return engine.Scenario{
		Name:       "streams",
		Bound:      "tables, seeds, stream lengths, weight shapes, all split points of the merge",
		ShardDepth: 2,
		Run: func(c *C) {
			g := cmCfg{int8(pickInt(c, "rows", rows...)), int32(pickInt(c, "cols", cols...)), 0}
			g.seed = seeds[c.Choose(len(seeds), "seed")]
			n := pickInt(c, "n", ns...)
			shape := pickInt(c, "weights", 0, 1, 2, 3)
			c.Logf("seed %d", g.seed)
			keys := make([]cmKey, n)
			pos := make([][]int, n)
			for i := range keys {
				switch i % 3 {
				case 0:
					keys[i] = cmU(uint64(i) * 0x9E3779B97F4A7C15)
				case 1:
					keys[i] = cmS("item-" + string(rune('0'+i%10)) + string(rune('a'+i/10)))
				default:
					keys[i] = cmKey{0, bytes.Repeat([]byte{byte(i)}, i), 0}
				}
				pos[i] = cmPos(c, g, keys[i])
			}
			whole := g.mk(c)
			rw := newCMRef(g, pos)
			for i := range keys {
				c.NoErr(keys[i].update(whole, cmWeight(shape, i)), "update")
				rw.add(i, cmWeight(shape, i))
				rw.check(c, whole, keys[:i+1])
				c.Step()
			}
			m := rw.checkState(c, whole)
			step := max(1, n/4)
			for cut := 0; cut <= n; cut += step {
				a, b := g.mk(c), g.mk(c)
				for i := range keys {
					t := a
					if i >= cut {
						t = b
					}
					c.NoErr(keys[i].update(t, cmWeight(shape, i)), "update")
				}
				for _, ser := range []bool{false, true} {
					x, y := a, b
					if ser {
						x, y = cmDecode(c, cmSer(c, b).raw, g.seed), cmDecode(c, cmSer(c, a).raw, g.seed)
						// a already holds the merge
						y = g.mk(c)
						for i := 0; i < cut; i++ {
							c.NoErr(keys[i].update(y, cmWeight(shape, i)), "update")
						}
						y = cmDecode(c, cmSer(c, y).raw, g.seed)
					}
					c.NoErr(x.Merge(y), "merge")
					c.Assert(eqBytes(cmSer(c, x).raw, m.raw), "merge-state", "cut %d: merged state differs from one sketch fed everything", cut)
					rw.check(c, x, keys)
				}
				c.Step()
			}
			cmRoundTrip(c, rw, whole, keys)
			c.Outcome(rw.hash())
		},
	}
}

func cmKeyTypes(maxLen int) engine.Scenario {
	return engine.Scenario{
		Name:  "keys",
		Bound: "byte strings of every length up to the bound, integers around every power of two, all three key types",
		Run: func(c *C) {
			g := cmCfg{int8(pickInt(c, "rows", 1, 2, 5)), int32(pickInt(c, "cols", 3, 4, 97)), 0}
			g.seed = []int64{0, 9001, -1, math.MinInt64, math.MaxInt64}[c.Choose(5, "seed")]
			var keys []cmKey
			if c.Choose(2, "keys") == 0 {
				for n := 1; n <= maxLen; n++ {
					b := make([]byte, n)
					for i := range b {
						b[i] = byte(i*37 + n)
					}
					keys = append(keys, cmB(b...), cmS(string(bytes.Repeat([]byte{'x'}, n))))
				}
			} else {
				keys = append(keys, cmU(0), cmU(math.MaxUint64))
				for i := 1; i < 64; i++ {
					keys = append(keys, cmU(1<<i), cmU(1<<i-1), cmU(^uint64(0)<<i))
				}
				seen := map[uint64]bool{}
				out := keys[:0]
				for _, k := range keys {
					if !seen[k.u] {
						out = append(out, k)
					}
					seen[k.u] = true
				}
				keys = out
			}
			pos := make([][]int, len(keys))
			for i := range keys {
				pos[i] = cmPos(c, g, keys[i])
			}
			s, r := g.mk(c), newCMRef(g, pos)
			// empty items are ignored
			c.NoErr(s.Update(nil, 5), "update-empty")
			c.NoErr(s.Update([]byte{}, 5), "update-empty")
			c.NoErr(s.UpdateString("", 5), "update-empty")
			r.check(c, s, keys)
			c.Assert(s.GetEstimate(nil) == 0 && s.GetEstimateString("") == 0, "empty-item", "an item that is never counted has an estimate")
			for i, k := range keys {
				before := k.est(s)
				c.NoErr(k.update(s, int64(i%5+1)), "update")
				r.add(i, int64(i%5+1))
				c.Assert(k.est(s) >= before, "monotone", "estimate fell from %d to %d", before, k.est(s))
				c.Step()
			}
			r.check(c, s, keys)
			cmRoundTrip(c, r, s, keys)
		},
	}
}

func cmDamage() engine.Scenario {
	return engine.Scenario{
		Name:  "damage",
		Bound: "every truncation, every changed bit of the preamble's identifying fields, every overlong image by up to 16 bytes, other seeds",
		Run: func(c *C) {
			g := cmCfg{int8(pickInt(c, "rows", 1, 2, 3, 127)), int32(pickInt(c, "cols", 3, 4, 5, 17)), 0}
			seeds := []int64{0, 1, 9001, -1, math.MinInt64, math.MaxInt64}
			g.seed = seeds[c.Choose(len(seeds), "seed")]
			n := pickInt(c, "n", 0, 1, 5)
			s := g.mk(c)
			for i := 0; i < n; i++ {
				c.NoErr(s.UpdateUint64(uint64(i), 1), "update")
			}
			img := cmSer(c, s).raw
			for k := 0; k < len(img); k++ {
				_, err := s.Deserialize(append(make([]byte, 0, len(img)), img[:k]...), g.seed)
				c.Assert(err != nil, "truncated", "%d of %d bytes accepted", k, len(img))
			}
			for k := 1; k <= 16; k++ {
				_, err := s.Deserialize(append(append([]byte{}, img...), make([]byte, k)...), g.seed)
				c.Assert(err != nil, "overlong", "%d extra bytes accepted", k)
			}
			for _, o := range []int{0, 1, 2, 13, 14} { // preamble longs, version, family, seed hash
				for bit := 0; bit < 8; bit++ {
					x := append([]byte{}, img...)
					x[o] ^= 1 << bit
					_, err := s.Deserialize(x, g.seed)
					c.Assert(err != nil, "damaged", "image with bit %d of byte %d changed accepted", bit, o)
				}
			}
			for bit := 0; bit < 8; bit++ { // table size
				for o := 8; o < 13; o++ {
					x := append([]byte{}, img...)
					x[o] ^= 1 << bit
					if n == 0 && (o < 12 && int32(binary.LittleEndian.Uint32(x[8:])) >= 3 || o == 12 && int8(x[12]) > 0) {
						continue // a valid empty sketch of another size
					}
					_, err := s.Deserialize(x, g.seed)
					c.Assert(err != nil, "damaged", "image with bit %d of byte %d changed accepted", bit, o)
				}
			}
			x := append([]byte{}, img...)
			x[3] ^= 1
			_, err := s.Deserialize(x, g.seed)
			c.Assert(err != nil, "damaged", "image with the empty flag changed accepted")
			for _, sd := range append(seeds, 2, 3, 1<<32, 9002, -9001) {
				if sd == g.seed {
					continue
				}
				_, err := s.Deserialize(img, sd)
				c.Assert(err != nil, "wrong-seed", "image of seed %d accepted under seed %d", g.seed, sd)
			}
			// write failures are reported
			for lim := 0; lim < len(img); lim += max(1, len(img)/40) {
				c.Assert(s.Serialize(&failWriter{limit: lim}) != nil, "write-error", "a failed write at byte %d was not reported", lim)
			}
			// parameters that make no usable table
			for _, p := range []cmCfg{{0, 10, 1}, {-1, 10, 1}, {1, 2, 1}, {1, 0, 1}, {3, -1, 1}, {4, 268435456, 1}, {127, math.MaxInt32, 1}, {8, 1 << 29, 1}, {3, 1 << 30, 1}} {
				_, err := count.NewCountMinSketch(p.rows, p.cols, p.seed)
				c.Assert(err != nil, "parameters-accepted", "%d x %d accepted", p.rows, p.cols)
			}
			c.Checked()
		},
	}
}

func cmSuggest() engine.Scenario {
	return engine.Scenario{
		Name:  "suggestions",
		Bound: "a grid of relative errors and confidences",
		Run: func(c *C) {
			e := pickF(c, "relative error", 0.9, 0.5, 0.2, 0.1, 0.05, 0.01, 0.001)
			conf := pickF(c, "confidence", 0.1, 0.5, 0.68, 0.9, 0.95, 0.99, 0.9999999, 1)
			b, err := count.SuggestNumBuckets(e)
			c.NoErr(err, "suggest-buckets")
			h, err := count.SuggestNumHashes(conf)
			c.NoErr(err, "suggest-hashes")
			s, err := count.NewCountMinSketch(h, b, 9001)
			c.NoErr(err, "new")
			c.Assert(s.GetRelativeError() <= e*(1+1e-12), "relative-error", "asked for %v, the suggested table has %v", e, s.GetRelativeError())
			c.Assert(math.Exp(-float64(h)) <= (1-conf)*(1+1e-9) || h == 127, "confidence", "%d rows do not reach confidence %v", h, conf)
			var tot int64
			for i := int64(1); i <= 20; i++ {
				c.NoErr(s.UpdateUint64(uint64(i), i), "update")
				tot += i
			}
			for i := int64(1); i <= 20; i++ {
				v := s.GetEstimateUint64(uint64(i))
				c.Assert(v >= i && v <= tot, "underestimate", "item %d: estimate %d", i, v)
			}
			c.Checked()
		},
	}
}

func init() {
	engine.Register(engine.Property{
		ID: "C23",
		Assumptions: []string{
			"weights are not negative and their sum stays below 2^61",
			"the cells of an item are learned by feeding it alone to an empty sketch",
			"damage is a truncation, an overlong image or a changed identifying field; a changed counter cannot be recognised by the format",
		},
		Scenarios: func(tier string) []engine.Scenario {
			cfgs := []cmCfg{{1, 3, 9001}, {2, 3, 0}, {3, 4, -7}}
			rows, cols := []int{1, 2, 3, 8}, []int{3, 4, 5, 7, 64}
			seeds := []int64{0, 9001, math.MinInt64}
			ns := []int{1, 4, 13}
			depth, nk, ml := 5, 3, 40
			if tier == "thorough" {
				cfgs = append(cfgs, cmCfg{1, 4, 1}, cmCfg{4, 3, math.MaxInt64}, cmCfg{2, 5, math.MinInt64}, cmCfg{5, 17, 12345})
				rows, cols = []int{1, 2, 3, 4, 5, 8, 16, 127}, []int{3, 4, 5, 6, 7, 8, 15, 16, 17, 63, 64, 65, 255, 256, 257}
				seeds = append(seeds, -1, 1, math.MaxInt64)
				ns = append(ns, 2, 3, 7, 25)
				depth, nk, ml = 6, 4, 130
			}
			return []engine.Scenario{
				cmOps(cfgs, nk, depth),
				cmStreams(rows, cols, seeds, ns),
				cmKeyTypes(ml),
				cmDamage(),
				cmSuggest(),
			}
		},
	})
}
