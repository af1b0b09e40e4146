package props

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/bits"

	"github.com/apache/datasketches-go/filters"
	"verifmc/engine"
)

// C24 (Bloom filter).

// bfItem is one item of one of the seven kinds.
type bfItem struct {
	kind int
	u    uint64
	f    float64
	s    string
	b    []byte
	is   []int64
	fs   []float64
}

const bfKinds = 7

func (x bfItem) String() string {
	switch x.kind {
	case 0:
		return fmt.Sprintf("uint64 %d", x.u)
	case 1:
		return fmt.Sprintf("int64 %d", int64(x.u))
	case 2:
		return fmt.Sprintf("string %q", x.s)
	case 3:
		return fmt.Sprintf("bytes % x", x.b)
	case 4:
		return fmt.Sprintf("float64 %v", x.f)
	case 5:
		return fmt.Sprintf("int64s %v", x.is)
	}
	return fmt.Sprintf("float64s %v", x.fs)
}

func (x bfItem) update(f filters.BloomFilter) error {
	switch x.kind {
	case 0:
		return f.UpdateUInt64(x.u)
	case 1:
		return f.UpdateInt64(int64(x.u))
	case 2:
		return f.UpdateString(x.s)
	case 3:
		return f.UpdateSlice(x.b)
	case 4:
		return f.UpdateFloat64(x.f)
	case 5:
		return f.UpdateInt64Array(x.is)
	}
	return f.UpdateFloat64Array(x.fs)
}

func (x bfItem) query(f filters.BloomFilter) bool {
	switch x.kind {
	case 0:
		return f.QueryUInt64(x.u)
	case 1:
		return f.QueryInt64(int64(x.u))
	case 2:
		return f.QueryString(x.s)
	case 3:
		return f.QuerySlice(x.b)
	case 4:
		return f.QueryFloat64(x.f)
	case 5:
		return f.QueryInt64Array(x.is)
	}
	return f.QueryFloat64Array(x.fs)
}

func (x bfItem) qau(f filters.BloomFilter) bool {
	switch x.kind {
	case 0:
		return f.QueryAndUpdateUInt64(x.u)
	case 1:
		return f.QueryAndUpdateInt64(int64(x.u))
	case 2:
		return f.QueryAndUpdateString(x.s)
	case 3:
		return f.QueryAndUpdateSlice(x.b)
	case 4:
		return f.QueryAndUpdateFloat64(x.f)
	case 5:
		return f.QueryAndUpdateInt64Array(x.is)
	}
	return f.QueryAndUpdateFloat64Array(x.fs)
}

// bfItemN is item i of a stream that goes through the kinds.
func bfItemN(kind, i int) bfItem {
	x := bfItem{kind: kind}
	switch kind {
	case 0, 1:
		x.u = uint64(i)
		if i%3 == 1 {
			x.u = uint64(-int64(i))
		} else if i%3 == 2 {
			x.u = uint64(i) * 0x9E3779B97F4A7C15
		}
	case 2:
		x.s = fmt.Sprintf("item %d", i)
		for len(x.s) < i%40 {
			x.s += "é"
		}
	case 3:
		x.b = make([]byte, i%41+1)
		for k := range x.b {
			x.b[k] = byte(i + k*3)
		}
	case 4:
		x.f = []float64{0, 1.5, -1, math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, math.SmallestNonzeroFloat64, -math.MaxFloat64}[i%9] + float64(i/9)
	case 5:
		for k := 0; k <= i%5; k++ {
			x.is = append(x.is, int64(i-k*k))
		}
	case 6:
		for k := 0; k <= i%5; k++ {
			x.fs = append(x.fs, float64(i)/4-float64(k))
		}
	}
	return x
}

type bfCfg struct {
	bits   uint64
	hashes uint16
	seed   uint64
}

func (g bfCfg) mk(c *C) filters.BloomFilter {
	f, err := filters.NewBloomFilterBySize(g.bits, g.hashes, filters.WithSeed(g.seed))
	c.NoErr(err, "new")
	c.Assert(f.NumHashes() == g.hashes && f.Seed() == g.seed && f.Capacity() >= g.bits && f.Capacity() < g.bits+64, "parameters", "asked for %d bits, %d hashes, seed %d; got %d, %d, %d", g.bits, g.hashes, g.seed, f.Capacity(), f.NumHashes(), f.Seed())
	return f
}

// bfBits reads the bits out of the image.
func bfBits(c *C, f filters.BloomFilter) []uint64 {
	b, err := f.ToCompactSlice()
	c.NoErr(err, "serialize")
	return bfParse(c, f, b)
}

func bfParse(c *C, f filters.BloomFilter, b []byte) []uint64 {
	n := int(f.Capacity() / 64)
	w := make([]uint64, n)
	if len(b) == 24 {
		return w
	}
	c.Assert(len(b) == 32+8*n, "image", "image of %d bytes for %d words", len(b), n)
	for i := range w {
		w[i] = binary.LittleEndian.Uint64(b[32+8*i:])
	}
	return w
}

func popcount(w []uint64) (n uint64) {
	for _, x := range w {
		n += uint64(bits.OnesCount64(x))
	}
	return
}

// bfProbe is the set of bits of one item.
func bfProbe(c *C, g bfCfg, x bfItem) []uint64 {
	f := g.mk(c)
	c.NoErr(x.update(f), "update")
	w := bfBits(c, f)
	n := popcount(w)
	c.Assert(n >= 1 && n <= uint64(g.hashes), "bits-of-item", "%v set %d bits with %d hashes", x, n, g.hashes)
	return w
}

func orInto(a, b []uint64) {
	for i := range a {
		a[i] |= b[i]
	}
}

func subset(a, b []uint64) bool {
	for i := range a {
		if a[i]&^b[i] != 0 {
			return false
		}
	}
	return true
}

// bfWant is the answer of a query: an empty filter contains nothing.
func bfWant(state, item []uint64) bool { return popcount(state) > 0 && subset(item, state) }

func bfCheck(c *C, f filters.BloomFilter, state []uint64, items []bfItem, probes [][]uint64, inOrder int) {
	used := func() {
		c.Assert(f.BitsUsed() == popcount(state), "bits-used", "BitsUsed %d, %d bits are set", f.BitsUsed(), popcount(state))
	}
	image := func() {
		w := bfBits(c, f)
		c.Assert(eqU64(w, state), "bits", "bits %x, want %x", w, state)
	}
	query := func() {
		for i, x := range items {
			c.Assert(x.query(f) == bfWant(state, probes[i]), "query", "query of %v: %v, want %v", x, x.query(f), bfWant(state, probes[i]))
		}
	}
	empty := func() {
		c.Assert(f.IsEmpty() == (popcount(state) == 0), "empty", "IsEmpty %v with %d bits set", f.IsEmpty(), popcount(state))
	}
	obs := []func(){used, image, query, empty}
	for i := range obs {
		obs[(i+inOrder)%len(obs)]()
	}
	c.Checked()
}

func bfRoundTrip(c *C, f filters.BloomFilter, state []uint64, items []bfItem, probes [][]uint64) filters.BloomFilter {
	b, err := f.ToCompactSlice()
	c.NoErr(err, "serialize")
	in := append([]byte{}, b...)
	d, err := filters.NewBloomFilterFromSlice(in)
	c.NoErr(err, "decode")
	for i := range in {
		in[i] = 0xA5
	}
	c.Assert(d.NumHashes() == f.NumHashes() && d.Seed() == f.Seed() && d.Capacity() == f.Capacity() && d.IsCompatible(f) && f.IsCompatible(d), "decoded-parameters", "decoded filter has %d hashes, seed %d, capacity %d", d.NumHashes(), d.Seed(), d.Capacity())
	bfCheck(c, d, state, items, probes, 0)
	b2, err := d.ToCompactSlice()
	c.NoErr(err, "serialize")
	c.Assert(eqBytes(b, b2), "reencode", "decoding and encoding again changes the image")
	if len(b) > 24 {
		// a writer may leave the number of set bits to the reader
		x := append([]byte{}, b...)
		for i := 24; i < 32; i++ {
			x[i] = 0xFF
		}
		dd, err := filters.NewBloomFilterFromSlice(x)
		c.NoErr(err, "decode-uncounted")
		bfCheck(c, dd, state, items, probes, 0)
	}
	return d
}

func bfOps(cfgs []bfCfg, nItems, depth int) engine.Scenario {
	return engine.Scenario{
		Name:       "operations",
		Bound:      "all operation sequences on two filters, observed at the end and, where chosen, in between",
		ShardDepth: 3,
		Run: func(c *C) {
			g := cfgs[c.Choose(len(cfgs), "table")]
			c.Logf("%d bits, %d hashes, seed %d", g.bits, g.hashes, g.seed)
			items := make([]bfItem, nItems)
			probes := make([][]uint64, nItems)
			for i := range items {
				items[i] = bfItemN([]int{0, 2, 4, 5, 3, 6, 1}[i%7], i+1)
				probes[i] = bfProbe(c, g, items[i])
			}
			f := [2]filters.BloomFilter{g.mk(c), g.mk(c)}
			n := int(f[0].Capacity() / 64)
			st := [2][]uint64{make([]uint64, n), make([]uint64, n)}
			added := [2]map[int]bool{{}, {}} // items that must still be reported
			for step := 0; step < depth; step++ {
				op := c.Choose(3*nItems+12, "op")
				switch {
				case op < 2*nItems:
					t, i := op%2, op/2
					c.Logf("update %d with item %d", t, i)
					c.NoErr(items[i].update(f[t]), "update")
					orInto(st[t], probes[i])
					added[t][i] = true
				case op < 3*nItems:
					i := op - 2*nItems
					want := bfWant(st[0], probes[i])
					got := items[i].qau(f[0])
					c.Logf("query and update 0 with item %d: %v", i, got)
					c.Assert(got == want, "query-and-update", "QueryAndUpdate of %v answered %v, a query just before it answers %v", items[i], got, want)
					orInto(st[0], probes[i])
					added[0][i] = true
				default:
					k := op - 3*nItems
					t := k % 2
					switch k / 2 {
					case 0, 1:
						union := k/2 == 0
						var err error
						if union {
							c.Logf("union %d with %d", t, 1-t)
							err = f[t].Union(f[1-t])
						} else {
							c.Logf("intersect %d with %d", t, 1-t)
							err = f[t].Intersect(f[1-t])
						}
						c.NoErr(err, "set-operation")
						for i := range st[t] {
							if union {
								st[t][i] |= st[1-t][i]
							} else {
								st[t][i] &= st[1-t][i]
							}
						}
						for i := range items {
							if union {
								added[t][i] = added[t][i] || added[1-t][i]
							} else {
								added[t][i] = added[t][i] && added[1-t][i]
							}
						}
					case 2:
						c.Logf("invert %d", t)
						c.NoErr(f[t].Invert(), "invert")
						for i := range st[t] {
							st[t][i] = ^st[t][i]
						}
						added[t] = map[int]bool{}
					case 3:
						c.Logf("reset %d", t)
						c.NoErr(f[t].Reset(), "reset")
						st[t] = make([]uint64, n)
						added[t] = map[int]bool{}
					case 4:
						c.Logf("serialize and decode %d", t)
						f[t] = bfRoundTrip(c, f[t], st[t], items, probes)
					case 5:
						if t == 0 {
							c.Logf("self union and intersection")
							c.NoErr(f[0].Union(f[0]), "self-union")
							c.NoErr(f[0].Intersect(f[0]), "self-intersection")
						} else {
							c.Logf("observe")
							bfCheck(c, f[0], st[0], items, probes, step)
							bfCheck(c, f[1], st[1], items, probes, step+1)
						}
					}
				}
				c.Step()
				c.State(mix(uint64(len(st[0])), u64s(st[0]), u64s(st[1])))
			}
			for t := range f {
				for i := range added[t] {
					c.Assert(!added[t][i] || items[i].query(f[t]), "false-negative", "filter %d denies %v", t, items[i])
				}
				bfCheck(c, f[t], st[t], items, probes, depth+t)
				bfRoundTrip(c, f[t], st[t], items, probes)
			}
			c.Outcome(mix(u64s(st[0]), u64s(st[1])))
		},
	}
}

func bfStreams(sizes []int, hashes []int, seeds []uint64, ns []int) engine.Scenario {
	return engine.Scenario{
		Name:       "streams",
		Bound:      "sizes, hash counts, seeds, stream lengths and item kinds; every cut of the stream into two filters",
		ShardDepth: 2,
		Run: func(c *C) {
			g := bfCfg{uint64(pickInt(c, "bits", sizes...)), uint16(pickInt(c, "hashes", hashes...)), 0}
			g.seed = seeds[c.Choose(len(seeds), "seed")]
			n := pickInt(c, "n", ns...)
			if int(g.hashes)*n > 400_000 {
				n = max(1, 400_000/int(g.hashes))
			}
			kind := c.Choose(bfKinds+1, "kind")
			c.Logf("seed %d, kind %d", g.seed, kind)
			items := make([]bfItem, n)
			probes := make([][]uint64, n)
			for i := range items {
				k := kind
				if k == bfKinds {
					k = i % bfKinds
				}
				items[i] = bfItemN(k, i)
				probes[i] = bfProbe(c, g, items[i])
			}
			f, q := g.mk(c), g.mk(c)
			st := make([]uint64, f.Capacity()/64)
			for i, x := range items {
				want := bfWant(st, probes[i])
				c.NoErr(x.update(f), "update")
				got := x.qau(q)
				c.Assert(got == want, "query-and-update", "QueryAndUpdate of %v answered %v, a query just before it answers %v", x, got, want)
				orInto(st, probes[i])
				c.Assert(x.query(f) && x.query(q), "false-negative", "%v denied right after it was added", x)
				if i%3 == 2 {
					bfCheck(c, f, st, items[:i+1], probes, i)
				}
				c.Step()
			}
			bfCheck(c, f, st, items, probes, 0)
			bfCheck(c, q, st, items, probes, 1)
			for i := range items {
				c.Assert(items[i].query(f), "false-negative", "%v denied", items[i])
			}
			bfRoundTrip(c, f, st, items, probes)
			// two halves
			step := max(1, n/3)
			for cut := 0; cut <= n; cut += step {
				a, b := g.mk(c), g.mk(c)
				sa, sb := make([]uint64, len(st)), make([]uint64, len(st))
				for i := range items {
					if i < cut {
						items[i].qau(a)
						orInto(sa, probes[i])
					}
					if i >= cut/2 {
						c.NoErr(items[i].update(b), "update")
						orInto(sb, probes[i])
					}
				}
				x := bfRoundTrip(c, a, sa, items, probes)
				c.NoErr(x.Intersect(b), "intersect")
				si := make([]uint64, len(st))
				for i := range si {
					si[i] = sa[i] & sb[i]
				}
				bfCheck(c, x, si, items, probes, 2)
				c.NoErr(a.Union(b), "union")
				bfCheck(c, a, st, items, probes, 3)
				bfCheck(c, b, sb, items, probes, 2)
				for i := range items {
					c.Assert(items[i].query(a), "false-negative", "the union denies %v", items[i])
				}
				c.NoErr(b.Invert(), "invert")
				for i := range sb {
					sb[i] = ^sb[i]
				}
				bfCheck(c, b, sb, items, probes, 0)
				bfRoundTrip(c, b, sb, items, probes)
				c.NoErr(b.Reset(), "reset")
				bfCheck(c, b, make([]uint64, len(st)), items, probes, 0)
				for i := range items {
					c.Assert(!items[i].query(b), "reset", "a reset filter reports %v", items[i])
				}
				c.Step()
			}
			c.Outcome(u64s(st))
		},
	}
}

func bfTypes(maxLen int) engine.Scenario {
	return engine.Scenario{
		Name:       "items",
		Bound:      "every item kind, lengths up to the bound, boundary numbers, empty items",
		ShardDepth: 2,
		Run: func(c *C) {
			g := bfCfg{uint64(pickInt(c, "bits", 64, 65, 640, 4096)), uint16(pickInt(c, "hashes", 1, 2, 3, 7, 64)), 0}
			g.seed = []uint64{0, 9001, math.MaxUint64}[c.Choose(3, "seed")]
			kind := c.Choose(bfKinds, "kind")
			c.Logf("seed %d, kind %d", g.seed, kind)
			var items []bfItem
			switch kind {
			case 0, 1:
				for i := 0; i < 64; i++ {
					for _, v := range []uint64{1 << i, 1<<i - 1, ^uint64(0) << i} {
						items = append(items, bfItem{kind: kind, u: v})
					}
				}
			case 2, 3:
				for n := 1; n <= maxLen; n++ {
					b := make([]byte, n)
					for i := range b {
						b[i] = byte(n*7 + i*i)
					}
					items = append(items, bfItem{kind: kind, s: string(b), b: b})
				}
				if kind == 3 {
					items = append(items, bfItem{kind: 3, b: []byte{}}, bfItem{kind: 3, b: []byte{0}}, bfItem{kind: 3, b: make([]byte, 9)})
				}
			case 4:
				for _, v := range []float64{0, math.Copysign(0, -1), 1, -1, 0.1, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.NaN(), math.Float64frombits(0x7ff0000000000001), math.Float64frombits(0xfff8000000000000), 1e300, 3} {
					items = append(items, bfItem{kind: 4, f: v})
				}
			default:
				for n := 1; n <= maxLen/4; n++ {
					x := bfItem{kind: kind}
					for i := 0; i < n; i++ {
						x.is = append(x.is, int64(n-i*i))
						x.fs = append(x.fs, float64(n)/3-float64(i))
					}
					items = append(items, x)
				}
			}
			all := g.mk(c)
			for _, x := range items {
				f := g.mk(c)
				c.Assert(!x.query(f), "empty-query", "an empty filter reports %v", x)
				c.NoErr(x.update(f), "update")
				w := bfBits(c, f)
				c.Assert(x.query(f), "false-negative", "%v denied after its update", x)
				c.Assert(x.qau(f), "query-and-update", "QueryAndUpdate denies %v after its update", x)
				q := g.mk(c)
				c.Assert(!x.qau(q), "query-and-update", "QueryAndUpdate on an empty filter reports %v", x)
				c.Assert(eqU64(bfBits(c, q), w) && eqU64(bfBits(c, f), w), "bits", "QueryAndUpdate and Update of %v set different bits", x)
				c.Assert(f.BitsUsed() == popcount(w) && q.BitsUsed() == popcount(w), "bits-used", "BitsUsed %d and %d, %d bits are set", f.BitsUsed(), q.BitsUsed(), popcount(w))
				c.NoErr(x.update(all), "update")
				c.Step()
			}
			for _, x := range items {
				c.Assert(x.query(all), "false-negative", "%v denied", x)
			}
			// equal floats are one item
			if kind == 4 {
				for _, p := range [][2]int{{0, 1}, {1, 0}, {10, 11}, {12, 10}} {
					f := g.mk(c)
					c.NoErr(items[p[0]].update(f), "update")
					c.Assert(items[p[1]].query(f) && items[p[1]].qau(f), "canonical", "%v added, %v denied", items[p[0]], items[p[1]])
				}
			}
			// empty items are ignored
			var e []bfItem
			switch kind {
			case 2:
				e = []bfItem{{kind: 2}}
			case 5, 6:
				e = []bfItem{{kind: kind}, {kind: kind, is: []int64{}, fs: []float64{}}}
			}
			before := bfBits(c, all)
			for _, x := range e {
				c.NoErr(x.update(all), "update")
				c.Assert(!x.query(all) && !x.qau(all), "empty-item", "an ignored item is reported")
			}
			c.Assert(eqU64(before, bfBits(c, all)), "empty-item", "an ignored item changed the filter")
			c.Checked()
		},
	}
}

// bfForeign claims a filter's parameters but is another implementation.
type bfForeign struct{ filters.BloomFilter }

func bfIncompatible() engine.Scenario {
	return engine.Scenario{
		Name:       "incompatible",
		Bound:      "all pairs of configurations from a set that differ in one or more parameters",
		ShardDepth: 2,
		Run: func(c *C) {
			cfgs := []bfCfg{{64, 3, 9001}, {1, 3, 9001}, {65, 3, 9001}, {128, 3, 9001}, {64, 2, 9001}, {64, 3, 0}, {64, 259, 9001}, {64, 3, 9001 + 1<<32}, {129, 3, 9001}, {65536 * 64, 3, 9001}, {128, 2, 1}}
			ga, gb := cfgs[c.Choose(len(cfgs), "a")], cfgs[c.Choose(len(cfgs), "b")]
			a, b := ga.mk(c), gb.mk(c)
			na, nb := pickInt(c, "items a", 0, 3), pickInt(c, "items b", 0, 3)
			for i := 0; i < na; i++ {
				c.NoErr(a.UpdateInt64(int64(i)), "update")
			}
			for i := 0; i < nb; i++ {
				c.NoErr(b.UpdateInt64(int64(i+2)), "update")
			}
			if c.Choose(2, "inverted") == 1 {
				c.NoErr(b.Invert(), "invert")
			}
			want := ga.hashes == gb.hashes && ga.seed == gb.seed && (ga.bits+63)/64 == (gb.bits+63)/64
			c.Assert(a.IsCompatible(b) == want && b.IsCompatible(a) == want, "compatible", "IsCompatible %v, want %v", a.IsCompatible(b), want)
			wa, wb := bfBits(c, a), bfBits(c, b)
			op := c.Choose(2, "op")
			var err error
			if op == 0 {
				err = a.Union(b)
			} else {
				err = a.Intersect(b)
			}
			c.Assert((err == nil) == want, "refused", "error %v, compatible %v", err, want)
			if want {
				for i := range wa {
					if op == 0 {
						wa[i] |= wb[i]
					} else {
						wa[i] &= wb[i]
					}
				}
			}
			c.Assert(eqU64(bfBits(c, a), wa) && eqU64(bfBits(c, b), wb), "changed", "bits %x and %x, want %x and %x", bfBits(c, a)[:1], bfBits(c, b)[:1], wa[:1], wb[:1])
			c.Assert(a.BitsUsed() == popcount(wa) && b.BitsUsed() == popcount(wb), "bits-used", "BitsUsed %d and %d, want %d and %d", a.BitsUsed(), b.BitsUsed(), popcount(wa), popcount(wb))
			// another implementation of the interface
			if want {
				c.Assert(a.Union(bfForeign{b}) != nil && a.Intersect(bfForeign{b}) != nil, "foreign", "another implementation was accepted")
				c.Assert(eqU64(bfBits(c, a), wa), "changed", "a refused operation changed the filter")
			}
			c.Checked()
		},
	}
}

func bfAccuracy(ns []int) engine.Scenario {
	return engine.Scenario{
		Name:       "accuracy",
		Bound:      "filters built for a number of items and a false-positive rate, filled to that number",
		ShardDepth: 2,
		Run: func(c *C) {
			n := pickInt(c, "items", ns...)
			p := pickF(c, "fpp", 0.9, 0.5, 0.1, 0.01, 1e-6, 1e-12)
			seed := []uint64{0, 9001, math.MaxUint64}[c.Choose(3, "seed")]
			f, err := filters.NewBloomFilterByAccuracy(uint64(n), p, filters.WithSeed(seed))
			c.NoErr(err, "new")
			c.Assert(f.Capacity() >= filters.SuggestNumFilterBits(uint64(n), p) && f.NumHashes() >= 1 && f.Seed() == seed && f.IsEmpty(), "parameters", "capacity %d, hashes %d, seed %d", f.Capacity(), f.NumHashes(), f.Seed())
			for i := 0; i < n; i++ {
				c.NoErr(bfItemN(i%bfKinds, i).update(f), "update")
				c.Step()
			}
			for i := 0; i < n; i++ {
				c.Assert(bfItemN(i%bfKinds, i).query(f), "false-negative", "item %d denied", i)
			}
			w := bfBits(c, f)
			c.Assert(popcount(w) == f.BitsUsed(), "bits-used", "BitsUsed %d, %d bits are set", f.BitsUsed(), popcount(w))
			b, err := f.ToCompactSlice()
			c.NoErr(err, "serialize")
			d, err := filters.NewBloomFilterFromSlice(b)
			c.NoErr(err, "decode")
			for i := 0; i < 2*n; i++ {
				x := bfItemN(i%bfKinds, i)
				c.Assert(x.query(d) == x.query(f), "decoded-answer", "the decoded filter answers differently for %v", x)
			}
			c.NoErr(d.Union(f), "union")
			c.Assert(eqU64(bfBits(c, d), w), "union", "union with itself changed the bits")
			c.Outcome(u64s(w))
		},
	}
}

func init() {
	engine.Register(engine.Property{
		ID: "C24",
		Assumptions: []string{
			"the bits of an item are learned by feeding it alone to an empty filter",
			"the default-accuracy constructor's random seed is always replaced by a chosen one",
		},
		Scenarios: func(tier string) []engine.Scenario {
			cfgs := []bfCfg{{64, 1, 9001}, {65, 3, 0}, {192, 2, math.MaxUint64}}
			sizes := []int{1, 63, 64, 65, 128, 129, 1000}
			hashes := []int{1, 2, 3, 5, 8, 64, 65, 255, 256}
			seeds := []uint64{0, 9001, math.MaxUint64}
			ns, an := []int{1, 7, 20}, []int{1, 2, 10, 100}
			depth, ni, ml := 4, 3, 40
			if tier == "thorough" {
				cfgs = append(cfgs, bfCfg{64, 64, 1}, bfCfg{128, 4, 1 << 63}, bfCfg{640, 7, 12345})
				sizes = append(sizes, 2, 127, 191, 192, 193, 256, 4096, 65537)
				hashes = append(hashes, 4, 6, 7, 16, 31, 32, 33, 63, 100, 257, 1000)
				seeds = append(seeds, 1, 1<<63)
				ns, an = append(ns, 2, 3, 50), append(an, 1000, 10000)
				depth, ni, ml = 5, 4, 200
			}
			deep := bfOps([]bfCfg{{128, 3, 9001}}, 3, depth+1)
			deep.Name = "operations-deep"
			return []engine.Scenario{
				bfOps(cfgs, ni, depth),
				deep,
				bfStreams(sizes, hashes, seeds, ns),
				bfStreams2(),
				bfTypes(ml),
				bfIncompatible(),
				bfAccuracy(an),
				bfHuge(),
			}
		},
	})
}

// bfStreams2 covers the largest hash counts.
func bfStreams2() engine.Scenario {
	s := bfStreams([]int{64, 129, 70000}, []int{32767, 32768, 65534, 65535}, []uint64{9001}, []int{2})
	s.Name = "many-hashes"
	return s
}

// bfHuge: a filter of more bits than fit into 32 bits. One execution.
func bfHuge() engine.Scenario {
	return engine.Scenario{
		Name:       "huge",
		ShardDepth: 1,
		Bound:      "one filter of 2^32+64 bits: 60 items, queries, inversion twice, union, intersection, round trip",
		Run: func(c *C) {
			c.Choose(1, "filter")
			g := bfCfg{1<<32 + 64, 5, 9001}
			f, o := g.mk(c), g.mk(c)
			const n = 60
			for i := 0; i < n; i++ {
				x := bfItemN(2, i)
				c.Assert(!x.query(f), "false-positive", "a filter of 2^32 bits with %d items reports %v", i, x)
				c.NoErr(x.update(f), "update")
				if i%2 == 0 {
					c.NoErr(x.update(o), "update")
				}
				c.Step()
			}
			all := func(what string, f filters.BloomFilter, want func(i int) bool) {
				for i := 0; i < n; i++ {
					x := bfItemN(2, i)
					c.Assert(x.query(f) == want(i), "query", "%s: item %d reported %v", what, i, x.query(f))
				}
			}
			yes := func(int) bool { return true }
			even := func(i int) bool { return i%2 == 0 }
			all("filled", f, yes)
			all("half filled", o, even)
			used, half := f.BitsUsed(), o.BitsUsed()
			c.Assert(used > n*5-5 && used <= n*5 && half > n/2*5-5 && half <= n/2*5, "bits-used", "%d and %d bits used by %d and %d items", used, half, n, n/2)
			c.NoErr(f.Invert(), "invert")
			c.Assert(f.BitsUsed() == f.Capacity()-used, "invert", "%d of %d bits used after inverting %d", f.BitsUsed(), f.Capacity(), used)
			c.NoErr(f.Intersect(o), "intersect")
			c.Assert(f.BitsUsed() < 5, "intersect", "%d bits common to a filter and the inverse of a larger one", f.BitsUsed())
			c.NoErr(f.Union(o), "union")
			c.Assert(f.BitsUsed() >= half && f.BitsUsed() < half+5, "union", "%d bits after a union with %d", f.BitsUsed(), half)
			all("united", f, even)
			b, err := o.ToCompactSlice()
			c.NoErr(err, "serialize")
			c.NoErr(f.Reset(), "reset")
			f = nil
			d, err := filters.NewBloomFilterFromSlice(b)
			c.NoErr(err, "decode")
			c.Assert(d.Capacity() == g.bits && d.BitsUsed() == half, "decoded-parameters", "decoded: %d bits, %d used", d.Capacity(), d.BitsUsed())
			all("decoded", d, even)
			beyond := 0
			for i := 32 + 1<<28; i < len(b); i++ {
				if b[i] != 0 {
					beyond++
				}
			}
			c.Assert(beyond > n, "spread", "only %d bits of %d lie beyond 2^31", beyond, half)
			c.Outcome(half)
		},
	}
}
