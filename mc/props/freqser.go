package props

import (
	"encoding/binary"
	"fmt"
	"math"
	"sort"

	"verifmc/engine"
)

type fqImg struct {
	pre, lgMax, lgCur, flags int
	weight, offset           int64
	counts                   []int64
	items                    []byte
}

// fqParse reads an image by the published layout.
func fqParse(c *C, b []byte) (g fqImg) {
	c.Assert(len(b) >= 8 && b[1] == 1 && b[2] == 10, "layout", "image header % x", b[:min(8, len(b))])
	g.pre, g.lgMax, g.lgCur, g.flags = int(b[0]), int(b[3]), int(b[4]), int(b[5])
	if g.pre == 1 {
		c.Assert(g.flags == 5 && len(b) == 8, "layout", "empty image has flags %d and %d bytes", g.flags, len(b))
		return
	}
	c.Assert(g.pre == 4 && g.flags == 0 && len(b) >= 32, "layout", "image with %d preamble longs, flags %d, %d bytes", g.pre, g.flags, len(b))
	n := int(binary.LittleEndian.Uint32(b[8:]))
	g.weight = int64(binary.LittleEndian.Uint64(b[16:]))
	g.offset = int64(binary.LittleEndian.Uint64(b[24:]))
	c.Assert(len(b) >= 32+8*n, "layout", "image of %d bytes with %d counters", len(b), n)
	for i := 0; i < n; i++ {
		g.counts = append(g.counts, int64(binary.LittleEndian.Uint64(b[32+8*i:])))
	}
	g.items = b[32+8*n:]
	return
}

func fqSame(c *C, a, b fqSk, nKeys int, what string) {
	c.Assert(a.weight() == b.weight() && a.maxErr() == b.maxErr(), "content", "%s: weight %d and maximum error %d, the original has %d and %d", what, a.weight(), a.maxErr(), b.weight(), b.maxErr())
	c.Assert(a.active() == b.active() && a.maxCap() == b.maxCap() && a.empty() == b.empty(), "content", "%s: %d active of %d (empty %v), the original has %d of %d (%v)", what, a.active(), a.maxCap(), a.empty(), b.active(), b.maxCap(), b.empty())
	for k := 0; k < nKeys; k++ {
		e1, l1, u1, err1 := a.bounds(k)
		e2, l2, u2, err2 := b.bounds(k)
		c.NoErr(err1, "bounds")
		c.NoErr(err2, "bounds")
		if e1 != e2 || l1 != l2 || u1 != u2 {
			c.Fail("bounds-differ", "%s: key %d has estimate %d [%d,%d], the original %d [%d,%d]", what, k, e1, l1, u1, e2, l2, u2)
		}
	}
	c.Checked()
}

// fqForms decodes s from every form it has.
func fqForms(c *C, s fqSk) map[string]fqSk {
	out := map[string]fqSk{}
	b, err := s.bytes()
	c.NoErr(err, "bytes")
	b2, err := s.bytes()
	c.NoErr(err, "bytes")
	c.Assert(eqBytes(b, b2), "encode-twice", "two images of one sketch differ")
	keep := append([]byte{}, b...)
	d, err := s.decode(b)
	c.NoErr(err, "decode")
	c.Assert(eqBytes(b, keep), "decode-input", "decoding changed its input")
	out["bytes"] = d
	g := fqParse(c, b)
	c.Assert(3*(1<<g.lgMax)/4 == s.maxCap(), "layout", "lgMax %d, capacity %d", g.lgMax, s.maxCap())
	if s.weight() > 0 {
		c.Assert(g.weight == s.weight() && g.offset == s.maxErr() && len(g.counts) == s.active() && 3*(1<<g.lgCur)/4 == s.curCap(), "layout",
			"image: weight %d offset %d counters %d lgCur %d; sketch: %d %d %d capacity %d", g.weight, g.offset, len(g.counts), g.lgCur, s.weight(), s.maxErr(), s.active(), s.curCap())
	}
	b3, err := d.bytes()
	c.NoErr(err, "bytes")
	h := fqParse(c, b3)
	x, y := append([]int64{}, g.counts...), append([]int64{}, h.counts...)
	sort.Slice(x, func(i, j int) bool { return x[i] < x[j] })
	sort.Slice(y, func(i, j int) bool { return y[i] < y[j] })
	c.Assert(len(b3) == len(b) && fmt.Sprint(x, g.weight, g.offset, g.lgMax, g.pre) == fmt.Sprint(y, h.weight, h.offset, h.lgMax, h.pre), "re-encode", "the decoded sketch encodes to other content")
	str, err := s.str()
	c.NoErr(err, "string")
	ds, ok, err := s.decodeStr(str)
	if ok {
		c.NoErr(err, "decode-string")
		out["string"] = ds
		str2, err := ds.str()
		c.NoErr(err, "string")
		c.Assert(len(str2) == len(str), "re-string", "string form %q re-read as %q", short(str), short(str2))
		ds2, _, err := s.decodeStr(str[:len(str)-1]) // without the closing comma
		c.NoErr(err, "decode-string")
		out["string without comma"] = ds2
	}
	return out
}

func fqRoundTrip(c *C, f *fqFam, s fqSk, ref *fqRef, nKeys, cont int) {
	// the original, untouched by the continuations: every form gets a copy of its own
	for what, d := range fqForms2(c, s) {
		fqCheck(c, d, ref, true)
		fqSame(c, d, s, nKeys, what)
		r := ref.clone()
		switch cont {
		case 0:
			for i := 0; i < 9; i++ {
				fqUpdate(c, d, r, (i*5+1)%nKeys, int64(1+i%3))
				fqCheck(c, d, r, false)
			}
		case 1:
			o, or := fqOther(c, f, 5, nKeys)
			fqMerge(c, d, o, r, or)
		case 2:
			o, or := fqOther(c, f, 3, nKeys)
			fqMerge(c, o, d, or, r)
			fqCheck(c, o, or, true)
			continue
		case 3:
			for i := 0; i < 3*nKeys; i++ {
				fqUpdate(c, d, r, i%nKeys, 2)
			}
		case 4:
			c.NoErr(d.reset(), "reset")
			r = newFqRef(nKeys)
			for i := 0; i < 8; i++ {
				fqUpdate(c, d, r, i, 1)
			}
		}
		fqCheck(c, d, r, true)
	}
}

// fqForms2 returns the forms in a fixed order through a slice-backed iteration.
func fqForms2(c *C, s fqSk) func(yield func(string, fqSk) bool) {
	m := fqForms(c, s)
	return func(yield func(string, fqSk) bool) {
		for _, k := range []string{"bytes", "string", "string without comma"} {
			if d, ok := m[k]; ok && !yield(k, d) {
				return
			}
		}
	}
}

func fqSerHistory(depth int, fam []int) func(c *C) {
	fams := fqFamilies()
	const nKeys = 12
	return func(c *C) {
		f := fams[fam[c.Choose(len(fam), "family")]]
		kind := c.Choose(3, "alphabet")
		f.keys(kind, nKeys)
		lg := []int{3, 5}[c.Choose(2, "lgMax")]
		s, err := f.mk(lg, 3)
		c.NoErr(err, "new")
		ref := newFqRef(nKeys)
		pre := c.Choose(5, "preload")
		cont := c.Choose(5, "continuation")
		if fqScale = 1; (kind+pre+cont)%3 == 0 {
			fqScale = 1<<13 + 1
		}
		c.Logf("%s alphabet %d lgMax %d preload %d continuation %d", f.name, kind, lg, pre, cont)
		for k := 0; k < 6 && pre > 0; k++ {
			fqUpdate(c, s, ref, k, []int64{1, 2, int64(k + 1), 1 << 40 >> (7 * k)}[pre-1])
		}
		for i := 0; i < depth; i++ {
			op := c.Choose(6+fqOthers+2, "op")
			if op == 6+fqOthers+1 {
				break
			}
			switch {
			case op < 6:
				k, w := []int{0, 6, 7}[op/2], []int64{1, 5}[op%2]
				c.Logf("update key %d weight %d", k, w)
				fqUpdate(c, s, ref, k, w)
			case op < 6+fqOthers:
				o, r := fqOther(c, f, op-6, nKeys)
				c.Logf("merge other %d", op-6)
				fqMerge(c, s, o, ref, r)
			default:
				c.Logf("reset")
				c.NoErr(s.reset(), "reset")
				ref = newFqRef(nKeys)
			}
			c.Step()
		}
		c.State(fqState(c, s))
		fqRoundTrip(c, f, s, ref, nKeys, cont)
	}
}

func fqSerStreams(sizes []int, n, nKeys int) func(c *C) {
	fams := fqFamilies()
	return func(c *C) {
		f := fams[c.Choose(len(fams), "family")]
		size := sizes[c.Choose(len(sizes), "size")]
		shape := c.Choose(6, "shape")
		cont := c.Choose(5, "continuation")
		f.keys(0, nKeys)
		fqScale = []int64{1, 1<<33 + 1}[c.Choose(2, "scale")]
		s, err := f.mkMax(size)
		c.NoErr(err, "new")
		c.Logf("%s size %d shape %d continuation %d", f.name, size, shape, cont)
		ref := newFqRef(nKeys)
		for i := 0; i <= n; i++ {
			if i < 12 || i == size*3/4 || i == size*3/4+1 || i == n/2 || i == n {
				fqRoundTrip(c, f, s, ref.clone(), nKeys, cont)
				c.Step()
			}
			k, w := fqStreamItem(shape, i, nKeys)
			fqUpdate(c, s, ref, k, w)
		}
		c.State(fqState(c, s))
	}
}

// fqFullRange: total weights up to the largest int64. Without a purge every bound is exact, so nothing overflows.
func fqFullRange(c *C) {
	fams := fqFamilies()
	const nKeys = 8
	f := fams[c.Choose(len(fams), "family")]
	n := 1 + c.Choose(6, "items") // 6 counters fit the smallest map
	rest := []int64{0, 1, 1 << 31, 1 << 62}[c.Choose(4, "below maximum")]
	first := c.Choose(2, "largest first") == 0
	lg := []int{3, 5}[c.Choose(2, "lgMax")]
	f.keys(c.Choose(3, "alphabet"), nKeys)
	fqScale = 1
	s, err := f.mk(lg, 3)
	c.NoErr(err, "new")
	ref := newFqRef(nKeys)
	total := int64(math.MaxInt64) - rest
	for i := 0; i < n; i++ {
		w := int64(i + 1)
		if i == 0 && first || i == n-1 && !first {
			w = total - int64(n*(n+1)/2) + int64(i+1)
		}
		fqUpdate(c, s, ref, i, w)
		fqCheck(c, s, ref, false)
	}
	c.Assert(s.weight() == total, "weight", "weight %d after %d", s.weight(), total)
	c.State(fqState(c, s))
	for what, d := range fqForms2(c, s) {
		fqCheck(c, d, ref, true)
		fqSame(c, d, s, nKeys, what)
		if rest > 1 {
			fqUpdate(c, d, ref.clone(), 0, rest-1)
		}
	}
	c.Step()
}

func init() {
	engine.Register(engine.Property{
		ID:          "C22",
		Assumptions: []string{"as C21", "continuations keep the bounds; they need not equal the original's, because a purge samples counters in table order"},
		Scenarios: func(tier string) []engine.Scenario {
			d, n := 3, 3000
			sizes := []int{8, 32, 512}
			if tier == "thorough" {
				d, n = 4, 12000
				sizes = []int{8, 16, 32, 128, 512, 2048}
			}
			return []engine.Scenario{
				{Name: "history", Bound: "5 preloads x 3 alphabets x 2 sizes x all histories of the given depth x 5 continuations, longs", Run: fqSerHistory(d, []int{0}), ShardDepth: 4},
				{Name: "history-types", Bound: "the same, one operation less, other key types", Run: fqSerHistory(d-1, []int{1, 2, 3}), ShardDepth: 4},
				{Name: "streams", Bound: "6 streams x sizes x 4 key types x 5 continuations", Run: fqSerStreams(sizes, n, 300), ShardDepth: 4},
				{Name: "full-range", Bound: "1..6 items, total weight 2^63-1 minus {0, 1, 2^31, 2^62}, 4 key types x 3 alphabets x 2 sizes", Run: fqFullRange},
			}
		},
	})
}
