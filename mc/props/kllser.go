package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"strings"

	"github.com/apache/datasketches-go/kll"
	"verifmc/engine"
)

// parseKll reads an image by the published layout and returns the items by level.
func parseKll[T comparable](c *C, t ktype[T], b []byte, read func([]byte) (T, int)) (k, minK uint16, m uint8, n uint64, mn, mx T, items []wit[T]) {
	c.Assert(len(b) >= 8 && b[2] == 15, "layout", "image of %d bytes, family %v", len(b), b[2])
	k = binary.LittleEndian.Uint16(b[4:])
	m = b[6]
	empty, single := b[3]&1 != 0, b[3]&4 != 0
	switch {
	case empty:
		c.Assert(b[0] == 2 && b[1] == 1 && len(b) == 8, "layout", "empty image % x", b)
		return k, k, m, 0, mn, mx, nil
	case single:
		c.Assert(b[0] == 2 && b[1] == 2, "layout", "single item image % x", b[:8])
		v, l := read(b[8:])
		c.Assert(8+l == len(b), "layout", "single item image has %d bytes", len(b))
		return k, k, m, 1, v, v, []wit[T]{{v, 1}}
	}
	c.Assert(b[0] == 5 && b[1] == 1, "layout", "full image % x", b[:8])
	n = binary.LittleEndian.Uint64(b[8:])
	minK = binary.LittleEndian.Uint16(b[16:])
	L := int(b[18])
	off := 20
	var lv []uint32
	for i := 0; i < L; i++ {
		lv = append(lv, binary.LittleEndian.Uint32(b[off:]))
		off += 4
	}
	lv = append(lv, kllCapacity(k, m, L))
	var l int
	mn, l = read(b[off:])
	off += l
	mx, l = read(b[off:])
	off += l
	for i := 0; i < L; i++ {
		for j := lv[i]; j < lv[i+1]; j++ {
			v, l := read(b[off:])
			off += l
			items = append(items, wit[T]{v, 1 << i})
		}
	}
	c.Assert(off == len(b), "layout", "image has %d bytes, contents end at %d", len(b), off)
	return
}

func readStr(b []byte) (string, int) {
	l := int(binary.LittleEndian.Uint32(b))
	return string(b[4 : 4+l]), 4 + l
}

// c18One does everything for one item type.
func c18One[T comparable](c *C, t ktype[T], read func([]byte) (T, int), sizes []int, conts int) {
	km := [][2]int{{8, 8}, {8, 2}, {20, 4}, {200, 8}}[c.Choose(4, "config")]
	shape := c.Choose(nShapes, "shape")
	n := sizes[c.Choose(len(sizes), "n")]
	hist := c.Choose(3, "history")
	pol := []int{2, 5}[c.Choose(2, "policy")]
	cont := c.Choose(conts, "continuation")
	build := func() *kobj[T] {
		c.RandPolicy(pol, 0)
		o := newK(c, t, uint16(km[0]), uint8(km[1]))
		feed := func(o *kobj[T], n, off int) {
			for i := 0; i < n; i++ {
				o.upd(c, int64(off)+streamVal(shape, i, n)-1)
			}
		}
		switch hist {
		case 0:
			feed(o, n, 0)
		case 1: // merged from a sketch of smaller k
			p := newK(c, t, 8, 8)
			feed(o, n/2, 0)
			feed(p, n-n/2, 3)
			o.merge(c, p)
		case 2: // reset and decoded on the way
			feed(o, 30, 0)
			o.reset(c)
			feed(o, n/2, 1)
			b, err := o.s.ToSlice()
			c.NoErr(err, "toslice")
			s, err := kll.NewKllItemsSketchFromSlice[T](b, t.less, t.serde)
			c.NoErr(err, "fromslice")
			o.s = s
			feed(o, n-n/2, 2)
		}
		return o
	}
	o := build()
	before := o.fingerprint(c)
	b, err := o.s.ToSlice()
	c.NoErr(err, "toslice")
	c.Assert(o.fingerprint(c) == before, "encode-changed", "%s: encoding changed the sketch", o.what())
	sz, err := o.s.GetSerializedSizeBytes()
	c.NoErr(err, "size")
	c.Assert(sz == len(b), "size", "%s: GetSerializedSizeBytes %d, image has %d bytes", o.what(), sz, len(b))
	b1, err := o.s.ToSlice()
	c.NoErr(err, "toslice")
	c.Assert(bytes.Equal(b, b1), "toslice-twice", "%s: second image differs", o.what())

	// the image by the published layout
	k, minK, m, nn, mn, mx, items := parseKll(c, t, b, read)
	c.Assert(k == o.k && m == o.m && nn == o.n && (o.n == 0 || mn == o.min && mx == o.max), "image", "%s: image says k=%d m=%d n=%d min=%v max=%v", o.what(), k, m, nn, mn, mx)
	q := *o
	c.Assert(fmt.Sprint(items) == fmt.Sprint(o.retained()), "image-items", "%s: image holds %s, sketch %s", o.what(), short(items), short(o.retained()))
	c.Assert(near(o.s.GetNormalizedRankError(false), 2.296/math.Pow(float64(minK), 0.9723), 1e-12), "image-mink", "%s: minK %d in the image, rank error %v", o.what(), minK, o.s.GetNormalizedRankError(false))

	// decode; the image may have room after it and is overwritten afterwards
	in := append(make([]byte, 0, len(b)+64), b...)
	s2, err := kll.NewKllItemsSketchFromSlice[T](in, t.less, t.serde)
	c.NoErr(err, "fromslice")
	for i := range in {
		in[i] = 0xa5
	}
	q.s = s2
	q.check(c)
	c.Assert(q.fingerprint(c) == before, "roundtrip", "%s: decoded sketch differs: %s, was %s", o.what(), short(q.retained()), short(o.retained()))
	b2, err := s2.ToSlice()
	c.NoErr(err, "toslice")
	c.Assert(bytes.Equal(b, b2), "reencode", "%s: decoded sketch encodes differently", o.what())
	sz2, err := s2.GetSerializedSizeBytes()
	c.Assert(err == nil && sz2 == sz, "size", "%s: decoded GetSerializedSizeBytes %d", o.what(), sz2)
	answers := func(s *kll.ItemsSketch[T]) string {
		out := fmt.Sprint(s.IsEmpty(), s.IsEstimationMode(), s.GetNormalizedRankError(true))
		for _, incl := range []bool{true, false} {
			x, e := s.GetQuantiles([]float64{0, 0.1, 0.5, 0.9, 1}, incl)
			y, e2 := s.GetCDF([]T{t.mk(1), t.mk(4), t.mk(30)}, incl)
			z, e3 := s.GetPMF([]T{t.mk(2), t.mk(9)}, incl)
			r, e4 := s.GetRanks([]T{t.mk(-1), t.mk(0), t.mk(5)}, incl)
			out += fmt.Sprint(x, y, z, r, e != nil, e2 != nil, e3 != nil, e4 != nil)
			if p, e := s.GetPartitionBoundaries(3, incl); e == nil {
				out += fmt.Sprint(p.GetBoundaries())
			}
		}
		return out
	}
	c.Assert(answers(o.s) == answers(s2), "answers", "%s: decoded sketch answers %s, original %s", o.what(), short(answers(s2)), short(answers(o.s)))

	// continuations under the same coins
	if cont == 0 {
		return
	}
	run := func(s *kll.ItemsSketch[T]) []byte {
		c.RandPolicy(pol^1, 0)
		switch cont {
		case 1:
			for i := 0; i < 3*km[0]; i++ {
				s.Update(t.mk(int64(i % 50)))
			}
		case 2: // merge into it
			p := newK(c, t, 9, 8)
			for i := 0; i < 40; i++ {
				p.upd(c, int64(i*3%40))
			}
			s.Merge(p.s)
			s.Update(t.mk(3))
		case 3: // merge it into another
			p := newK(c, t, 30, 8)
			for i := 0; i < 40; i++ {
				p.upd(c, int64(i*3%40))
			}
			p.s.Merge(s)
			s = p.s
		case 4:
			s.Reset()
			for i := 0; i < 2*km[0]; i++ {
				s.Update(t.mk(int64(i % 50)))
			}
		}
		b, err := s.ToSlice()
		c.NoErr(err, "toslice")
		return b
	}
	x, y := run(o.s), run(s2)
	c.Assert(bytes.Equal(x, y), "continuation", "%s: continuation %d of the decoded sketch differs", o.what(), cont)
	c.State(engine.H64(b))
}

func c18Types(sizes []int) engine.Scenario {
	return engine.Scenario{
		Name:       "roundtrip",
		ShardDepth: 4,
		Bound:      fmt.Sprintf("int64 (both orders), float32, float64, string (including empty and multi-byte) x 4 (k,m) x %d input orders x counts %v x 3 histories x 2 coin policies x 5 continuations", nShapes, sizes),
		Run: func(c *C) {
			rd64 := func(b []byte) (int64, int) { return int64(binary.LittleEndian.Uint64(b)), 8 }
			switch c.Choose(5, "type") {
			case 0:
				c18One(c, kInt, rd64, sizes, 5)
			case 1:
				c18One(c, kRev, rd64, sizes, 5)
			case 2:
				c18One(c, kFlt, func(b []byte) (float32, int) { return math.Float32frombits(binary.LittleEndian.Uint32(b)), 4 }, sizes, 5)
			case 3:
				c18One(c, kDbl, func(b []byte) (float64, int) { return math.Float64frombits(binary.LittleEndian.Uint64(b)), 8 }, sizes, 5)
			case 4:
				c18One(c, kStr, readStr, sizes, 5)
			}
		},
	}
}

// c18Strings: every short sequence over an alphabet of awkward strings.
func c18Strings(depth int) engine.Scenario {
	alpha := []string{"", "a", "\x00", "é", "\xff\xfe", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"}
	t := kStr
	t.mk = func(v int64) string { return alpha[v] }
	return engine.Scenario{
		Name:       "strings",
		ShardDepth: 2,
		Bound:      fmt.Sprintf("all sequences of 1..%d strings over {\"\", a, NUL, é, invalid UTF-8, 85 letters}, then 0 or 12 more of the first; encode, decode, re-encode, continue", depth),
		Run: func(c *C) {
			o := newK(c, t, 8, 8)
			n := 1 + c.Choose(depth, "n")
			c.RandPolicy(2, 0)
			first := int64(-1)
			for i := 0; i < n; i++ {
				v := int64(c.Choose(len(alpha), "item"))
				if first < 0 {
					first = v
				}
				o.upd(c, v)
			}
			if c.Choose(2, "more") == 1 {
				for i := 0; i < 12; i++ {
					o.upd(c, first)
				}
			}
			b, err := o.s.ToSlice()
			c.NoErr(err, "toslice")
			sz, err := o.s.GetSerializedSizeBytes()
			c.Assert(err == nil && sz == len(b), "size", "GetSerializedSizeBytes %d, %d bytes", sz, len(b))
			_, _, _, nn, mn, mx, items := parseKll(c, t, b, readStr)
			c.Assert(nn == o.n && mn == o.min && mx == o.max && fmt.Sprintf("%q", items) == fmt.Sprintf("%q", o.retained()), "image", "image n=%d min=%q max=%q items %s", nn, mn, mx, short(items))
			s2, err := kll.NewKllItemsSketchFromSlice[string](b, t.less, t.serde)
			c.NoErr(err, "fromslice")
			q := *o
			q.s = s2
			q.check(c)
			c.Assert(q.fingerprint(c) == o.fingerprint(c), "roundtrip", "decoded sketch differs")
			b2, err := s2.ToSlice()
			c.Assert(err == nil && bytes.Equal(b, b2), "reencode", "decoded sketch encodes differently")
			c.State(engine.H64(b))
		},
	}
}

// c18LongStrings: strings of lengths around every power of 256, several in one sketch.
func c18LongStrings() engine.Scenario {
	return engine.Scenario{
		Name:       "long-strings",
		ShardDepth: 1,
		Bound:      "strings of every length up to 300 and around 512, 2^15, 2^16 and 2^20, alone, with a short one before or after, and 30 of increasing length: encode, decode, re-encode",
		Run: func(c *C) {
			lens := []int{511, 512, 513, 32767, 32768, 65534, 65535, 65536, 65537, 70000, 1<<20 - 1, 1 << 20, 1<<20 + 1}
			j := c.Choose(301+len(lens), "length")
			n := j
			if j > 300 {
				n = lens[j-301]
			}
			for shape := 0; shape < 4; shape++ {
				t := kStr
				t.mk = func(v int64) string {
					if v == 0 {
						return "b"
					}
					return strings.Repeat("x", n+int(v-1))
				}
				o := newK(c, t, 8, 8)
				c.RandPolicy(1, 0)
				switch shape {
				case 0:
					o.upd(c, 1)
				case 1:
					o.upd(c, 0)
					o.upd(c, 1)
				case 2:
					o.upd(c, 1)
					o.upd(c, 0)
				case 3:
					if n > 100000 {
						continue
					}
					for i := int64(1); i <= 30; i++ {
						o.upd(c, i)
					}
				}
				b, err := o.s.ToSlice()
				c.NoErr(err, "toslice")
				sz, err := o.s.GetSerializedSizeBytes()
				c.Assert(err == nil && sz == len(b), "size", "GetSerializedSizeBytes %d, %d bytes", sz, len(b))
				s2, err := kll.NewKllItemsSketchFromSlice[string](b, t.less, t.serde)
				c.NoErr(err, "fromslice")
				q := *o
				q.s = s2
				q.check(c)
				c.Assert(q.fingerprint(c) == o.fingerprint(c), "roundtrip", "decoded sketch differs (length %d)", n)
				b2, err := s2.ToSlice()
				c.Assert(err == nil && bytes.Equal(b, b2), "reencode", "decoded sketch encodes differently (length %d)", n)
				c.Step()
			}
		},
	}
}

// c18Values: extreme numbers of every numeric type.
func c18Values() engine.Scenario {
	return engine.Scenario{
		Name:  "values",
		Bound: "all ordered pairs of extreme values of int64, float32, float64 (zeros of both signs, infinities, denormals, largest): bit-exact round trip",
		Run: func(c *C) {
			f := []float64{0, math.Copysign(0, -1), 1, -1, math.Inf(1), math.Inf(-1), math.MaxFloat64, 5e-324, math.Pi}
			g := []float32{0, float32(math.Copysign(0, -1)), 1, -1, float32(math.Inf(1)), float32(math.Inf(-1)), math.MaxFloat32, 1e-45, math.Pi}
			h := []int64{0, 1, -1, math.MaxInt64, math.MinInt64, 1 << 32, -(1 << 32), 255, 0x0102030405060708}
			i, j, extra := c.Choose(9, "a"), c.Choose(9, "b"), c.Choose(2, "extra")
			c18Pair(c, kDbl, f[i], f[j], extra, func(x float64) uint64 { return math.Float64bits(x) })
			c18Pair(c, kFlt, g[i], g[j], extra, func(x float32) uint64 { return uint64(math.Float32bits(x)) })
			c18Pair(c, kInt, h[i], h[j], extra, func(x int64) uint64 { return uint64(x) })
		},
	}
}

func c18Pair[T comparable](c *C, t ktype[T], a, b T, extra int, bits func(T) uint64) {
	s, err := kll.NewKllItemsSketch[T](8, 8, t.less, t.serde)
	c.NoErr(err, "new")
	s.Update(a)
	if extra == 1 {
		s.Update(b)
	}
	im, err := s.ToSlice()
	c.NoErr(err, "toslice")
	s2, err := kll.NewKllItemsSketchFromSlice[T](im, t.less, t.serde)
	c.NoErr(err, "fromslice")
	get := func(s *kll.ItemsSketch[T]) string {
		mn, e1 := s.GetMinItem()
		mx, e2 := s.GetMaxItem()
		out := fmt.Sprintf("%x %x %v %v:", bits(mn), bits(mx), e1, e2)
		it := s.GetIterator()
		for it.Next() {
			out += fmt.Sprintf(" %x*%d", bits(it.GetQuantile()), it.GetWeight())
		}
		return out
	}
	c.Assert(get(s) == get(s2), "value", "%s %v %v: decoded %s, was %s", t.name, a, b, get(s2), get(s))
	im2, err := s2.ToSlice()
	c.Assert(err == nil && bytes.Equal(im, im2), "reencode", "%s %v %v", t.name, a, b)
}

func init() {
	engine.Register(engine.Property{
		ID: "C18",
		Scenarios: func(tier string) []engine.Scenario {
			sizes := []int{0, 1, 2, 3, 7, 8, 9, 10, 13, 16, 17, 20, 21, 25, 33, 50, 100, 203, 500}
			if tier == "thorough" {
				sizes = nil
				for i := 0; i < 130; i++ {
					sizes = append(sizes, i)
				}
				return []engine.Scenario{c18Types(append(sizes, 200, 201, 500, 2000, 9000)), c18Strings(6), c18LongStrings(), c18Values()}
			}
			return []engine.Scenario{c18Types(sizes), c18Strings(4), c18LongStrings(), c18Values()}
		},
	})
}
