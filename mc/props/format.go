package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/bits"
	"sort"

	"github.com/apache/datasketches-go/common"
	"github.com/apache/datasketches-go/count"
	"github.com/apache/datasketches-go/filters"
	"github.com/apache/datasketches-go/kll"
	"github.com/apache/datasketches-go/sampling"
	"github.com/apache/datasketches-go/tdigest"
	"github.com/apache/datasketches-go/theta"
	"github.com/apache/datasketches-go/tuple"
	"verifmc/engine"
)

// C34: the images follow the published layouts, which other languages and stored data share.  Everything here writes or reads
// those layouts without any help from the library, so that an encoder and a decoder that drift together are noticed.

type outBuf struct{ b []byte }

func (o *outBuf) u8(v ...int) *outBuf {
	for _, x := range v {
		o.b = append(o.b, byte(x))
	}
	return o
}
func (o *outBuf) u16(v uint16) *outBuf  { o.b = binary.LittleEndian.AppendUint16(o.b, v); return o }
func (o *outBuf) u32(v uint32) *outBuf  { o.b = binary.LittleEndian.AppendUint32(o.b, v); return o }
func (o *outBuf) u64(v uint64) *outBuf  { o.b = binary.LittleEndian.AppendUint64(o.b, v); return o }
func (o *outBuf) f64(v float64) *outBuf { return o.u64(math.Float64bits(v)) }

func sameImage(c *C, sig, what string, got, want []byte) {
	c.Checked()
	if bytes.Equal(got, want) {
		return
	}
	at := 0
	for at < len(got) && at < len(want) && got[at] == want[at] {
		at++
	}
	c.Fail(sig, "%s: image of %d bytes, by the published layout %d; they differ from byte %d on: %x, want %x", what, len(got), len(want), at, got[at:min(len(got), at+24)], want[at:min(len(want), at+24)])
}

func compactFlags(empty, ordered bool) int {
	f := 2 | 8
	if empty {
		f |= 4
	}
	if ordered {
		f |= 16
	}
	return f
}

// thetaImage is the version 3 image.
func thetaImage(th uint64, hashes []uint64, empty, ordered bool, seed uint64) []byte {
	pre := 2
	switch {
	case th < maxTheta && !empty:
		pre = 3
	case len(hashes) <= 1 && (empty || len(hashes) == 1):
		pre = 1
	}
	o := (&outBuf{}).u8(pre, 3, 3, 0, 0, compactFlags(empty, ordered)).u16(seedHash16(seed))
	if pre > 1 {
		o.u32(uint32(len(hashes))).u32(0)
	}
	if pre > 2 {
		o.u64(th)
	}
	for _, h := range hashes {
		o.u64(h)
	}
	return o.b
}

// thetaPacked is the version 4 image: differences of the sorted hashes in as many bits as the widest takes, highest bit first.
func thetaPacked(th uint64, hashes []uint64, seed uint64) []byte {
	var all, prev uint64
	for _, h := range hashes {
		all |= h - prev
		prev = h
	}
	w := bits.Len64(all)
	nb := (bits.Len32(uint32(len(hashes))) + 7) / 8
	pre := 1
	if th < maxTheta {
		pre = 2
	}
	o := (&outBuf{}).u8(pre, 4, 3, w, nb, compactFlags(false, true)).u16(seedHash16(seed))
	if pre == 2 {
		o.u64(th)
	}
	for i := 0; i < nb; i++ {
		o.u8(len(hashes) >> (8 * i))
	}
	prev = 0
	n := 0
	for _, h := range hashes {
		d := h - prev
		prev = h
		for b := w - 1; b >= 0; b-- {
			if n&7 == 0 {
				o.u8(0)
			}
			o.b[len(o.b)-1] |= byte(d>>b&1) << (7 - n&7)
			n++
		}
	}
	return o.b
}

// thetaCheck compares both images of a sketch with the layouts and decodes the layouts.
func thetaCheck(c *C, s *theta.CompactSketch, seed uint64, what string) {
	h := hashesInOrder(s)
	th, empty, ordered := s.Theta64(), s.IsEmpty(), s.IsOrdered()
	want := thetaImage(th, h, empty, ordered, seed)
	sameImage(c, "theta-v3", what, encodeTheta(c, s, false), want)
	mb, err := s.MarshalBinary()
	c.NoErr(err, "marshal")
	sameImage(c, "theta-v3", what+" marshalled", mb, want)
	imgs := [][]byte{want}
	packed := want
	if ordered && len(h) > 0 && (len(h) > 1 || th < maxTheta) {
		packed = thetaPacked(th, h, seed)
		imgs = append(imgs, packed)
	}
	sameImage(c, "theta-v4", what+" compressed", encodeTheta(c, s, true), packed)
	for i, img := range imgs {
		d, err := theta.Decode(img, seed)
		c.NoErr(err, "decode")
		w, err := theta.WrapCompactSketch(img, seed)
		c.NoErr(err, "wrap")
		for _, x := range []theta.Sketch{d, w} {
			c.Assert(x.Theta64() == th && x.IsEmpty() == empty && x.IsOrdered() == ordered && eqU64(hashesInOrder(x), h), "theta-read", "%s: image %d by the published layout is read as %s", what, i, short(fmt.Sprint(x.Theta64(), x.IsEmpty(), x.IsOrdered(), hashesInOrder(x))))
		}
	}
	c.State(engine.H64(want))
	c.Step()
}

func c34Theta(maxN int) engine.Scenario {
	return engine.Scenario{
		Name: "theta", ShardDepth: 1,
		Bound: fmt.Sprintf("%d operand contents x ordered/not x 2 seeds, and every number of keys 0..%d at lgK 5, p 1 and 0.5: version 3 and 4 images byte for byte, decoded and wrapped from independently written bytes", len(thetaSpecs), maxN),
		Run: func(c *C) {
			seed := []uint64{defaultSeed, 31337}[c.Choose(2, "seed")]
			i := c.Choose(len(thetaSpecs)+2, "content")
			if i >= len(thetaSpecs) {
				u := newTheta(c, 5, 3, []float32{1, 0.5}[i-len(thetaSpecs)], seed)
				for n := 0; n <= maxN; n++ {
					for _, ord := range []bool{true, false} {
						thetaCheck(c, u.Compact(ord), seed, fmt.Sprintf("%d keys ordered=%v", n, ord))
					}
					_ = u.UpdateInt64(int64(n))
				}
				return
			}
			u := thetaSpecs[i].build(c, seed)
			for _, ord := range []bool{true, false} {
				thetaCheck(c, u.Compact(ord), seed, fmt.Sprintf("%s ordered=%v", thetaSpecs[i].name, ord))
			}
		},
	}
}

func c34ThetaWidths(maxN int) engine.Scenario {
	return engine.Scenario{
		Name: "theta-packing", ShardDepth: 1,
		Bound: fmt.Sprintf("every packing width 1..63 x every count 1..%d x 3 difference patterns x exact/estimating: both images byte for byte, decoded and wrapped from independently written bytes", maxN),
		Run: func(c *C) {
			w := 1 + c.Choose(63, "width")
			pat := c.Choose(3, "pattern")
			est := c.Choose(2, "estimating") == 1
			for n := 1; n <= maxN; n++ {
				var h []uint64
				prev := uint64(0)
				for i := 0; i < n; i++ {
					d := uint64(1)
					switch pat {
					case 0:
						d = uint64(1)<<w - 1
					case 1:
						d = max(1, mix(uint64(i), uint64(w))&(1<<w-1))
					case 2:
						if i == n/2 {
							d = 1<<(w-1) | 1
						}
					}
					if d >= maxTheta-prev-1 {
						d = 1
					}
					prev += d
					h = append(h, prev)
				}
				if prev >= maxTheta-1 {
					return
				}
				r := tref{theta: maxTheta, h: h}
				if est {
					r.theta = prev + 1
				}
				s, err := theta.Decode(craftTheta(r, true, defaultSeed), defaultSeed)
				c.NoErr(err, "decode")
				thetaCheck(c, s, defaultSeed, fmt.Sprintf("width %d pattern %d count %d", w, pat, n))
			}
		},
	}
}

// c34ThetaLarge: counts around the sizes of the count field.
func c34ThetaLarge(counts ...int) engine.Scenario {
	return engine.Scenario{
		Name: "theta-large", ShardDepth: 2,
		Bound: fmt.Sprintf("%v hashes, exact/estimating: both images byte for byte", counts),
		Run: func(c *C) {
			n := pickInt(c, "count", counts...)
			est := c.Choose(2, "estimating") == 1
			h := make([]uint64, n)
			for i := range h {
				h[i] = uint64(i+1) * 5
				if n < 1<<20 {
					h[i] = uint64(i+1)<<40 | mix(uint64(i))&(1<<40-1)
				}
			}
			r := tref{theta: maxTheta, h: h}
			if est {
				r.theta = h[n-1] + 1
			}
			s, err := theta.Decode(craftTheta(r, true, defaultSeed), defaultSeed)
			c.NoErr(err, "decode")
			thetaCheck(c, s, defaultSeed, fmt.Sprintf("%d hashes", n))
		},
	}
}

// tupleHead is the header of a generic tuple image.
func tupleHead(th uint64, n int, empty, ordered bool, seed uint64) *outBuf {
	pre := 2
	switch {
	case th < maxTheta && !empty:
		pre = 3
	case empty || n == 1:
		pre = 1
	}
	o := (&outBuf{}).u8(pre, 3, 9, 1, 0, compactFlags(empty, ordered)).u16(seedHash16(seed))
	if pre > 1 {
		o.u32(uint32(n)).u32(0)
	}
	if pre > 2 {
		o.u64(th)
	}
	return o
}

func c34Tuple(maxN int) engine.Scenario {
	return engine.Scenario{
		Name: "tuple", ShardDepth: 1,
		Bound: fmt.Sprintf("%d operand contents x ordered/not x 2 seeds x 5 kinds of sketch (pointer, value, int64 array, float64 array of 3; strings), and every number of keys 0..%d: images byte for byte", len(thetaSpecs), maxN),
		Run: func(c *C) {
			kind := c.Choose(5, "kind")
			seed := []uint64{defaultSeed, 31337}[c.Choose(2, "seed")]
			ord := c.Choose(2, "ordered") == 1
			i := c.Choose(len(thetaSpecs)+1, "content")
			sp := thetaSpec{name: "counts", lgK: 5, p: 1}
			lo, hi := 0, maxN
			if i < len(thetaSpecs) {
				sp = thetaSpecs[i]
				lo, hi = 1, 1
			}
			if kind == 4 {
				c34Strings(c, sp, lo, hi, ord, seed)
				return
			}
			f := []tfam{famPtr, famVal, famI64, famF64}[kind]
			for n := lo; n <= hi; n++ {
				if i == len(thetaSpecs) {
					sp.hi = n
				}
				s := buildTuple(c, f, sp, 1, seed).compact(c, ord)
				v := s.view(c, sp.name)
				what := fmt.Sprintf("%s %s ordered=%v, %d keys", f.nm(), sp.name, ord, sp.hi-sp.lo)
				val := func(t tsum, j int) uint64 {
					if kind == 3 {
						return math.Float64bits(float64(t[j]))
					}
					return uint64(t[j])
				}
				var o *outBuf
				if kind < 2 {
					o = tupleHead(v.theta, len(v.h), v.empty, s.ordered(), seed)
					for _, h := range v.order {
						t, _ := v.get(h)
						o.u64(h).u64(uint64(t[0]))
					}
				} else {
					fl := 0
					if v.empty {
						fl |= 4
					}
					if len(v.h) > 0 {
						fl |= 8
					}
					if s.ordered() {
						fl |= 16
					}
					o = (&outBuf{}).u8(1, 1, 9, 3, fl, 3).u16(seedHash16(seed)).u64(v.theta)
					if len(v.h) > 0 {
						o.u32(uint32(len(v.h))).u32(0)
						for _, h := range v.order {
							o.u64(h)
						}
						for _, h := range v.order {
							t, _ := v.get(h)
							for j := 0; j < 3; j++ {
								o.u64(val(t, j))
							}
						}
					}
				}
				sameImage(c, "tuple", what, f.encode(c, s), o.b)
				d, err := f.decode(o.b, seed)
				c.NoErr(err, "decode")
				g := d.view(c, what+" read")
				c.Assert(g.same(v) && eqU64(g.order, v.order) && d.ordered() == s.ordered(), "tuple-read", "%s: the image by the published layout is read as %s", what, g.diff(v))
				c.State(engine.H64(o.b))
				c.Step()
			}
		},
	}
}

func c34Strings(c *C, sp thetaSpec, lo, hi int, ord bool, seed uint64) {
	for n := lo; n <= hi; n++ {
		if sp.name == "counts" {
			sp.hi = n
		}
		u, err := tuple.NewUpdateSketch[*tuple.ArrayOfStringsSummary, []string](tuple.NewArrayOfStringsSummaryFunc, tuple.WithUpdateSketchLgK(uint8(sp.lgK)), tuple.WithUpdateSketchP(sp.p), tuple.WithUpdateSketchSeed(seed))
		c.NoErr(err, "new")
		vals := map[uint64][]string{}
		for k := sp.lo; k < sp.hi; k++ {
			v := []string{fmt.Sprint("v", k), "é", ""}[:k%4]
			vals[thetaHash(int64(k), seed)] = v
			_ = u.UpdateInt64(int64(k), v)
		}
		s, err := u.Compact(ord)
		c.NoErr(err, "compact")
		nn := 0
		for range s.All() {
			nn++
		}
		o := tupleHead(s.Theta64(), nn, s.IsEmpty(), s.IsOrdered(), seed)
		for h := range s.All() {
			o.u64(h)
			o.b = append(o.b, encStrings(vals[h])...)
		}
		var b bytes.Buffer
		e := tuple.NewEncoder[*tuple.ArrayOfStringsSummary](&b, tuple.ArrayOfStringsSummaryWriter)
		c.NoErr(e.Encode(s), "encode")
		sameImage(c, "tuple-strings", fmt.Sprintf("strings %s ordered=%v, %d keys", sp.name, ord, sp.hi-sp.lo), b.Bytes(), o.b)
		c.State(engine.H64(o.b))
		c.Step()
	}
}

func c34Hll(lgKs []int) engine.Scenario {
	specs := hllSpecs(lgKs, []int{0, 1, 2})
	return engine.Scenario{
		Name: "hll", ShardDepth: 1,
		Bound: fmt.Sprintf("%d sketches (lgK %v, every mode and register type, in order and merged): compact and updatable images read by the published layout give the coupons, registers and estimator state of the items", len(specs), lgKs),
		Run: func(c *C) {
			sp := specs[c.Choose(len(specs), "sketch")]
			s, cs := sp.build(c)
			r := newHref(sp.lgK)
			for _, k := range cs {
				r.add(k)
			}
			for i, h := range []himg{himage(c, s, sp.String()), himageC(c, s, sp.String())} {
				if h.empty {
					c.Assert(len(r.list) == 0, "hll", "%v: image %d is empty", sp, i)
					continue
				}
				if !sp.ooo {
					err := h.matches(r)
					c.Assert(err == nil, "hll", "%v: image %d: %v", sp, i, err)
				}
			}
			for _, f := range []func() ([]byte, error){s.ToCompactSlice, s.ToUpdatableSlice} {
				b, err := f()
				c.NoErr(err, "encode")
				c.State(engine.H64(b))
			}
			c.Step()
		},
	}
}

func kllLayout[T comparable](c *C, t ktype[T], read func([]byte) (T, int), n int, k uint16, m uint8, merged bool) {
	o := newK(c, t, k, m)
	for i := 0; i < n; i++ {
		o.upd(c, streamVal(2, i, n))
	}
	if merged {
		p := newK(c, t, 8, 8)
		for i := 0; i < n/2; i++ {
			p.upd(c, streamVal(1, i, n))
		}
		o.merge(c, p)
	}
	b, err := o.s.ToSlice()
	c.NoErr(err, "toslice")
	what := o.what()
	sorted := b[3]&2 != 0
	c.Assert(b[3]&^7 == 0 && b[7] == 0, "kll", "%s: header % x", what, b[:8])
	gk, _, gm, gn, mn, mx, items := parseKll(c, t, b, read)
	c.Assert(gk == k && gm == m && gn == o.n, "kll", "%s: image says k=%d m=%d n=%d", what, gk, gm, gn)
	if o.n == 0 {
		return
	}
	smn, _ := o.s.GetMinItem()
	smx, _ := o.s.GetMaxItem()
	c.Assert(mn == smn && mx == smx, "kll", "%s: image says extremes %v %v, sketch %v %v", what, mn, mx, smn, smx)
	var prev *T
	var lev int64 = 1
	for i := range items {
		w := items[i]
		if w.w != lev {
			prev, lev = nil, w.w
		}
		if prev != nil && (lev > 1 || sorted) && t.less(w.v, *prev) {
			c.Fail("kll", "%s: level of weight %d is not sorted (flag %v)", what, lev, sorted)
		}
		prev = &items[i].v
	}
	key := func(v T, w int64) string { return fmt.Sprintf("%v/%d", v, w) }
	var a, g []string
	for _, x := range items {
		a = append(a, key(x.v, x.w))
	}
	for it := o.s.GetIterator(); it.Next(); {
		g = append(g, key(it.GetQuantile(), it.GetWeight()))
	}
	sort.Strings(a)
	sort.Strings(g)
	c.Assert(fmt.Sprint(a) == fmt.Sprint(g), "kll", "%s: image holds %s, sketch %s", what, short(fmt.Sprint(a)), short(fmt.Sprint(g)))
	// the same content laid out independently
	w := (&outBuf{}).u8(2, 2, 15, int(b[3]&2|4)).u16(k).u8(int(m), 0)
	if o.n == 1 {
		w.b = append(w.b, t.serde.SerializeOneToSlice(items[0].v)...)
		sameImage(c, "kll", what, b, w.b)
	}
	d, err := kll.NewKllItemsSketchFromSlice[T](b, t.less, t.serde)
	c.NoErr(err, "fromslice")
	c.Assert(d.GetN() == o.n && d.GetNumRetained() == uint32(len(items)), "kll", "%s: read back as n=%d", what, d.GetN())
	c.State(engine.H64(b))
}

func c34Kll(ns []int) engine.Scenario {
	return engine.Scenario{
		Name: "kll", ShardDepth: 2,
		Bound: fmt.Sprintf("4 item types x 3 configurations x every number of items 0..60 and %v x merged or not: header fields and flags, level boundaries, sortedness as stated, items and weights", ns),
		Run: func(c *C) {
			cfg := [][2]int{{8, 8}, {8, 2}, {20, 4}}[c.Choose(3, "config")]
			typ := c.Choose(4, "type")
			merged := c.Choose(2, "merged") == 1
			i := c.Choose(61+len(ns), "n")
			n := i
			if i > 60 {
				n = ns[i-61]
			}
			c.RandPolicy(2, 0)
			le := binary.LittleEndian
			k, m := uint16(cfg[0]), uint8(cfg[1])
			switch typ {
			case 0:
				kllLayout(c, kInt, func(b []byte) (int64, int) { return int64(le.Uint64(b)), 8 }, n, k, m, merged)
			case 1:
				kllLayout(c, kDbl, func(b []byte) (float64, int) { return math.Float64frombits(le.Uint64(b)), 8 }, n, k, m, merged)
			case 2:
				kllLayout(c, kFlt, func(b []byte) (float32, int) { return math.Float32frombits(le.Uint32(b)), 4 }, n, k, m, merged)
			case 3:
				kllLayout(c, kStr, readStr, n, k, m, merged)
			}
			c.Step()
		},
	}
}

func c34Td() engine.Scenario {
	return engine.Scenario{
		Name:  "tdigest",
		Bound: "k 10, 11, 100 x 5 value patterns x every number of values 0..120, written with and without the buffer: reserved bytes, flags, extremes, total weight, ordered centroids, buffer contents; independently written images are read back to the same bytes",
		Run: func(c *C) {
			k := pickInt(c, "k", 10, 11, 100)
			shape := c.Choose(5, "shape")
			for n := 0; n <= 120; n++ {
				var vals []float64
				mk := func() *tdigest.Double {
					d := tdNew(c, k)
					vals = nil
					for i := 0; i < n; i++ {
						v := tdVal(shape, i, n)
						vals = append(vals, v)
						c.NoErr(d.Update(v), "update")
					}
					return d
				}
				for _, withBuf := range []bool{true, false} {
					d := mk()
					b, err := tdigest.EncodeDouble(d, withBuf)
					c.NoErr(err, "encode")
					what := fmt.Sprintf("k=%d shape %d n=%d buffer %v", k, shape, n, withBuf)
					g := parseTD(c, b)
					c.Assert(g.flags&^7 == 0 && b[6] == 0 && b[7] == 0 && (g.flags&1 != 0) == (n == 0) && (g.flags&2 != 0) == (n == 1) && g.k == k, "tdigest", "%s: header % x", what, b[:8])
					c.Assert(int(g.n) == n && (withBuf || len(g.buffer) == 0), "tdigest", "%s: image holds weight %d, %d values in the buffer", what, g.n, len(g.buffer))
					if n > 1 {
						s := append([]float64{}, vals...)
						sort.Float64s(s)
						c.Assert(g.min == s[0] && g.max == s[n-1] && sort.Float64sAreSorted(g.means), "tdigest", "%s: extremes %v %v, want %v %v; means %v", what, g.min, g.max, s[0], s[n-1], short(fmt.Sprint(g.means)))
						o := (&outBuf{}).u8(2, 1, 20).u16(uint16(k)).u8(int(g.flags), 0, 0).u32(uint32(len(g.means))).u32(uint32(len(g.buffer))).f64(g.min).f64(g.max)
						for i := range g.means {
							o.f64(g.means[i]).u64(g.weights[i])
						}
						for i, v := range g.buffer {
							c.Assert(math.Float64bits(v) == math.Float64bits(vals[n-len(g.buffer)+i]), "tdigest", "%s: buffered value %d is %v", what, i, v)
							o.f64(v)
						}
						d2, err := tdigest.DecodeDouble(o.b)
						c.NoErr(err, "decode")
						b2, err := tdigest.EncodeDouble(d2, withBuf)
						c.NoErr(err, "encode")
						sameImage(c, "tdigest", what+" read and written again", b2, o.b)
					}
					c.State(engine.H64(b))
					c.Step()
				}
			}
		},
	}
}

func c34Freq() engine.Scenario {
	fams := fqFamilies()
	return engine.Scenario{
		Name: "frequencies", ShardDepth: 2,
		Bound: fmt.Sprintf("%d key types x 2 map sizes x 3 alphabets x every prefix of a 60-update stream with purges: header, weight, offset and the counters of exactly the tracked items", len(fams)),
		Run: func(c *C) {
			f := fams[c.Choose(len(fams), "family")]
			lg := pickInt(c, "lgMax", 3, 5)
			const nKeys = 24
			f.keys(c.Choose(3, "alphabet"), nKeys)
			s, err := f.mk(lg, 3)
			c.NoErr(err, "new")
			for i := 0; i <= 60; i++ {
				b, err := s.bytes()
				c.NoErr(err, "serialize")
				g := fqParse(c, b)
				if i > 0 {
					c.Assert(b[6] == 0 && b[7] == 0 && binary.LittleEndian.Uint32(b[12:]) == 0 && g.pre == 4 && g.lgMax == lg && g.lgCur >= 3 && g.lgCur <= lg, "freq", "header % x", b[:16])
					c.Assert(g.weight == s.weight() && g.offset == s.maxErr() && len(g.counts) == s.active(), "freq", "image: weight %d offset %d, %d counters; sketch %d %d %d", g.weight, g.offset, len(g.counts), s.weight(), s.maxErr(), s.active())
					var a, w []int64
					for k := 0; k < nKeys; k++ {
						_, lb, _, err := s.bounds(k)
						c.NoErr(err, "bounds")
						if lb > 0 {
							a = append(a, lb)
						}
					}
					w = append(w, g.counts...)
					sort.Slice(a, func(i, j int) bool { return a[i] < a[j] })
					sort.Slice(w, func(i, j int) bool { return w[i] < w[j] })
					c.Assert(fmt.Sprint(a) == fmt.Sprint(w), "freq", "image counters %v, lower bounds %v", w, a)
				} else {
					c.Assert(g.pre == 1 && g.lgMax == lg && len(b) == 8, "freq", "empty image % x", b)
				}
				k, wt := fqStreamItem(2, i, nKeys)
				c.NoErr(s.update(k, wt), "update")
				c.State(engine.H64(b))
				c.Step()
			}
		},
	}
}

func c34CM() engine.Scenario {
	return engine.Scenario{
		Name: "count-min", ShardDepth: 1,
		Bound: "rows 1, 2, 5 x buckets 3, 7, 64 x 3 seeds x every prefix of a 40-update stream: the whole image from the cells an empty sketch shows for each item",
		Run: func(c *C) {
			g := cmCfg{int8(pickInt(c, "rows", 1, 2, 5)), int32(pickInt(c, "cols", 3, 7, 64)), []int64{9001, 0, 123456789}[c.Choose(3, "seed")]}
			s := g.mk(c)
			cells := make([]int64, int(g.rows)*int(g.cols))
			var total int64
			for i := 0; i <= 40; i++ {
				fl := 0
				if total == 0 {
					fl = 1
				}
				o := (&outBuf{}).u8(2, 1, 18, fl).u32(0).u32(uint32(g.cols)).u8(int(g.rows)).u16(seedHash16(uint64(g.seed))).u8(0)
				if total > 0 {
					o.u64(uint64(total))
					for _, x := range cells {
						o.u64(uint64(x))
					}
				}
				var w bytes.Buffer
				c.NoErr(s.Serialize(&w), "serialize")
				sameImage(c, "count-min", fmt.Sprintf("%+v after %d updates", g, i), w.Bytes(), o.b)
				d, err := count.NewCountMinSketch(1, 3, g.seed)
				c.NoErr(err, "new")
				d, err = d.Deserialize(o.b, g.seed)
				c.NoErr(err, "deserialize")
				c.Assert(d.GetTotalWeight() == total && d.GetNumHashes() == g.rows && d.GetNumBuckets() == g.cols, "count-min", "read as weight %d rows %d buckets %d", d.GetTotalWeight(), d.GetNumHashes(), d.GetNumBuckets())
				k := cmU(uint64(i % 13))
				wt := int64(1 + i%5)
				for _, p := range cmPos(c, g, k) {
					cells[p] += wt
				}
				total += wt
				c.NoErr(k.update(s, wt), "update")
				c.State(engine.H64(o.b))
				c.Step()
			}
		},
	}
}

func c34Bloom() engine.Scenario {
	return engine.Scenario{
		Name: "bloom", ShardDepth: 1,
		Bound: "64, 65, 128, 1000 bits x 1, 3, 7 hashes x 3 seeds x every prefix of a 40-item stream: the whole image from the bits an empty filter shows for each item; the image without its bit count is read too",
		Run: func(c *C) {
			g := bfCfg{uint64(pickInt(c, "bits", 64, 65, 128, 1000)), uint16(pickInt(c, "hashes", 1, 3, 7)), []uint64{9001, 0, 1<<63 + 5}[c.Choose(3, "seed")]}
			f := g.mk(c)
			state := make([]uint64, (g.bits+63)/64)
			for i := 0; i <= 40; i++ {
				n := popcount(state)
				mk := func(count uint64) []byte {
					pre, fl := 4, 0
					if n == 0 {
						pre, fl = 3, 4
					}
					o := (&outBuf{}).u8(pre, 1, 21, fl).u16(g.hashes).u16(0).u64(g.seed).u32(uint32(len(state))).u32(0)
					if n > 0 {
						o.u64(count)
						for _, w := range state {
							o.u64(w)
						}
					}
					return o.b
				}
				b, err := f.ToCompactSlice()
				c.NoErr(err, "serialize")
				sameImage(c, "bloom", fmt.Sprintf("%+v after %d items", g, i), b, mk(n))
				for _, cnt := range []uint64{n, math.MaxUint64} {
					d, err := filters.NewBloomFilterFromSlice(mk(cnt))
					c.NoErr(err, "fromslice")
					c.Assert(d.BitsUsed() == n && d.Seed() == g.seed && d.NumHashes() == g.hashes && d.Capacity() == uint64(64*len(state)), "bloom", "%+v: read as %d bits, seed %d, %d hashes, capacity %d", g, d.BitsUsed(), d.Seed(), d.NumHashes(), d.Capacity())
				}
				x := bfItemN(i%2, i)
				orInto(state, bfProbe(c, g, x))
				c.NoErr(x.update(f), "update")
				c.State(engine.H64(b))
				c.Step()
			}
		},
	}
}

// rsLayout is the image of a reservoir with these samples.
func rsLayout(k int, n int64, samples [][]byte) []byte {
	if n == 0 {
		return (&outBuf{}).u8(1|3<<6, 2, 11, 4).u32(uint32(k)).b
	}
	o := (&outBuf{}).u8(2|3<<6, 2, 11, 0).u32(uint32(k)).u64(uint64(n))
	for _, s := range samples {
		o.b = append(o.b, s...)
	}
	return o.b
}

func c34Reservoir() engine.Scenario {
	return engine.Scenario{
		Name: "reservoir", ShardDepth: 1,
		Bound: "k 2, 5, 16 x every number of items 0..40 x int64, float64 and string items, reservoirs and unions of them: the whole image from the samples",
		Run: func(c *C) {
			k := pickInt(c, "k", 2, 5, 16)
			typ := c.Choose(3, "type")
			c.RandPolicy(2, 0)
			for n := 0; n <= 40; n++ {
				switch typ {
				case 0:
					rsLay(c, k, n, voCodec[int64]{serde: voSerde, item: func(i int) int64 { return int64(i)<<33 - 7 }}, func(v int64) []byte { return (&outBuf{}).u64(uint64(v)).b })
				case 1:
					rsLay(c, k, n, vcF64, func(v float64) []byte { return (&outBuf{}).f64(v).b })
				case 2:
					rsLay(c, k, n, vcStr, func(v string) []byte { return append((&outBuf{}).u32(uint32(len(v))).b, v...) })
				}
				c.Step()
			}
		},
	}
}

func rsLay[T comparable](c *C, k, n int, v voCodec[T], enc func(T) []byte) {
	s, err := sampling.NewReservoirItemsSketch[T](k)
	c.NoErr(err, "new")
	for i := 0; i < n; i++ {
		c.NoErr(s.Update(v.item(i)), "update")
	}
	lay := func(s *sampling.ReservoirItemsSketch[T]) []byte {
		var xs [][]byte
		for _, x := range s.Samples() {
			xs = append(xs, enc(x))
		}
		return rsLayout(s.K(), s.N(), xs)
	}
	what := fmt.Sprintf("reservoir k=%d n=%d", k, n)
	b, err := s.ToSlice(v.serde)
	c.NoErr(err, "encode")
	sameImage(c, "reservoir", what, b, lay(s))
	d, err := sampling.NewReservoirItemsSketchFromSlice[T](lay(s), v.serde)
	c.NoErr(err, "decode")
	c.Assert(d.K() == k && d.N() == int64(n) && fmt.Sprint(d.Samples()) == fmt.Sprint(s.Samples()), "reservoir-read", "%s: read as k=%d n=%d %v", what, d.K(), d.N(), short(fmt.Sprint(d.Samples())))
	u, err := sampling.NewReservoirItemsUnion[T](k + 3)
	c.NoErr(err, "union")
	c.NoErr(u.UpdateSketch(s), "union-update")
	b, err = u.ToSlice(v.serde)
	c.NoErr(err, "encode")
	o := (&outBuf{}).u8(1, 2, 12)
	if n == 0 {
		o.u8(4).u32(uint32(k + 3))
	} else {
		r, err := u.Result()
		c.NoErr(err, "result")
		o.u8(0).u32(uint32(k + 3))
		o.b = append(o.b, lay(r)...)
	}
	sameImage(c, "reservoir-union", what+" in a union", b, o.b)
	c.State(engine.H64(b))
}

// voLay reads a VarOpt image; marked says that it is the gadget of a union.
func voLay[T comparable](c *C, b []byte, s *sampling.VarOptItemsSketch[T], marked bool, read func([]byte) (T, int), what string) {
	le := binary.LittleEndian
	fl := 0
	if marked {
		fl = 128
	}
	o := &outBuf{}
	if s.N() == 0 {
		sameImage(c, "varopt", what, b, o.u8(1|3<<6, 2, 13, fl|4).u32(uint32(s.K())).b)
		return
	}
	pre := 3
	if s.R() > 0 {
		pre = 4
	}
	o.u8(pre|3<<6, 2, 13, fl).u32(uint32(s.K())).u64(uint64(s.N())).u32(uint32(s.H())).u32(uint32(s.R()))
	c.Assert(len(b) >= 8*pre+8*s.H(), "varopt", "%s: image of %d bytes", what, len(b))
	tot := math.Float64frombits(0)
	if s.R() > 0 {
		tot = math.Float64frombits(le.Uint64(b[24:]))
		o.f64(tot)
	}
	p := b[8*pre:]
	var w []float64
	for i := 0; i < s.H(); i++ {
		w = append(w, math.Float64frombits(le.Uint64(p[8*i:])))
		o.f64(w[i])
	}
	p = p[8*s.H():]
	if marked {
		nb := (s.H() + 7) / 8
		c.Assert(len(p) >= nb, "varopt", "%s: image ends in the marks", what)
		o.b = append(o.b, p[:nb]...)
		if s.H()%8 != 0 {
			c.Assert(p[nb-1]>>(s.H()%8) == 0, "varopt", "%s: marks beyond the %d heavy items: % x", what, s.H(), p[:nb])
		}
		p = p[nb:]
	}
	sameImage(c, "varopt", what, b[:len(b)-len(p)], o.b)
	var a, g []string
	for i := 0; i < s.H()+s.R(); i++ {
		c.Assert(len(p) > 0, "varopt", "%s: image ends after %d items", what, i)
		x, l := read(p)
		p = p[l:]
		wt := tot / float64(max(1, s.R()))
		if i < s.H() {
			wt = w[i]
		}
		a = append(a, fmt.Sprintf("%v/%v", x, wt))
	}
	c.Assert(len(p) == 0, "varopt", "%s: %d bytes after the items", what, len(p))
	for x := range s.All() {
		g = append(g, fmt.Sprintf("%v/%v", x.Item, x.Weight))
	}
	sort.Strings(a)
	sort.Strings(g)
	c.Assert(fmt.Sprint(a) == fmt.Sprint(g), "varopt", "%s: image holds %s, sketch %s", what, short(fmt.Sprint(a)), short(fmt.Sprint(g)))
}

func voLays[T comparable](c *C, k, shape int, v voCodec[T], read func([]byte) (T, int)) {
	s, err := sampling.NewVarOptItemsSketch[T](uint(k))
	c.NoErr(err, "new")
	for n := 0; n <= 40; n++ {
		what := fmt.Sprintf("VarOpt k=%d weights %d n=%d", k, shape, n)
		b := v.enc(c, s)
		voLay(c, b, s, false, read, what)
		u, err := sampling.NewVarOptItemsUnion[T](uint(k + 3))
		c.NoErr(err, "union")
		c.NoErr(u.Update(s), "union-update")
		var w bytes.Buffer
		e := sampling.NewVarOptItemsUnionEncoder[T](&w, v.serde)
		c.NoErr(e.Encode(u), "encode")
		ub := w.Bytes()
		if n == 0 {
			sameImage(c, "varopt-union", what+" in a union", ub, (&outBuf{}).u8(1, 2, 14, 4).u32(uint32(k+3)).b)
		} else {
			num, den := 0.0, uint64(0)
			if s.R() > 0 {
				num, den = math.Float64frombits(binary.LittleEndian.Uint64(b[24:])), uint64(s.R())
			}
			o := (&outBuf{}).u8(4, 2, 14, 0).u32(uint32(k + 3)).u64(uint64(n)).f64(num).u64(den)
			c.Assert(len(ub) > 32, "varopt-union", "%s: union image of %d bytes", what, len(ub))
			sameImage(c, "varopt-union", what+" in a union", ub[:32], o.b)
			r, err := sampling.DecodeVarOptItemsSketch[T](ub[32:], v.serde)
			c.NoErr(err, "decode")
			c.Assert(r.K() == k+3 && r.N() == int64(min(k, n)), "varopt-union", "%s: gadget k=%d n=%d", what, r.K(), r.N())
			voLay(c, ub[32:], r, true, read, what+" in a union")
		}
		c.State(engine.H64(ub))
		wt := 1.0
		switch shape {
		case 1:
			wt = float64(1 + n%7)
		case 2:
			wt = math.Ldexp(1, n%5*4)
		}
		c.NoErr(s.Update(v.item(n), wt), "update")
		c.Step()
	}
}

func c34VarOpt() engine.Scenario {
	return engine.Scenario{
		Name: "varopt", ShardDepth: 1,
		Bound: "k 2, 5, 16 x 3 weight patterns x int64, float64 and string items x every number of items 0..40: images of sketches and of unions, header, regions, weights, marks and items",
		Run: func(c *C) {
			k := pickInt(c, "k", 2, 5, 16)
			shape := c.Choose(3, "weights")
			typ := c.Choose(3, "type")
			c.RandPolicy(2, 0)
			le := binary.LittleEndian
			switch typ {
			case 0:
				voLays(c, k, shape, voCodec[int64]{serde: voSerde, item: func(i int) int64 { return int64(i)<<33 - 7 }}, func(b []byte) (int64, int) { return int64(le.Uint64(b)), 8 })
			case 1:
				voLays(c, k, shape, vcF64, func(b []byte) (float64, int) { return math.Float64frombits(le.Uint64(b)), 8 })
			case 2:
				voLays(c, k, shape, vcStr, readStr)
			}
		},
	}
}

var (
	vcF64 = voCodec[float64]{common.ItemSketchDoubleSerDe{}, func(i int) float64 { return []float64{0, -1.5, math.Inf(1), 1e-310, 7}[i%5] }}
	vcStr = voCodec[string]{common.ItemSketchStringSerDe{}, svStr}
)

func init() {
	engine.Register(engine.Property{ID: "C34", Assumptions: []string{
		"the layouts are those of the images other languages wrote, which the repository's own tests decode; the code tables of the CPC format are a frozen copy",
	}, Scenarios: func(tier string) []engine.Scenario {
		if tier == "thorough" {
			return []engine.Scenario{
				c34Theta(6000), c34ThetaWidths(300), c34ThetaLarge(254, 255, 256, 257, 258, 65534, 65535, 65536, 65537, 65538, 100000, 1<<24-1, 1<<24, 1<<24+1), c34Tuple(300), c34Hll([]int{4, 5, 7, 8, 10, 12}), c34Kll([]int{200, 1000, 5000, 30000}), c34Td(), c34Freq(), c34CM(), c34Bloom(), c34Reservoir(), c34VarOpt(),
				c34Cpc([]int{4, 5, 6, 7, 8, 9, 10, 11, 12}, true), c34CpcPairs(3), c34CpcWindow([]int{8, 10, 11, 12, 13, 14}, []int{1, 2, 3, 5, 8, 9, 20, 40, 54, 55}),
			}
		}
		return []engine.Scenario{
			c34Theta(1500), c34ThetaWidths(66), c34ThetaLarge(254, 255, 256, 257, 258, 65534, 65535, 65536, 65537, 65538, 100000), c34Tuple(60), c34Hll([]int{4, 5, 8, 11}), c34Kll([]int{200, 1000, 5000}), c34Td(), c34Freq(), c34CM(), c34Bloom(), c34Reservoir(), c34VarOpt(),
			c34Cpc([]int{4, 5, 6, 8, 9}, true), c34CpcPairs(2), c34CpcWindow([]int{8, 10, 11}, []int{1, 2, 9, 30, 55}),
		}
	}})
}
