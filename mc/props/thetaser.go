package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"slices"

	"github.com/apache/datasketches-go/theta"

	"verifmc/engine"
)

func hashesInOrder(s theta.Sketch) []uint64 {
	var h []uint64
	for x := range s.All() {
		h = append(h, x)
	}
	return h
}

// sameTheta compares two sketches including the order of iteration and the bounds.
func sameTheta(c *C, what string, a, b theta.Sketch) {
	ra, rb := observe(c, a, what), observe(c, b, what)
	c.Assert(ra.eq(rb), "rt-content", "%s: %v vs %v", what, ra, rb)
	if ha, hb := hashesInOrder(a), hashesInOrder(b); !eqU64(ha, hb) {
		c.Fail("rt-order", "%s: entries come back in a different order: %x vs %x", what, ha, hb)
	}
	c.Assert(a.IsOrdered() == b.IsOrdered(), "rt-ordered", "%s: IsOrdered %v vs %v", what, a.IsOrdered(), b.IsOrdered())
	sa, _ := a.SeedHash()
	sb, _ := b.SeedHash()
	c.Assert(sa == sb, "rt-seed", "%s: seed hash %x vs %x", what, sa, sb)
	c.Assert(a.Estimate() == b.Estimate() && a.Theta() == b.Theta() && a.IsEstimationMode() == b.IsEstimationMode(), "rt-est", "%s: estimates differ", what)
	for k := uint8(1); k <= 3; k++ {
		la, e1 := a.LowerBound(k)
		lb, e2 := b.LowerBound(k)
		ua, e3 := a.UpperBound(k)
		ub, e4 := b.UpperBound(k)
		c.Assert(e1 == nil && e2 == nil && e3 == nil && e4 == nil && la == lb && ua == ub, "rt-bounds", "%s: bounds differ", what)
	}
	// early termination of the iterator
	n := 0
	for range b.All() {
		n++
		if n == 3 {
			break
		}
	}
	c.Assert(n == min(3, len(ra.h)), "rt-iter", "%s: iterator stopped after %d", what, n)
}

// roundTrip checks every format of one compact sketch.
func roundTrip(c *C, cs *theta.CompactSketch, seed uint64) {
	empty := cs.IsEmpty()
	for _, comp := range []bool{false, true} {
		what := fmt.Sprintf("compressed=%v", comp)
		b := encodeTheta(c, cs, comp)
		c.Step()
		c.Assert(len(b) == cs.SerializedSizeBytes(comp), "size", "%s: wrote %d bytes, advertised %d", what, len(b), cs.SerializedSizeBytes(comp))
		if !comp {
			m, err := cs.MarshalBinary()
			c.NoErr(err, "marshal")
			c.Assert(eqBytes(m, b), "marshal", "MarshalBinary differs from the plain encoder")
		}
		orig := slices.Clone(b)
		d, err := theta.Decode(b, seed)
		c.NoErr(err, "decode")
		sameTheta(c, what+" decoded", cs, d)
		for _, comp2 := range []bool{false, true} {
			c.Assert(eqBytes(encodeTheta(c, d, comp2), encodeTheta(c, cs, comp2)), "reencode", "%s: encoding the decoded sketch gives different bytes", what)
		}
		dec := theta.NewDecoder(seed)
		d2, err := dec.Decode(bytes.NewReader(b))
		c.NoErr(err, "decode")
		sameTheta(c, what+" decoder", cs, d2)
		w, err := theta.WrapCompactSketch(b, seed)
		c.NoErr(err, "wrap")
		sameTheta(c, what+" wrapped", cs, w)
		sameTheta(c, what+" wrapped again", cs, w)
		for _, ord := range []bool{false, true} {
			wc := theta.NewCompactSketch(w, ord)
			rw, rc := observe(c, wc, "compact of wrapped"), observe(c, cs, "orig")
			c.Assert(rw.eq(rc), "rt-content", "%s: compact of wrapped differs", what)
		}
		// trailing bytes must not matter
		ext := append(slices.Clone(b), 0xAB, 0xCD, 0xEF, 1, 2, 3, 4, 5, 6)
		if d3, err := theta.Decode(ext, seed); err == nil {
			c.Assert(observe(c, d3, "ext").eq(observe(c, cs, "orig")), "rt-content", "%s: trailing bytes change the content", what)
		}
		if !empty {
			_, err = theta.Decode(b, seed+1)
			c.Assert(err != nil, "wrong-seed", "%s: decoded with a wrong seed", what)
			_, err = theta.WrapCompactSketch(b, seed+1)
			c.Assert(err != nil, "wrong-seed", "%s: wrapped with a wrong seed", what)
		}
		c.Assert(eqBytes(orig, b), "image-changed", "decoding changed the bytes")
		c.Steps(6)
	}
	c.State(observe(c, cs, "orig").fp())
}

// c03Widths: every delta width and every entry count.
func c03Widths(maxN int) engine.Scenario {
	return engine.Scenario{
		Name: "theta-widths", ShardDepth: 2,
		Bound: fmt.Sprintf("every packing width 1..63 x every count 1..%d x delta patterns {all ones, alternating bits, one wide delta first/last/middle with small others, mixed bits} x exact/estimating x ordered/unordered, as far as the hashes stay below theta", maxN),
		Run: func(c *C) {
			w := 1 + c.Choose(63, "width")
			n := 1 + c.Choose(maxN, "count")
			pat := c.Choose(7, "pattern")
			ordered := c.Choose(2, "ordered") == 0
			top := uint64(1)<<uint(w) - 1
			var h []uint64
			prev := uint64(0)
			for i := 0; i < n; i++ {
				d := uint64(1)
				switch pat {
				case 0:
					d = top
				case 1:
					d = top & (0xAAAAAAAAAAAAAAAA >> uint(i&1))
				case 2:
					if i == 0 {
						d = 1 << uint(w-1)
					}
				case 3:
					if i == n-1 {
						d = top
					}
				case 4:
					if i == n/2 {
						d = 1<<uint(w-1) | 5&top
					}
				case 6:
					if i == n/2 {
						d = min(top, maxTheta-prev-uint64(n)-4)
					}
				case 5:
					d = (uint64(i+1) * 0x9E3779B97F4A7C15) & top
				}
				if d == 0 {
					d = 1
				}
				if prev >= maxTheta-2 {
					return
				}
				if d >= maxTheta-prev-1 {
					d = 1
				}
				prev += d
				h = append(h, prev)
			}
			if prev >= maxTheta-1 {
				return
			}
			r := tref{theta: maxTheta, h: h}
			if c.Choose(2, "estimating") == 1 {
				r.theta = prev + 1
			}
			cs, err := theta.Decode(craftTheta(r, ordered, defaultSeed), defaultSeed)
			c.NoErr(err, "decode")
			c.Assert(observe(c, cs, "crafted").eq(r), "craft", "hand-made image decoded to something else")
			roundTrip(c, cs, defaultSeed)
		},
	}
}

func c03Counts(max int) engine.Scenario {
	var counts []int
	for n := 0; n <= 300; n++ {
		counts = append(counts, n)
	}
	for _, n := range []int{511, 512, 513, 1023, 4095, 4096, 65535, 65536, 65537, 70001} {
		if n <= max {
			counts = append(counts, n)
		}
	}
	return engine.Scenario{
		Name: "theta-counts", ShardDepth: 2,
		Bound: fmt.Sprintf("sketches fed 0..300 and %d larger counts of distinct keys, lgK 17, seeds {default, 1, 2^63}, ordered/unordered, p in {1, 0.5}: all formats round trip", len(counts)-301),
		Run: func(c *C) {
			n := counts[c.Choose(len(counts), "n")]
			seed := []uint64{defaultSeed, 1, 1 << 63}[c.Choose(3, "seed")]
			p := float32(pickF(c, "p", 1, 0.5))
			ord := c.Choose(2, "ordered") == 0
			s := newTheta(c, 17, 3, p, seed)
			for i := 0; i < n; i++ {
				_ = s.UpdateInt64(int64(i))
			}
			cs := s.Compact(ord)
			// the advertised maximum
			roundTrip(c, cs, seed)
		},
	}
}

func c03Ops() engine.Scenario {
	return engine.Scenario{
		Name: "theta-op-results", ShardDepth: 3,
		Bound: "every compact sketch obtainable from the C02 operand alphabet directly, as union, intersection and difference of any two of them (ordered or not): all formats round trip; reported maximum serialized size is respected",
		Run: func(c *C) {
			a := thetaSpecs[c.Choose(len(thetaSpecs), "A")].build(c, defaultSeed)
			b := thetaSpecs[c.Choose(len(thetaSpecs), "B")].build(c, defaultSeed)
			ord := c.Choose(2, "ordered") == 0
			var cs *theta.CompactSketch
			var err error
			switch c.Choose(4, "kind") {
			case 0:
				cs = a.Compact(ord)
			case 1:
				u, e := theta.NewUnion(theta.WithUnionLgK(5), theta.WithUnionSketchP(0.5))
				c.NoErr(e, "new")
				c.NoErr(u.Update(a), "upd")
				c.NoErr(u.Update(b), "upd")
				cs, err = u.Result(ord)
			case 2:
				in := theta.NewIntersection()
				c.NoErr(in.Update(a), "upd")
				c.NoErr(in.Update(b), "upd")
				cs, err = in.Result(ord)
			case 3:
				cs, err = theta.ANotB(a, b, defaultSeed, ord)
			}
			c.NoErr(err, "op")
			roundTrip(c, cs, defaultSeed)
		},
	}
}

func c03MaxSize() engine.Scenario {
	return engine.Scenario{
		Name: "theta-max-size", ShardDepth: 1,
		Bound: "every lgK in 5..12, every prefix of a stream filling the sketch: compact serialized size never exceeds MaxSerializedSizeBytes(lgK)",
		Run: func(c *C) {
			lgK := 5 + c.Choose(8, "lgK")
			s := newTheta(c, lgK, 3, 1, defaultSeed)
			n := 4 << lgK
			for i := 0; i < n; i++ {
				_ = s.UpdateInt64(int64(i))
				if i%(n/64) == 0 || int(s.NumRetained()) >= (15<<lgK)/8-1 {
					cs := s.Compact(false)
					sz := cs.SerializedSizeBytes(false)
					m := int(cs.MaxSerializedSizeBytes(uint8(lgK)))
					c.Step()
					c.Assert(sz <= m, "max-size", "lgK=%d, %d retained: %d bytes > advertised maximum %d", lgK, s.NumRetained(), sz, m)
				}
			}
		},
	}
}

// c03Legacy: version 1 and 2 images come back as the sketches they describe.
func c03Legacy() engine.Scenario {
	gaps := []uint64{1, 1 << 20, 1 << 50, 0x9E3779B97F4A7}
	return engine.Scenario{
		Name: "theta-legacy", ShardDepth: 2,
		Bound: "every version 1 and version 2 image with 0..40 entries x 4 spacings x theta {max, last entry + 1, 2^61} x every legal preamble length 1..3 x seeds {default, 12345}: decoded (bytes and reader) and wrapped it has the entries, theta, emptiness, order and seed hash it states, and re-encodes in both current formats; version 2 under a foreign seed and preambles of 0, 4, 5 are refused",
		Run: func(c *C) {
			ver := 1 + c.Choose(2, "version")
			n := c.Choose(41, "n")
			gap := gaps[c.Choose(len(gaps), "gap")]
			r := tref{theta: maxTheta}
			for i := 0; i < n; i++ {
				r.h = append(r.h, gap*uint64(i+1))
			}
			switch c.Choose(3, "theta") {
			case 1:
				r.theta = gap*uint64(n) + 1
			case 2:
				r.theta = max(gap*uint64(n)+1, 1<<61)
			}
			seed := []uint64{defaultSeed, 12345}[c.Choose(2, "seed")]
			r.empty = n == 0 && r.theta == maxTheta
			pre := 1 + c.Choose(3, "preamble")
			if ver == 1 && pre != 3 {
				c.Outcome(1)
				return
			}
			b := thetaLegacy(r, ver, pre)
			if ver == 2 {
				binary.LittleEndian.PutUint16(b[6:], seedHash16(seed))
			}
			orig := slices.Clone(b)
			check := func(what string, s theta.Sketch, err error) {
				c.NoErr(err, "legacy-decode")
				c.Step()
				got := observe(c, s, what)
				c.Assert(got.eq(r), "legacy-content", "version %d preamble %d, %s: %v, the image describes %v", ver, b[0], what, got, r)
				c.Assert(eqU64(hashesInOrder(s), r.h), "legacy-order", "version %d, %s: entries come back in another order", ver, what)
				c.Assert(s.IsOrdered(), "legacy-order", "version %d, %s: not ordered", ver, what)
				sh, err := s.SeedHash()
				c.NoErr(err, "seed-hash")
				c.Assert(sh == seedHash16(seed), "legacy-seed", "version %d, %s: seed hash %x, want %x", ver, what, sh, seedHash16(seed))
			}
			cs, err := theta.Decode(b, seed)
			check("decoded", cs, err)
			d := theta.NewDecoder(seed)
			cs2, err := d.Decode(bytes.NewReader(b))
			check("read", cs2, err)
			w, err := theta.WrapCompactSketch(b, seed)
			check("wrapped", w, err)
			c.Assert(eqBytes(orig, b), "image-changed", "decoding changed the bytes")
			roundTrip(c, cs, seed)
			roundTrip(c, theta.NewCompactSketch(w, true), seed)
			if ver == 2 {
				_, err = theta.Decode(b, seed+1)
				c.Assert(err != nil, "wrong-seed", "version 2 decoded with a wrong seed")
				_, err = theta.WrapCompactSketch(b, seed+1)
				c.Assert(err != nil, "wrong-seed", "version 2 wrapped with a wrong seed")
				for _, bad := range []byte{0, 4, 5} {
					x := slices.Clone(b)
					x[0] = bad
					_, err = theta.Decode(x, seed)
					_, err2 := theta.WrapCompactSketch(x, seed)
					c.Assert(err != nil && err2 != nil, "legacy-preamble", "version 2 accepts a preamble of %d longs", bad)
				}
			}
		},
	}
}

func init() {
	engine.Register(engine.Property{ID: "C03", Assumptions: []string{"arbitrary retained sets are injected through hand-made version 3 images, whose decoding is itself checked against the intended content"},
		Scenarios: func(tier string) []engine.Scenario {
			if tier == "thorough" {
				return []engine.Scenario{c03MaxSize(), c03Legacy(), c03Ops(), c03Counts(70001), c03Widths(40)}
			}
			return []engine.Scenario{c03MaxSize(), c03Legacy(), c03Ops(), c03Counts(5000), c03Widths(26)}
		}})
}
