package props

import (
	"fmt"
	"math"
	"math/bits"

	"github.com/apache/datasketches-go/cpc"

	"verifmc/engine"
)

// csrc is a source sketch for unions.
type csrc struct {
	cbase
	decoded bool // goes through serialization first
	merged  bool // is itself a union result
}

func (x csrc) String() string {
	return fmt.Sprintf("%v decoded=%v merged=%v", x.cbase, x.decoded, x.merged)
}

func (x csrc) make(c *C, seed uint64) (*cpc.CpcSketch, *cref) {
	s, r := x.build(c, seed)
	if x.merged {
		u, err := cpc.NewCpcUnionSketch(x.lgK, seed)
		c.NoErr(err, "union")
		c.NoErr(u.Update(s), "union-update")
		s, err = u.GetResult()
		c.NoErr(err, "union-result")
	}
	if x.decoded {
		var err error
		s, err = cpc.NewCpcSketchFromSlice(cpcBytes(c, s, "source"), seed)
		c.NoErr(err, "decode")
	}
	return s, r
}

func cpcSources(lgKs []int, rich bool) []csrc {
	var out []csrc
	for _, lgK := range lgKs {
		k := 1 << lgK
		add := func(kind string, n int, dec, mer bool) {
			lgK := lgK
			out = append(out, csrc{cbase{fmt.Sprintf("%s-%d", kind, n), lgK, func() []cc {
				if kind == "natural" {
					return naturalCoupons(lgK, n)
				}
				return orderedCoupons(kind, lgK, n)
			}}, dec, mer})
		}
		add("natural", 0, false, false)
		add("rows", (3*k+31)/32-1, false, false) // sparse
		add("high", k/2-1, false, false)         // hybrid
		add("stride", 27*k/8-1, true, false)     // pinned
		add("holes", 27*k/8+2*k, false, false)   // sliding
		add("natural", 27*k/8+9*k, false, false) // sliding, offset past a refresh
		if rich {
			add("stride", (3*k+31)/32-1, true, true)
			add("natural", k/2-1, false, true)
			add("high", 27*k/8-1, false, false)
			add("rows", 27*k/8, false, false)
			add("columns", 27*k/8+k, true, false)
			add("stride", 27*k/8+30*k, false, true)
		}
	}
	return out
}

// checkCpcUnion compares a union with the reference coupon set.
func checkCpcUnion(c *C, u *cpc.CpcUnion, r *cref, seed uint64, what string) *cpc.CpcSketch {
	m, err := u.GetBitMatrix()
	if err != nil {
		c.Fail("bit-matrix", "%s: %v", what, err)
	}
	if !eqU64(m, r.m) {
		c.Fail("coupons", "%s: %v: %s", what, r, diffMatrix(m, r.m))
	}
	res, err := u.GetResult()
	if err != nil {
		c.Fail("union-result", "%s: %v", what, err)
	}
	c.Assert(res.GetLgK() == r.lgK, "lgk", "%s: result has lgK %d, want %d", what, res.GetLgK(), r.lgK)
	return res
}

var cpcCanon = map[uint64][]byte{} // merged image of a coupon set by way of a single sketch

func canonicalMerged(c *C, r *cref) ([]byte, float64) {
	s := canonical(c, r, defaultSeed)
	u, err := cpc.NewCpcUnionSketch(r.lgK, defaultSeed)
	c.NoErr(err, "union")
	c.NoErr(u.Update(s), "union-update")
	d, err := u.GetResult()
	c.NoErr(err, "union-result")
	b := cpcBytes(c, d, "single sketch, merged")
	if len(cpcCanon) < 1<<14 {
		cpcCanon[r.h()] = b
	}
	return b, d.GetEstimate()
}

func c13Seq(unionLgKs, lgKs []int, depth int, rich bool) engine.Scenario {
	src := cpcSources(lgKs, rich)
	return engine.Scenario{
		Name: fmt.Sprintf("cpc-union-u%v-s%v-depth%d", unionLgKs, lgKs, depth), ShardDepth: 3,
		Bound: fmt.Sprintf("union lgK %v x every sequence of %d of %d sources (lgK %v, every flavor, live/decoded/merged): after each step coupon set, precision, result estimate and image against a single sketch of the combined coupons; results, matrices and sources taken earlier keep their content; the final result takes further updates", unionLgKs, depth, len(src), lgKs),
		Run: func(c *C) {
			lgU := unionLgKs[c.Choose(len(unionLgKs), "union lgK")]
			u, err := cpc.NewCpcUnionSketch(lgU, defaultSeed)
			c.NoErr(err, "union")
			ref := newCref(lgU)
			type kept struct {
				s    *cpc.CpcSketch
				b    []byte
				e    float64
				what string
			}
			var old []kept
			var oldM, oldMCopy [][]uint64
			for i := 0; i < depth; i++ {
				x := src[c.Choose(len(src), "source")]
				s, r := x.make(c, defaultSeed)
				if r.n > 0 {
					nl := min(ref.lgK, r.lgK)
					f := ref.fold(nl)
					f.or(r.fold(nl))
					ref = f
				}
				if ref.overflowing() {
					return
				}
				what := fmt.Sprintf("union lgK=%d step %d %v", lgU, i+1, x)
				c.Logf("%s", what)
				b := cpcBytes(c, s, what)
				e := s.GetEstimate()
				if err := u.Update(s); err != nil {
					c.Fail("union-update", "%s: %v", what, err)
				}
				c.Step()
				old = append(old, kept{s, b, e, "source of step " + fmt.Sprint(i+1)})
				res := checkCpcUnion(c, &u, ref, defaultSeed, what)
				m, _ := u.GetBitMatrix()
				oldM, oldMCopy = append(oldM, m), append(oldMCopy, append([]uint64{}, m...))
				rb := cpcBytes(c, res, what)
				if i == depth-1 || i == 0 {
					want, we := canonicalMerged(c, ref)
					if !eqBytes(rb, want) {
						c.Fail("combined", "%s: result image differs from the one of a single sketch with the same coupons\n%x\n%x", what, rb[:min(len(rb), 64)], want[:min(len(want), 64)])
					}
					c.Assert(res.GetEstimate() == we, "estimate", "%s: estimate %v, single sketch %v", what, res.GetEstimate(), we)
				}
				old = append(old, kept{res, rb, res.GetEstimate(), "result of step " + fmt.Sprint(i+1)})
				for _, o := range old {
					if !eqBytes(o.b, cpcBytes(c, o.s, o.what)) || o.s.GetEstimate() != o.e {
						c.Fail("aliasing", "%s: %s changed", what, o.what)
					}
				}
				for j := range oldM {
					if !eqU64(oldM[j], oldMCopy[j]) {
						c.Fail("aliasing", "%s: the bit matrix returned after step %d changed", what, j+1)
					}
				}
				c.State(ref.h())
				c.Outcome(mix(uint64(ref.lgK), uint64(ref.flavor()), uint64(ref.offset())))
				if i == depth-1 {
					// the result goes on as a sketch; the union does not notice
					al := couponAlphabet(ref, false)
					r2 := ref.clone()
					for _, y := range al {
						if r2.add(y); r2.overflowing() {
							return
						}
						c.NoErr(res.UpdateByteSlice(y.item(defaultSeed)), "result-update")
						checkCpc(c, res, r2, defaultSeed, what+" then updated")
					}
					checkCpcUnion(c, &u, ref, defaultSeed, what+", its result updated")
					// and the source goes on without the union noticing
					for _, y := range couponAlphabet(r, false) {
						if r.add(y); r.overflowing() {
							return
						}
						c.NoErr(s.UpdateByteSlice(y.item(defaultSeed)), "source-update")
					}
					checkCpc(c, s, r, defaultSeed, what+", source updated")
					checkCpcUnion(c, &u, ref, defaultSeed, what+", its source updated")
					// scribbling over a returned matrix is harmless
					for j := range m {
						m[j] = ^m[j]
					}
					checkCpcUnion(c, &u, ref, defaultSeed, what+", a returned matrix changed")
				}
			}
		},
	}
}

// c13Seeds: a union takes only sketches of its own seed.
func c13Seeds() engine.Scenario {
	src := cpcSources([]int{4, 5}, false)
	seeds := []uint64{defaultSeed, 1, 123456789, math.MaxUint64}
	return engine.Scenario{
		Name: "cpc-union-seeds", ShardDepth: 2,
		Bound: fmt.Sprintf("all pairs of %d seeds x %d sources before x %d sources offered: accepted iff the seeds agree, refusal changes nothing; permitted and refused union lgK", len(seeds), len(src), len(src)),
		Run: func(c *C) {
			su, ss := seeds[c.Choose(len(seeds), "union seed")], seeds[c.Choose(len(seeds), "sketch seed")]
			u, err := cpc.NewCpcUnionSketch(5, su)
			c.NoErr(err, "union")
			x, y := src[c.Choose(len(src), "first")], src[c.Choose(len(src), "second")]
			s1, r1 := x.make(c, su)
			c.NoErr(u.Update(s1), "union-update")
			ref := newCref(5)
			if r1.n > 0 {
				ref = r1.fold(x.lgK)
			}
			checkCpcUnion(c, &u, ref, su, "first")
			s2, r2 := y.make(c, ss)
			err = u.Update(s2)
			c.Step()
			what := fmt.Sprintf("seeds %d %d, %v then %v", su, ss, x, y)
			c.Assert((err == nil) == (su == ss), "seed", "%s: %v", what, err)
			if su == ss && r2.n > 0 {
				l := min(ref.lgK, r2.lgK)
				f := ref.fold(l)
				f.or(r2.fold(l))
				ref = f
			}
			if ref.overflowing() {
				return
			}
			res := checkCpcUnion(c, &u, ref, su, what)
			checkCpc(c, res, ref, su, what)
			c.State(mix(ref.h(), su))
			for k := 0; k < 40; k++ {
				_, err := cpc.NewCpcUnionSketch(k, su)
				c.Assert((err == nil) == (k >= 4 && k <= 26), "lgk", "NewCpcUnionSketch(%d): %v", k, err)
				if err == nil && k > 8 {
					break
				}
			}
		},
	}
}

// c13Natural: streams of integers cut at every way into parts.
func c13Natural(lgKs []int, per []int) engine.Scenario {
	return engine.Scenario{
		Name: fmt.Sprintf("cpc-union-streams-%v", lgKs), ShardDepth: 3,
		Bound: fmt.Sprintf("three sketches of lgK from %v over three overlapping integer ranges of length from %v, union lgK from the same list: result equals one sketch of everything", lgKs, per),
		Run: func(c *C) {
			lgU := lgKs[c.Choose(len(lgKs), "union lgK")]
			u, err := cpc.NewCpcUnionSketchWithDefault(lgU)
			c.NoErr(err, "union")
			ref := newCref(lgU)
			for i := 0; i < 3; i++ {
				lgK := lgKs[c.Choose(len(lgKs), "lgK")]
				n := per[c.Choose(len(per), "n")]
				s, err := cpc.NewCpcSketchWithDefault(lgK)
				c.NoErr(err, "new")
				r := newCref(lgK)
				for j := 0; j < n; j++ {
					v := int64(i*n/2 + j)
					c.NoErr(s.UpdateInt64(v), "update")
					r.addHash(hashI64(v, defaultSeed))
				}
				checkCpc(c, s, r, defaultSeed, "part")
				c.NoErr(u.Update(s), "union-update")
				if r.n > 0 {
					l := min(ref.lgK, lgK)
					f := ref.fold(l)
					f.or(r.fold(l))
					ref = f
				}
				c.Step()
			}
			res := checkCpcUnion(c, &u, ref, defaultSeed, "union")
			want, we := canonicalMerged(c, ref)
			if !eqBytes(cpcBytes(c, res, "result"), want) || res.GetEstimate() != we {
				c.Fail("combined", "union of three parts (%v): image or estimate (%v, want %v) differs from a single sketch", ref, res.GetEstimate(), we)
			}
			c.State(ref.h())
		},
	}
}

// ---- C14

func sameCpc(c *C, a, b *cpc.CpcSketch, seed uint64, what string) {
	ma, mb := cpcMatrix(c, a, seed, what+" original"), cpcMatrix(c, b, seed, what+" other")
	if !eqU64(ma, mb) {
		c.Fail("roundtrip-coupons", "%s: %s", what, diffMatrix(mb, ma))
	}
	c.Assert(a.GetEstimate() == b.GetEstimate() && a.GetLgK() == b.GetLgK(), "roundtrip-estimate", "%s: estimate %v became %v", what, a.GetEstimate(), b.GetEstimate())
	for k := 1; k <= 3; k++ {
		c.Assert(a.GetLowerBound(k) == b.GetLowerBound(k) && a.GetUpperBound(k) == b.GetUpperBound(k), "roundtrip-bounds", "%s: bounds at %d changed: %v %v, %v %v", what, k, a.GetLowerBound(k), a.GetUpperBound(k), b.GetLowerBound(k), b.GetUpperBound(k))
	}
	x, y := cpcBytes(c, a, what), cpcBytes(c, b, what)
	if !eqBytes(x, y) {
		c.Fail("reencode", "%s: re-encoding gives other bytes\n%x\n%x", what, x[:min(len(x), 80)], y[:min(len(y), 80)])
	}
}

func roundCpc(c *C, s *cpc.CpcSketch, r *cref, seed uint64, what string) *cpc.CpcSketch {
	b := cpcBytes(c, s, what)
	orig := append([]byte{}, b...)
	d, err := cpc.NewCpcSketchFromSlice(b, seed)
	if err != nil {
		c.Fail("decode", "%s: %v", what, err)
	}
	if !eqBytes(b, orig) {
		c.Fail("decode-writes", "%s: decoding changed the bytes", what)
	}
	sameCpc(c, s, d, seed, what)
	if m := cpcMatrix(c, d, seed, what); !eqU64(m, r.m) {
		c.Fail("coupons", "%s: %s", what, diffMatrix(m, r.m))
	}
	w, err := cpc.NewCpcWrapperFromBytes(b)
	if err != nil {
		c.Fail("wrap", "%s: %v", what, err)
	}
	c.Assert(w.GetEstimate() == s.GetEstimate() && w.GetLgK() == s.GetLgK(), "wrapper", "%s: wrapper estimate %v lgK %d, sketch %v %d", what, w.GetEstimate(), w.GetLgK(), s.GetEstimate(), s.GetLgK())
	for k := 1; k <= 3; k++ {
		c.Assert(w.GetLowerBound(k) == s.GetLowerBound(k) && w.GetUpperBound(k) == s.GetUpperBound(k), "wrapper", "%s: wrapper bounds at %d: %v %v, sketch %v %v", what, k, w.GetLowerBound(k), w.GetUpperBound(k), s.GetLowerBound(k), s.GetUpperBound(k))
	}
	// the caller may reuse the slice
	for i := range b {
		b[i] = ^b[i]
	}
	sameCpc(c, s, d, seed, what+" after the slice was reused")
	for _, other := range []uint64{seed + 1, 77, 1 << 50} {
		if _, err := cpc.NewCpcSketchFromSlice(orig, other); err == nil {
			c.Fail("wrong-seed", "%s: decoded with seed %d", what, other)
		}
	}
	return d
}

func c14Round(lgKs []int, full bool, depth int) engine.Scenario {
	bases := cpcBases(lgKs, full, cpcKinds...)
	return engine.Scenario{
		Name: fmt.Sprintf("cpc-roundtrip-lgK%v-depth%d", lgKs, depth), ShardDepth: 2,
		Bound: fmt.Sprintf("lgK %v: %d base states x live/merged x %d further coupons from the window alphabet, original and decoded sketch in lockstep, optionally decoded again after each: coupons, estimate, bounds, bytes, merges, wrapper, wrong seeds, reuse of the slice", lgKs, len(bases), depth),
		Run: func(c *C) {
			b := bases[c.Choose(len(bases), "base")]
			x := csrc{b, false, c.Choose(2, "merged") == 1}
			s, r := x.make(c, defaultSeed)
			d := roundCpc(c, s, r, defaultSeed, x.String())
			c.Step()
			al := couponAlphabet(r, false)
			for i := 0; i < depth; i++ {
				y := al[c.Choose(len(al), "coupon")]
				if r2 := r.clone(); r2.add(y) && r2.overflowing() {
					return
				}
				r.add(y)
				c.NoErr(s.UpdateByteSlice(y.item(defaultSeed)), "update")
				if err := d.UpdateByteSlice(y.item(defaultSeed)); err != nil {
					c.Fail("future", "%v: decoded sketch refuses %v: %v", x, y, err)
				}
				what := fmt.Sprintf("%v + %v", x, y)
				sameCpc(c, s, d, defaultSeed, what)
				roundCpc(c, d, r, defaultSeed, what)
				c.Step()
			}
			if !eqBytes(cpcMerged(c, s, defaultSeed, "original"), cpcMerged(c, d, defaultSeed, "decoded")) {
				c.Fail("future", "%v: merging the decoded sketch gives another result", x)
			}
			c.State(r.h())
		},
	}
}

// c14Extreme: sparse and hybrid sketches with rows far apart and every column, for every lgK.
func c14Extreme(lgKs []int, n int) engine.Scenario {
	return engine.Scenario{
		Name: "cpc-roundtrip-pairs", ShardDepth: 3,
		Bound: fmt.Sprintf("lgK %v; every ordered choice of up to %d coupons with rows from 0, 1, 2^(lgK-1), 2^lgK-1 and columns 0, 1, 7, 8, 31, 62, 63: round trip", lgKs, n),
		Run: func(c *C) {
			lgK := lgKs[c.Choose(len(lgKs), "lgK")]
			k := 1 << lgK
			rows := []int{0, 1, k / 2, k - 1}
			cols := []int{0, 1, 7, 8, 31, 62, 63}
			s, err := cpc.NewCpcSketch(lgK, defaultSeed)
			c.NoErr(err, "new")
			r := newSparseRef(lgK)
			last := -1
			for i := 0; i < n; i++ {
				j := c.Choose(len(rows)*len(cols)+1, "coupon")
				if j == 0 {
					break
				}
				if j <= last {
					return
				}
				last = j
				x := cc{rows[(j-1)%4], cols[(j-1)/4]}
				c.NoErr(s.UpdateByteSlice(x.item(defaultSeed)), "update")
				r[x] = true
				c.Step()
			}
			b := cpcBytes(c, s, "pairs")
			d, err := cpc.NewCpcSketchFromSlice(b, defaultSeed)
			c.NoErr(err, "decode")
			c.Assert(s.GetEstimate() == d.GetEstimate() && d.GetLgK() == lgK, "roundtrip-estimate", "estimate %v became %v", s.GetEstimate(), d.GetEstimate())
			if !eqBytes(b, cpcBytes(c, d, "decoded")) {
				c.Fail("reencode", "lgK=%d %v: other bytes", lgK, r)
			}
			h, ok := readCpcHdr(b)
			c.Assert(ok && h.n == len(r), "header", "lgK=%d %v: %+v", lgK, r, h)
			// every coupon is there: repeating it changes nothing, every other alphabet coupon is new
			for row := range rows {
				for col := range cols {
					x := cc{rows[row], cols[col]}
					e0 := d.GetEstimate()
					cp, err := d.Copy()
					c.NoErr(err, "copy")
					c.NoErr(cp.UpdateByteSlice(x.item(defaultSeed)), "update")
					c.Assert((cp.GetEstimate() == e0) == r[x], "roundtrip-coupons", "lgK=%d %v: after decoding %v present=%v", lgK, r, x, cp.GetEstimate() == e0)
				}
			}
			c.State(mix(uint64(lgK), uint64(len(r)), engine.H64(b)))
		},
	}
}

type sparseRef map[cc]bool

func newSparseRef(int) sparseRef { return sparseRef{} }

// cpcWindow lays out the coupons of one state of c14Window.
func cpcWindow(lgK, ph, arr int, offsets []int) (int, *cref, []cc) {
	k := 1 << lgK
	off, lo, hi := 0, 0, 0
	if ph < 9 {
		cut := []int{500, 750, 1100, 1320, 1667, 1965, 2275, 2375, 2800, 3375} // thousandths of k
		lo, hi = cut[ph]*k/1000+2, cut[ph+1]*k/1000-2
	} else {
		off = offsets[(ph-9)/16]
		lo = (19*k+8*off*k)/8 + (ph-9)%16*k/16 + 1
		hi = lo + k/16 - 3
	}
	want := (lo + hi) / 2
	r := newCref(lgK)
	var list []cc
	add := func(x cc) {
		if x.row < k && r.n < want && r.add(x) {
			list = append(list, x)
		}
	}
	for col := 0; col < off; col++ { // early zone
		for row := 0; row < k; row++ {
			if (row*7+col*3+arr)%11 != 0 || col == off-1-(row&1) {
				add(cc{row, col})
			}
		}
	}
	for i := 0; i < 256 && i < k; i++ { // every byte value
		row := i
		if arr == 1 {
			row = k - 1 - (i*3)%k
		}
		for bit := 0; bit < 8; bit++ {
			if i>>uint(bit)&1 == 1 {
				add(cc{row, off + bit})
			}
		}
	}
	for col := off + 8; col < 64; col++ { // one late value per column
		add(cc{(col*5 + arr*11) % k, col})
	}
	for i := 0; r.n < want && i < 64*k; i++ {
		add(cc{(i*5 + 300) % k, i / k})
	}
	return off, r, list
}

// c14Window: every byte value in the window in every compression phase, and every column beside it.
func c14Window(lgKs []int, offsets []int) engine.Scenario {
	return engine.Scenario{
		Name: "cpc-roundtrip-window", ShardDepth: 3,
		Bound: fmt.Sprintf("lgK %v x 22 compression phases (pinned: 6 and the steady table before its phase; sliding at offsets %v: 16 each) x 2 arrangements: windows holding all 256 byte values, surprising values in every column outside the window: round trip", lgKs, offsets),
		Run: func(c *C) {
			lgK := lgKs[c.Choose(len(lgKs), "lgK")]
			ph := c.Choose(9+16*len(offsets), "phase")
			arr := c.Choose(2, "arrangement")
			off, r, list := cpcWindow(lgK, ph, arr, offsets)
			s, err := cpc.NewCpcSketch(lgK, defaultSeed)
			c.NoErr(err, "new")
			for _, x := range list {
				c.NoErr(s.UpdateByteSlice(x.item(defaultSeed)), "update")
			}
			what := fmt.Sprintf("lgK=%d phase %d offset %d %v", lgK, ph, off, r)
			c.Logf("%s", what)
			c.Steps(len(list))
			m := cpcMatrix(c, s, defaultSeed, what)
			if !eqU64(m, r.m) {
				c.Fail("coupons", "%s: %s", what, diffMatrix(m, r.m))
			}
			d := roundCpc(c, s, r, defaultSeed, what)
			for _, x := range couponAlphabet(r, true) {
				c.NoErr(s.UpdateByteSlice(x.item(defaultSeed)), "update")
				c.NoErr(d.UpdateByteSlice(x.item(defaultSeed)), "update")
			}
			sameCpc(c, s, d, defaultSeed, what+" and more")
			c.State(r.h())
			c.Outcome(mix(uint64(ph)))
		},
	}
}

func c14Stream(lgKs []int, perK int) engine.Scenario {
	return engine.Scenario{
		Name: "cpc-roundtrip-streams", ShardDepth: 1,
		Bound: fmt.Sprintf("lgK %v, integers 1..%d*k, seeds 9001 and 5: round trip (live and merged) at every count for lgK 4-5, at every flavor change and geometric step above", lgKs, perK),
		Run: func(c *C) {
			lgK := lgKs[c.Choose(len(lgKs), "lgK")]
			seed := []uint64{defaultSeed, 5}[c.Choose(2, "seed")]
			s, err := cpc.NewCpcSketch(lgK, seed)
			c.NoErr(err, "new")
			r := newCref(lgK)
			next, pf := 0, 0
			for i := 0; i <= perK<<lgK; i++ {
				if i > 0 {
					c.NoErr(s.UpdateInt64(int64(i)), "update")
					r.addHash(hashI64(int64(i), seed))
				}
				if lgK > 5 && i < next && r.flavor() == pf {
					continue
				}
				pf = r.flavor()
				next = i + i/6 + 1
				what := fmt.Sprintf("lgK=%d after %d", lgK, i)
				d := roundCpc(c, s, r, seed, what)
				u, err := cpc.NewCpcUnionSketch(lgK, seed)
				c.NoErr(err, "union")
				c.NoErr(u.Update(d), "union-update")
				m, err := u.GetResult()
				c.NoErr(err, "union-result")
				roundCpc(c, m, r, seed, what+" merged")
				if i%3 == 0 {
					s = d // go on with the decoded sketch
				}
				c.Step()
				c.State(r.h())
			}
		},
	}
}

// ---- C11, CPC part

func checkCpcBounds(c *C, what func() string, est float64, lb, ub func(int) float64, n int) {
	c.Checked()
	if (est == 0) != (n == 0) || est < 0 || math.IsNaN(est) || math.IsInf(est, 0) {
		c.Fail("cpc-estimate", "%s: estimate %v with %d coupons", what(), est, n)
	}
	pl, pu := est, est
	for k := 1; k <= 3; k++ {
		l, u := lb(k), ub(k)
		if !(l <= est && est <= u) {
			c.Fail("cpc-bounds", "%s: bounds [%v, %v] at %d do not enclose the estimate %v", what(), l, u, k, est)
		}
		if !(l <= pl && u >= pu) {
			c.Fail("cpc-nesting", "%s: bounds [%v, %v] at %d are inside those at %d", what(), l, u, k, k-1)
		}
		if l < 0 || math.IsNaN(u) || math.IsInf(u, 0) || (n > 0 && l <= 0) {
			c.Fail("cpc-bounds", "%s: bounds [%v, %v] at %d", what(), l, u, k)
		}
		pl, pu = l, u
	}
}

// c11CpcStream: estimates and bounds along streams, live, decoded, wrapped and merged.
func c11CpcStream(lgKs []int, perK int) engine.Scenario {
	return engine.Scenario{
		Name: "cpc-bounds", ShardDepth: 2,
		Bound: fmt.Sprintf("lgK %v, 4 arrival patterns of up to %d*k coupons or integers: bounds enclose and nest, the estimate never decreases, at every update for lgK<=6 and geometrically above; live, decoded, wrapped, merged into equal and smaller precision", lgKs, perK),
		Run: func(c *C) {
			lgK := lgKs[c.Choose(len(lgKs), "lgK")]
			kind := []string{"natural", "columns", "stride", "holes"}[c.Choose(4, "kind")]
			N := perK << lgK
			var list []cc
			if kind != "natural" {
				N = min(N, (27+8*56)<<lgK/8-1, 1<<14)
				list = orderedCoupons(kind, lgK, N)
			}
			s, err := cpc.NewCpcSketch(lgK, defaultSeed)
			c.NoErr(err, "new")
			r := newCref(lgK)
			prev, prevM, next := 0.0, 0.0, 0
			for i := 0; i <= N; i++ {
				if i > 0 {
					if kind == "natural" {
						c.NoErr(s.UpdateInt64(int64(i)), "update")
						r.addHash(hashI64(int64(i), defaultSeed))
					} else {
						c.NoErr(s.UpdateByteSlice(list[i-1].item(defaultSeed)), "update")
						r.add(list[i-1])
					}
				}
				what := func() string { return fmt.Sprintf("%s lgK=%d after %d", kind, lgK, i) }
				e := s.GetEstimate()
				c.Assert(e >= prev, "estimate-decreased", "%s: %v after %v", what(), e, prev)
				prev = e
				checkCpcBounds(c, what, e, s.GetLowerBound, s.GetUpperBound, r.n)
				if lgK > 6 && i < next {
					continue
				}
				next = i + i/16 + 1
				for _, l := range []int{lgK, max(4, lgK-1), 4} {
					u, err := cpc.NewCpcUnionSketch(l, defaultSeed)
					c.NoErr(err, "union")
					if r.fold(l).overflowing() {
						continue
					}
					c.NoErr(u.Update(s), "union-update")
					m, err := u.GetResult()
					c.NoErr(err, "union-result")
					me := m.GetEstimate()
					checkCpcBounds(c, func() string { return what() + fmt.Sprintf(" merged to %d", l) }, me, m.GetLowerBound, m.GetUpperBound, r.n)
					if l == lgK {
						c.Assert(me >= prevM, "estimate-decreased", "%s merged: %v after %v", what(), me, prevM)
						prevM = me
					}
					for _, y := range []*cpc.CpcSketch{m, s} {
						b := cpcBytes(c, y, what())
						d, err := cpc.NewCpcSketchFromSlice(b, defaultSeed)
						c.NoErr(err, "decode")
						checkCpcBounds(c, func() string { return what() + " decoded" }, d.GetEstimate(), d.GetLowerBound, d.GetUpperBound, r.n)
						w, err := cpc.NewCpcWrapperFromBytes(b)
						c.NoErr(err, "wrap")
						checkCpcBounds(c, func() string { return what() + " wrapped" }, w.GetEstimate(), w.GetLowerBound, w.GetUpperBound, r.n)
						c.Assert(w.GetEstimate() == y.GetEstimate(), "wrapper", "%s: wrapper says %v, sketch %v", what(), w.GetEstimate(), y.GetEstimate())
					}
				}
				c.Step()
				c.State(mix(uint64(lgK), uint64(i), math.Float64bits(e)))
			}
		},
	}
}

// c11CpcIcon: the merged estimator over every coupon count, through wrapped merged images with that count.
func c11CpcIcon(lgKs []int) engine.Scenario {
	return engine.Scenario{
		Name: "cpc-icon", ShardDepth: 1,
		Bound: fmt.Sprintf("lgK %v; merged sketches with every coupon count from 0 to 59*k for lgK<=12 (above: every count to 2^16, around every multiple of k/8, and geometric): estimate positive and non-decreasing in the count, bounds enclose and nest", lgKs),
		Run: func(c *C) {
			lgK := lgKs[c.Choose(len(lgKs), "lgK")]
			k := 1 << lgK
			// a merged sparse image whose count field is rewritten: the wrapper reads nothing else
			s, err := cpc.NewCpcSketch(lgK, defaultSeed)
			c.NoErr(err, "new")
			c.NoErr(s.UpdateByteSlice(cc{1, 1}.item(defaultSeed)), "update")
			var img []byte
			if lgK <= 16 {
				img = cpcMerged(c, s, defaultSeed, "one coupon")
			} else { // a union result, from the HIP image: format 2 has no HIP registers
				b := cpcBytes(c, s, "one coupon")
				img = append([]byte{4, 1, 16, byte(lgK), 0, b[5] &^ 4, b[6], b[7]}, b[8:16]...)
				img = append(img, b[32:]...)
			}
			prev := 0.0
			maxC := 59 * k
			for n := 1; n <= maxC; {
				for i := 0; i < 4; i++ {
					img[8+i] = byte(n >> uint(8*i))
				}
				w, err := cpc.NewCpcWrapperFromBytes(img)
				c.NoErr(err, "wrap")
				e := w.GetEstimate()
				what := func() string { return fmt.Sprintf("merged lgK=%d with %d coupons", lgK, n) }
				checkCpcBounds(c, what, e, w.GetLowerBound, w.GetUpperBound, n)
				c.Assert(e >= prev, "estimate-decreased", "%s: estimate %v, with fewer coupons %v", what(), e, prev)
				c.Assert(e >= float64(n), "cpc-estimate", "%s: estimate %v below the coupon count", what(), e)
				prev = e
				c.Steps(1)
				if lgK <= 12 || n < 1<<16 {
					n++
					continue
				}
				q := k / 8
				if rem := n % q; rem < 3 || rem >= q-3 {
					n++
				} else {
					n = min(n+n/997, (n/q+1)*q-3)
				}
			}
			c.State(mix(uint64(lgK), uint64(bits.Len(uint(maxC)))))
		},
	}
}

func init() {
	inv := []string{"items with a wanted hash are found by inverting MurmurHash3 on 16-byte inputs; the inversion is re-checked on every item",
		"histories stop before 59.375 coupons per row, where no window position exists (unreachable with fewer than 2^56 items)"}
	engine.Register(engine.Property{ID: "C13", Assumptions: inv, Scenarios: func(tier string) []engine.Scenario {
		if tier == "thorough" {
			return []engine.Scenario{
				c13Seeds(), c13Seq([]int{4, 5, 6, 7}, []int{4, 5, 6}, 3, true), c13Seq([]int{4, 8}, []int{4, 6, 8}, 3, true), c13Seq([]int{4, 5}, []int{4, 5}, 4, false),
				c13Seq([]int{11}, []int{9, 10, 11, 12}, 2, false),
				c13Natural([]int{11, 12, 13, 14}, []int{300, 3000, 60000}),
				c13Natural([]int{4, 5, 7, 8, 10}, []int{0, 1, 5, 23, 90, 340, 1500, 6000}),
			}
		}
		return []engine.Scenario{
			c13Seeds(), c13Seq([]int{4, 5, 6}, []int{4, 5, 6}, 3, false), c13Seq([]int{4, 5, 7}, []int{4, 5, 6}, 2, true),
			c13Seq([]int{4, 10}, []int{8, 10}, 2, false),
			c13Natural([]int{4, 5, 7, 10}, []int{0, 1, 5, 23, 90, 700}),
			c13Natural([]int{11, 12}, []int{300, 40000}),
		}
	}})
	engine.Register(engine.Property{ID: "C14", Assumptions: inv, Scenarios: func(tier string) []engine.Scenario {
		all := []int{4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26}
		if tier == "thorough" {
			return []engine.Scenario{
				c14Extreme(all, 4), c14Window([]int{10, 11, 12, 13}, []int{1, 2, 8, 9, 20, 40, 55}),
				c14Round([]int{4, 5}, true, 3), c14Round([]int{6, 7, 8}, true, 2), c14Round([]int{9, 10, 11, 12}, true, 1),
				c14Stream([]int{4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18}, 30),
			}
		}
		return []engine.Scenario{
			c14Extreme(all, 3), c14Window([]int{9, 10, 11}, []int{1, 9, 30, 55}),
			c14Round([]int{4, 5}, true, 2), c14Round([]int{6, 8, 10}, true, 1),
			c14Stream([]int{4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 15}, 20),
		}
	}})
}
