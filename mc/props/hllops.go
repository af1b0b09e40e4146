package props

import (
	"encoding/binary"
	"fmt"
	"math"

	"github.com/apache/datasketches-go/hll"

	"verifmc/engine"
)

// hspec is one way to make an HLL sketch; coupons are what it was fed.
type hspec struct {
	name string
	lgK  int
	typ  int
	f    func() []coup
	ooo  bool // obtained from a union of two full arrays
}

func (sp hspec) String() string {
	return fmt.Sprintf("%s lgK=%d %s ooo=%v", sp.name, sp.lgK, hllTypeNames[sp.typ], sp.ooo)
}

func (sp hspec) build(c *C) (hll.HllSketch, []coup) {
	cs := sp.f()
	s, err := hll.NewHllSketch(sp.lgK, hllTypes[sp.typ])
	c.NoErr(err, "new")
	for _, k := range cs {
		c.NoErr(s.UpdateSlice(k.item()), "update")
	}
	if sp.ooo {
		u, err := hll.NewUnion(sp.lgK)
		c.NoErr(err, "union")
		c.NoErr(u.UpdateSketch(s), "union-update")
		c.NoErr(u.UpdateSketch(s), "union-update")
		s, err = u.GetResult(hllTypes[sp.typ])
		c.NoErr(err, "union-result")
	}
	return s, cs
}

func hllSpecs(lgKs []int, types []int, names ...string) []hspec {
	var r []hspec
	for _, k := range lgKs {
		for _, b := range hllBases(k) {
			ok := len(names) == 0
			for _, n := range names {
				ok = ok || n == b.name
			}
			if !ok {
				continue
			}
			for _, t := range types {
				r = append(r, hspec{b.name, k, t, b.f, false})
				if len(names) == 0 && len(b.name) > 5 && b.name[:5] == "array" {
					r = append(r, hspec{b.name, k, t, b.f, true})
				}
			}
		}
	}
	return r
}

// sameHll compares two sketches query by query.
func sameHll(c *C, a, b hll.HllSketch, what string) {
	ha, hb := himage(c, a, what+" original"), himage(c, b, what+" other")
	if ha.typ != hb.typ || ha.mode != hb.mode || !ha.sameContent(hb) || ha.ooo != hb.ooo || ha.curMin != hb.curMin || ha.numAtCurMin != hb.numAtCurMin {
		c.Fail("roundtrip", "%s: %s became %s", what, ha.brief(), hb.brief())
	}
	ea, eb := hllEst(c, a), hllEst(c, b)
	c.Assert(ea == eb, "roundtrip-estimate", "%s: estimates %v became %v", what, ea, eb)
	for sd := 1; sd <= 3; sd++ {
		l1, e1 := a.GetLowerBound(sd)
		u1, e2 := a.GetUpperBound(sd)
		l2, e3 := b.GetLowerBound(sd)
		u2, e4 := b.GetUpperBound(sd)
		c.Assert(e1 == nil && e2 == nil && e3 == nil && e4 == nil && l1 == l2 && u1 == u2, "roundtrip-bounds", "%s: bounds %v %v became %v %v", what, l1, u1, l2, u2)
	}
	c.Assert(a.IsEmpty() == b.IsEmpty() && a.GetLgConfigK() == b.GetLgConfigK() && a.GetTgtHllType() == b.GetTgtHllType() && a.GetCurMode() == b.GetCurMode(), "roundtrip-flags", "%s: empty/lgK/type/mode changed", what)
}

func (h himg) brief() string {
	return fmt.Sprintf("mode %d type %d lgK %d ooo %v curMin %d x%d coupons %x registers %v", h.mode, h.typ, h.lgK, h.ooo, h.curMin, h.numAtCurMin, short(h.coupons), short(h.regs))
}

// sameImages: both byte forms agree up to the order inside hash tables.
func sameImages(c *C, a, b hll.HllSketch, what string) {
	for i := 0; i < 2; i++ {
		x, e1 := hllBytes(a, i == 0)
		y, e2 := hllBytes(b, i == 0)
		c.Assert(e1 == nil && e2 == nil, "serialize", "%s: %v %v", what, e1, e2)
		h := himage(c, a, what)
		n := 8
		if h.mode == 1 {
			n = 12
		}
		exact := h.mode == 0 || (h.mode == 2 && h.typ != 0)
		if h.mode == 2 {
			n = 40 + len(h.regs)/2
		}
		if exact {
			n = len(x)
		}
		if len(x) != len(y) || !eqBytes(x[:n], y[:n]) {
			c.Fail("reencode", "%s compact=%v: re-encoding gives other bytes\n%x\n%x", what, i == 0, x[:min(n, 60)], y[:min(len(y), 60)])
		}
	}
}

func hllBytes(s hllSer, compact bool) ([]byte, error) {
	if compact {
		return s.ToCompactSlice()
	}
	return s.ToUpdatableSlice()
}

var hllMore = []coup{{0, 3}, {1, 17}, {2, 1}, {2, 40}, {3, 63}, {1 << 20, 2}, {5 << 18, 1}, {7, 1}, {9, 33}, {4, 18}, {6, 19}}

func c09Round(lgKs []int) engine.Scenario {
	specs := hllSpecs(lgKs, []int{0, 1, 2})
	return engine.Scenario{
		Name: "hll-roundtrip", ShardDepth: 1,
		Bound: fmt.Sprintf("%d sketches (lgK %v x 3 forms x every base region x in-order/out-of-order) x compact/updatable x rebuild check on/off x %d further updates after decoding, with and without a first decode of the grown sketch: every query, both images, growth and union merging agree with the original; the byte slice is not retained", len(specs), lgKs, len(hllMore)),
		Run: func(c *C) {
			sp := specs[c.Choose(len(specs), "sketch")]
			compact := c.Choose(2, "compact") == 0
			chk := c.Choose(2, "check-rebuild") == 1
			c.Logf("%v compact=%v", sp, compact)
			s, _ := sp.build(c)
			img, err := hllBytes(s, compact)
			c.NoErr(err, "serialize")
			orig := append([]byte{}, img...)
			d, err := hll.NewHllSketchFromSlice(img, chk)
			c.NoErr(err, "decode")
			c.Step()
			sameHll(c, s, d, sp.String())
			sameImages(c, s, d, sp.String())
			c.State(mix(u64s([]uint64{uint64(len(img))}), uint64(sp.typ), uint64(sp.lgK)))
			// later behaviour
			for i, k := range hllMore {
				c.NoErr(s.UpdateSlice(k.item()), "update")
				c.NoErr(d.UpdateSlice(k.item()), "update-decoded")
				c.Steps(2)
				c.Assert(eqBytes(img, orig), "image-written", "%v: updating the decoded sketch wrote into the byte slice", sp)
				sameHll(c, s, d, fmt.Sprintf("%v after %d more updates", sp, i+1))
				if i == 4 {
					for j := range img { // the slice belongs to the caller
						img[j] = 0xa5
					}
					copy(orig, img)
					sameHll(c, s, d, fmt.Sprintf("%v after overwriting the byte slice", sp))
				}
			}
			sameImages(c, s, d, sp.String()+" grown")
			for _, lg := range []int{4, sp.lgK, 12} {
				for _, other := range []hspec{{"o", 8, 0, hllBases(8)[1].f, false}, {"o", 5, 1, hllBases(5)[6].f, false}} {
					var r [2]hll.HllSketch
					for i, x := range []hll.HllSketch{s, d} {
						u, err := hll.NewUnion(lg)
						c.NoErr(err, "union")
						o, _ := other.build(c)
						c.NoErr(u.UpdateSketch(o), "union-update")
						c.NoErr(u.UpdateSketch(x), "union-update")
						r[i], err = u.GetResult(hllTypes[sp.typ])
						c.NoErr(err, "union-result")
					}
					sameHll(c, r[0], r[1], fmt.Sprintf("%v in a union of lgK %d", sp, lg))
				}
			}
		},
	}
}

// c09Counts: every number of items through list, set and array.
func c09Counts(lgKs []int, past int) engine.Scenario {
	return engine.Scenario{
		Name: "hll-roundtrip-counts", ShardDepth: 2,
		Bound: fmt.Sprintf("lgK %v x 3 forms x every item count from 0 to %d past promotion (integer items) x both byte forms: round trip, then one more item", lgKs, past),
		Run: func(c *C) {
			lgK := lgKs[c.Choose(len(lgKs), "lgK")]
			ty := c.Choose(3, "type")
			lim := 8
			if lgK >= 8 {
				lim = 3<<(lgK-3)/4 + 1
			}
			s, err := hll.NewHllSketch(lgK, hllTypes[ty])
			c.NoErr(err, "new")
			for n := 0; n <= lim+past; n++ {
				if n <= 40 || n%7 == 0 || n > lim-3 {
					for f := 0; f < 2; f++ {
						img, err := hllBytes(s, f == 0)
						c.NoErr(err, "serialize")
						d, err := hll.NewHllSketchFromSlice(img, true)
						c.NoErr(err, "decode")
						what := fmt.Sprintf("lgK %d %s %d items form %d", lgK, hllTypeNames[ty], n, f)
						sameHll(c, s, d, what)
						sameImages(c, s, d, what)
						x, err := s.Copy()
						c.NoErr(err, "copy")
						for j := 0; j < 3; j++ {
							c.NoErr(d.UpdateInt64(int64(n+j)), "update")
							c.NoErr(x.UpdateInt64(int64(n+j)), "update")
						}
						sameHll(c, x, d, what+" then updated")
						c.Steps(4)
					}
				}
				c.NoErr(s.UpdateInt64(int64(n)), "update")
				c.State(mix(uint64(lgK), uint64(ty), uint64(n)))
			}
		},
	}
}

// c09Crafted: images other implementations produce (missing table size, register sums to be rebuilt).
func c09Crafted(lgKs []int) engine.Scenario {
	specs := hllSpecs(lgKs, []int{0, 1, 2})
	return engine.Scenario{
		Name: "hll-crafted", ShardDepth: 1,
		Bound: fmt.Sprintf("%d sketches: images with the table size byte cleared (recomputed by the decoder), and 8-bit arrays with the rebuild flag set and stale register sums decoded with the rebuild check", len(specs)),
		Run: func(c *C) {
			sp := specs[c.Choose(len(specs), "sketch")]
			s, _ := sp.build(c)
			h := himage(c, s, "original")
			compact := c.Choose(2, "compact") == 0
			img, err := hllBytes(s, compact)
			c.NoErr(err, "serialize")
			what := sp.String() + " crafted"
			if h.mode != 2 || (h.typ == 0 && compact) {
				img[4] = 0
				d, err := hll.NewHllSketchFromSlice(img, false)
				c.NoErr(err, "decode")
				sameHll(c, s, d, what)
			}
			if h.mode == 2 && h.typ == 2 {
				img[5] |= 32
				binary.LittleEndian.PutUint64(img[16:], math.Float64bits(7))
				binary.LittleEndian.PutUint64(img[24:], math.Float64bits(0))
				img[6] = 0
				binary.LittleEndian.PutUint32(img[32:], uint32(1)<<sp.lgK)
				d, err := hll.NewHllSketchFromSlice(img, true)
				c.NoErr(err, "decode")
				g := himage(c, d, what)
				c.Assert(!g.rebuild && g.sameContent(h) && g.ooo == h.ooo, "rebuild", "%s: %s became %s", what, h.brief(), g.brief())
				ea, eb := hllEst(c, s), hllEst(c, d)
				c.Assert(near(ea.est, eb.est, 1e-12) && near(ea.comp, eb.comp, 1e-12), "rebuild-estimate", "%s: estimates %v became %v", what, ea, eb)
				// a union must cope with a source whose sums are stale
				x, err := hll.NewHllSketchFromSlice(img, false)
				c.NoErr(err, "decode")
				u, err := hll.NewUnion(sp.lgK)
				c.NoErr(err, "union")
				c.NoErr(u.UpdateSketch(x), "union-update")
				e, err := u.GetCompositeEstimate()
				c.Assert(err == nil && near(e, ea.comp, 1e-12), "rebuild-union", "%s: union composite %v, expected %v", what, e, ea.comp)
			}
			c.State(mix(uint64(len(img)), uint64(sp.typ)))
		},
	}
}

// --- C10 -------------------------------------------------------------------------------------

func hllRefOf(lgK int, isHll bool, coupons []uint32) *href {
	r := newHref(lgK)
	for _, p := range coupons {
		if !r.set[p] {
			r.set[p] = true
			r.list = append(r.list, p)
			s := p & (1<<lgK - 1)
			r.regs[s] = max(r.regs[s], uint8(p>>26))
		}
	}
	r.isHll = isHll || promotes(lgK, len(r.list))
	return r
}

var hllRegMemo = map[uint64]float64{}

// refCompReg: composite estimate of a fresh sketch with these registers, by register content.
func refCompReg(c *C, r *href) float64 {
	if !r.isHll {
		return refComposite(c, r)
	}
	h := mix(uint64(r.lgK), 99)
	for i := 0; i < len(r.regs); i += 8 {
		h = mix(h, binary.LittleEndian.Uint64(r.regs[i:]))
	}
	if v, ok := hllRegMemo[h]; ok {
		return v
	}
	s := hllFrom(c, r.lgK, hll.TgtHllTypeHll8, r.sortedCoupons())
	v := hllEst(c, s).comp
	if len(hllRegMemo) < 1<<18 {
		hllRegMemo[h] = v
	}
	return v
}

// uref is the reference of a union.
type uref struct {
	lgMax   int
	r       *href
	twoFull bool     // two full arrays were combined: no history estimator applies
	only    *float64 // estimate of the only input, an in-order full array
}

func (u *uref) merge(srcLgK int, srcHll bool, coupons []uint32) {
	if len(coupons) == 0 {
		return
	}
	lg := u.r.lgK
	u.twoFull = u.twoFull || srcHll && u.r.isHll
	u.only = nil
	if srcHll {
		if u.r.isHll {
			lg = min(lg, srcLgK)
		} else {
			lg = min(u.lgMax, srcLgK)
		}
	}
	u.r = hllRefOf(lg, u.r.isHll || srcHll, append(append([]uint32{}, u.r.list...), coupons...))
}

func checkUnion(c *C, u hll.Union, r *uref, full bool) {
	lgK := u.GetLgConfigK()
	c.Assert(lgK == r.r.lgK, "union-lgk", "union has lgK %d, expected %d", lgK, r.r.lgK)
	c.Assert(u.IsEmpty() == (len(r.r.list) == 0), "union-empty", "IsEmpty %v with %d coupons", u.IsEmpty(), len(r.r.list))
	// the union's own answers first: they must not depend on asking for a result before
	ue, err := u.GetEstimate()
	c.NoErr(err, "union-estimate")
	uc, err := u.GetCompositeEstimate()
	c.NoErr(err, "union-composite")
	var ul, uu [4]float64
	for sd := 1; sd <= 3; sd++ {
		l, e1 := u.GetLowerBound(sd)
		h, e2 := u.GetUpperBound(sd)
		c.Assert(e1 == nil && e2 == nil, "bounds-error", "union bounds: %v %v", e1, e2)
		ul[sd], uu[sd] = l, h
	}
	rc := refCompReg(c, r.r)
	if !near(rc, uc, 1e-12) {
		c.Fail("union-composite", "union composite estimate %v, a single sketch has %v", uc, rc)
	}
	if r.twoFull {
		c.Assert(near(ue, uc, 1e-12), "union-estimate", "a union of full arrays estimates %v, its registers give %v", ue, uc)
	}
	if r.only != nil {
		c.Assert(near(ue, *r.only, 1e-12), "union-estimate", "a union of one sketch estimates %v, the sketch %v", ue, *r.only)
	}
	types := []int{2, 0, 1}
	if !full {
		types = types[:1]
	}
	for _, ty := range types {
		s, err := u.GetResult(hllTypes[ty])
		c.NoErr(err, "result")
		c.Step()
		h := himage(c, s, "result")
		c.Assert(h.typ == ty, "result-type", "result has type %d, not %d", h.typ, ty)
		if err := h.matches(r.r); err != nil {
			c.Fail("union-content", "union result as %s: %v", hllTypeNames[ty], err)
		}
		c.Assert((h.mode == 2) == r.r.isHll, "union-mode", "result mode %d, full array expected: %v", h.mode, r.r.isHll)
		e := hllEst(c, s)
		c.Assert(near(e.comp, uc, 1e-12) && near(e.est, ue, 1e-12), "union-result-estimate", "union estimates %v/%v, its result's %v as %s", ue, uc, e, hllTypeNames[ty])
		if h.ooo {
			c.Assert(e.est == e.comp, "ooo-estimate", "out-of-order result: estimate %v, composite %v", e.est, e.comp)
		}
		for sd := 1; sd <= 3; sd++ {
			l, _ := s.GetLowerBound(sd)
			x, _ := s.GetUpperBound(sd)
			c.Assert(near(l, ul[sd], 1e-12) && near(x, uu[sd], 1e-12), "union-result-bounds", "union bounds %v %v, its result's %v %v", ul[sd], uu[sd], l, x)
			c.Assert(l <= e.est*(1+1e-12) && e.est <= x*(1+1e-12), "bounds-order", "result bounds %v %v around %v", l, x, e.est)
		}
	}
	for i := 0; i < 2; i++ {
		b, err := hllBytes(u, i == 0)
		c.NoErr(err, "serialize")
		h, err := decodeHll(b, i == 0)
		c.NoErr(err, "image")
		if err := h.matches(r.r); err != nil {
			c.Fail("union-image", "union image: %v", err)
		}
		if err := h.consistent(); err != nil {
			c.Fail("union-image", "union image: %v", err)
		}
	}
	c.State(r.r.fp())
}

func c10Seq(name string, lgMaxs []int, specs []hspec, direct []coup, depth int, full bool) engine.Scenario {
	return engine.Scenario{
		Name: name, ShardDepth: 3,
		Bound: fmt.Sprintf("lgMaxK %v x every sequence of %d operations from {merge one of %d input sketches (precisions, forms, modes, out-of-order results), %d direct updates, reset, serialize and restore, continue}: after every operation registers, precision, composite estimate, bounds, result in every form and image against the reference; inputs and earlier results unchanged", lgMaxs, depth, len(specs), len(direct)),
		Run: func(c *C) {
			lgMax := lgMaxs[c.Choose(len(lgMaxs), "lgMaxK")]
			u, err := hll.NewUnion(lgMax)
			c.NoErr(err, "new")
			r := &uref{lgMax: lgMax, r: newHref(lgMax)}
			c.Logf("union lgMaxK=%d", lgMax)
			checkUnion(c, u, r, true)
			type kept struct {
				s   hll.HllSketch
				img []byte
				est hEst
			}
			var ks []kept
			keep := func(s hll.HllSketch) {
				b, err := s.ToUpdatableSlice()
				c.NoErr(err, "serialize")
				ks = append(ks, kept{s, b, hllEst(c, s)})
			}
			for d := 0; d < depth; d++ {
				op := c.Choose(len(specs)+len(direct)+3, "op")
				switch {
				case op < len(specs):
					sp := specs[op]
					c.Logf("merge %v", sp)
					s, cs := sp.build(c)
					keep(s)
					var ps []uint32
					for _, k := range cs {
						ps = append(ps, k.packed())
					}
					c.NoErr(u.UpdateSketch(s), "union-update")
					first, full := len(r.r.list) == 0, promotes(sp.lgK, distinct(ps))
					r.merge(sp.lgK, full, ps)
					if e := hllEst(c, s); first && full && !himage(c, s, "input").ooo {
						r.only = &e.est
					}
				case op < len(specs)+len(direct):
					k := direct[op-len(specs)]
					c.Logf("update %v", k)
					c.NoErr(u.UpdateSlice(k.item()), "update")
					r.merge(0, false, []uint32{k.packed()})
				case op == len(specs)+len(direct):
					c.Logf("reset")
					c.NoErr(u.Reset(), "reset")
					g := u.GetLgConfigK()
					c.Assert(g <= lgMax, "reset-lgk", "lgK %d after reset", g)
					r.r, r.twoFull, r.only = newHref(g), false, nil
				case op == len(specs)+len(direct)+1:
					c.Logf("serialize and restore")
					b, err := hllBytes(u, d%2 == 0)
					c.NoErr(err, "serialize")
					u, err = hll.NewUnionFromSlice(b)
					c.NoErr(err, "restore")
					for i := range b {
						b[i] = 0x5a
					}
					r.lgMax = r.r.lgK
				default:
					c.Logf("merge nil and an empty sketch")
					c.NoErr(u.UpdateSketch(nil), "union-update")
					e, err := hll.NewHllSketch(4, hll.TgtHllTypeHll4)
					c.NoErr(err, "new")
					c.NoErr(u.UpdateSketch(e), "union-update")
				}
				c.Step()
				checkUnion(c, u, r, full && d == depth-1)
				res, err := u.GetResult(hllTypes[d%3])
				c.NoErr(err, "result")
				keep(res)
				for _, k := range ks[:len(ks)-1] {
					b, _ := k.s.ToUpdatableSlice()
					if !eqBytes(b, k.img) || hllEst(c, k.s) != k.est {
						c.Fail("union-source", "an input or an earlier result changed")
					}
				}
			}
			// results stay usable and independent
			last := ks[len(ks)-1].s
			for _, k := range hllMore {
				c.NoErr(last.UpdateSlice(k.item()), "update")
			}
			checkUnion(c, u, r, false)
			l := hllRefOf(r.r.lgK, r.r.isHll, r.r.list)
			for _, k := range hllMore {
				l = hllRefOf(l.lgK, l.isHll, append(l.list, k.packed()))
			}
			h := himage(c, last, "grown result")
			if err := h.matches(l); err != nil {
				c.Fail("union-result-grown", "result updated further: %v", err)
			}
			if rc := refCompReg(c, l); !near(rc, hllEst(c, last).comp, 1e-12) {
				c.Fail("union-result-grown", "result updated further: composite %v, expected %v", hllEst(c, last).comp, rc)
			}
		},
	}
}

func distinct(ps []uint32) int {
	m := map[uint32]bool{}
	for _, p := range ps {
		m[p] = true
	}
	return len(m)
}

// c10Order: all orders of a set of inputs give the same registers.
func c10Order(name string, lgMaxs, lgKs, types []int, n int) engine.Scenario {
	specs := hllSpecs(lgKs, types, "array-exceptions", "array-mixed", "list-almost-full", "set-almost-full")
	return engine.Scenario{
		Name: name, ShardDepth: 3,
		Bound: fmt.Sprintf("lgMaxK in %v x every ordered choice of %d of %d inputs of lgK %v: registers and composite estimate equal the reference after the last", lgMaxs, n, len(specs), lgKs),
		Run: func(c *C) {
			lgMax := pickInt(c, "lgMaxK", lgMaxs...)
			u, err := hll.NewUnion(lgMax)
			c.NoErr(err, "new")
			r := &uref{lgMax: lgMax, r: newHref(lgMax)}
			used := map[int]bool{}
			for d := 0; d < n; d++ {
				i := c.Choose(len(specs), "input")
				if used[i] && d > 0 {
					continue
				}
				used[i] = true
				s, cs := specs[i].build(c)
				c.Logf("merge %v", specs[i])
				var ps []uint32
				for _, k := range cs {
					ps = append(ps, k.packed())
				}
				c.NoErr(u.UpdateSketch(s), "union-update")
				r.merge(specs[i].lgK, promotes(specs[i].lgK, distinct(ps)), ps)
			}
			checkUnion(c, u, r, true)
		},
	}
}

// --- C11 (HLL part) --------------------------------------------------------------------------

// checkHllBounds checks ordering and nesting and returns the estimate.
func checkHllBounds(c *C, b interface {
	GetEstimate() (float64, error)
	GetLowerBound(int) (float64, error)
	GetUpperBound(int) (float64, error)
	IsEmpty() bool
}, what func() string) float64 {
	e, err := b.GetEstimate()
	c.Assert(err == nil, "estimate-error", "estimate: %v", err)
	if math.IsNaN(e) || math.IsInf(e, 0) || e < 0 {
		c.Fail("estimate", "%s: estimate %v", what(), e)
	}
	c.Assert((e == 0) == b.IsEmpty(), "estimate-empty", "estimate %v, IsEmpty %v", e, b.IsEmpty())
	var pl, pu float64
	for sd := 1; sd <= 3; sd++ {
		l, e1 := b.GetLowerBound(sd)
		u, e2 := b.GetUpperBound(sd)
		c.Assert(e1 == nil && e2 == nil, "bounds-error", "bounds: %v %v", e1, e2)
		if !(l <= e && e <= u) || l < 0 || math.IsInf(u, 0) {
			c.Fail("bounds-order", "%s sd=%d: lower %v estimate %v upper %v", what(), sd, l, e, u)
		}
		if sd > 1 && (l > pl || u < pu) {
			c.Fail("bounds-nested", "%s sd=%d: [%v,%v] does not enclose [%v,%v]", what(), sd, l, u, pl, pu)
		}
		pl, pu = l, u
	}
	c.Step()
	for _, sd := range []int{0, 4, -1} {
		_, e1 := b.GetLowerBound(sd)
		_, e2 := b.GetUpperBound(sd)
		c.Assert(e1 != nil && e2 != nil, "bounds-sd", "%d standard deviations accepted", sd)
	}
	return e
}

// c11Hll checks sketches of up to factor*k items, and no more than limit.
func c11Hll(name string, lgKs []int, factor, limit int) engine.Scenario {
	return engine.Scenario{
		Name: name, ShardDepth: 2,
		Bound: fmt.Sprintf("lgK %v x 3 forms, sketch of 0..%d*k (at least 200, at most %d) integer items, examined at every count up to 300 and then geometrically, as built, decoded, as union result (same and smaller precision) and as union: order and nesting of bounds, estimate 0 iff empty, monotone in-order estimate, within half an item (plus the documented 5e-5 of coupon mode and 5 sigma of coupon collisions) while items are stored", lgKs, factor, limit),
		Run: func(c *C) {
			lgK := lgKs[c.Choose(len(lgKs), "lgK")]
			ty := c.Choose(3, "type")
			s, err := hll.NewHllSketch(lgK, hllTypes[ty])
			c.NoErr(err, "new")
			N := max(200, min(factor<<lgK, limit))
			prev := 0.0
			next := 0
			for n := 0; n <= N; n++ {
				if n > 0 {
					c.NoErr(s.UpdateInt64(int64(n)), "update")
				}
				e, err := s.GetEstimate()
				c.Assert(err == nil && e >= prev, "estimate-decreased", "lgK=%d %s: estimate fell from %v to %v at item %d", lgK, hllTypeNames[ty], prev, e, n)
				prev = e
				if n < next {
					continue
				}
				next = n + 1
				if n > 300 {
					next = n + n/12 + 1
				}
				what := func() string { return fmt.Sprintf("lgK=%d %s %d items", lgK, hllTypeNames[ty], n) }
				checkHllBounds(c, s, what)
				mode := s.GetCurMode()
				if mode != 2 {
					c.Assert(math.Abs(e-float64(n)) <= 0.5+5e-5*float64(n)+5*math.Sqrt(float64(n)*float64(n)/(1<<27)), "coupon-estimate", "%s: estimate %v", what(), e)
				}
				c.State(mix(uint64(lgK), uint64(ty), uint64(n)))
				if n%5 != 0 && n > 300 {
					continue
				}
				u, err := hll.NewUnion(lgK)
				c.NoErr(err, "union")
				c.NoErr(u.UpdateSketch(s), "union-update")
				c.NoErr(u.UpdateSketch(s), "union-update")
				checkHllBounds(c, u, func() string { return "union of " + what() })
				r, err := u.GetResult(hllTypes[(ty+n)%3])
				c.NoErr(err, "result")
				checkHllBounds(c, r, func() string { return "union result of " + what() })
				b, err := r.ToCompactSlice()
				c.NoErr(err, "serialize")
				d, err := hll.NewHllSketchFromSlice(b, true)
				c.NoErr(err, "decode")
				checkHllBounds(c, d, func() string { return "decoded union result of " + what() })
				if lgK > 4 {
					u, err := hll.NewUnion(max(4, lgK-2))
					c.NoErr(err, "union")
					c.NoErr(u.UpdateSketch(s), "union-update")
					checkHllBounds(c, u, func() string { return "smaller union of " + what() })
				}
			}
		},
	}
}

// c11HllRegs: register vectors chosen freely.
func c11HllRegs(lgKs []int, parts int) engine.Scenario {
	vals := []uint8{0, 1, 2, 3, 5, 14, 16, 31, 33, 63}
	return engine.Scenario{
		Name: "hll-bounds-registers", ShardDepth: 3,
		Bound: fmt.Sprintf("lgK %v x arrays whose registers take one of %v in each of %d equal groups, in order and out of order: order and nesting of bounds", lgKs, vals, parts),
		Run: func(c *C) {
			lgK := lgKs[c.Choose(len(lgKs), "lgK")]
			k := 1 << lgK
			var cs []coup
			for p := 0; p < parts; p++ {
				v := vals[c.Choose(len(vals), "value")]
				if v == 0 {
					continue
				}
				for i := p * k / parts; i < (p+1)*k/parts; i++ {
					cs = append(cs, coup{uint32(i), v})
				}
			}
			base := len(cs)
			for j := 1; base > 0 && !promotes(lgK, len(cs)); j++ {
				cs = append(cs, coup{uint32(j<<lgK) | cs[j%base].addr, 1})
			}
			ty := c.Choose(3, "type")
			s, err := hll.NewHllSketch(lgK, hllTypes[ty])
			c.NoErr(err, "new")
			for _, x := range cs {
				c.NoErr(s.UpdateSlice(x.item()), "update")
			}
			h := himage(c, s, "built")
			what := func() string { return fmt.Sprintf("%s lgK=%d registers %v", hllTypeNames[ty], lgK, short(h.regs)) }
			checkHllBounds(c, s, what)
			u, err := hll.NewUnion(lgK)
			c.NoErr(err, "union")
			c.NoErr(u.UpdateSketch(s), "union-update")
			c.NoErr(u.UpdateSketch(s), "union-update")
			checkHllBounds(c, u, func() string { return "union: " + what() })
			r, err := u.GetResult(hllTypes[ty])
			c.NoErr(err, "result")
			checkHllBounds(c, r, func() string { return "union result: " + what() })
			c.State(mix(uint64(lgK), uint64(ty), mix(u64s(nil), uint64(len(cs)))))
		},
	}
}

func init() {
	inv := []string{"items with a wanted hash are found by inverting MurmurHash3 on 16-byte inputs; the inversion is re-checked on every item"}
	engine.Register(engine.Property{
		ID: "C09", Assumptions: inv,
		Scenarios: func(tier string) []engine.Scenario {
			if tier == "thorough" {
				return []engine.Scenario{c09Round([]int{4, 5, 6, 7, 8, 9, 10, 11, 12}), c09Crafted([]int{4, 7, 8, 9, 10}), c09Counts([]int{4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14}, 400)}
			}
			return []engine.Scenario{c09Round([]int{4, 5, 7, 8, 9, 10}), c09Crafted([]int{4, 7, 8, 9, 10}), c09Counts([]int{4, 6, 7, 8, 9, 10, 11, 12}, 60)}
		},
	})
	var mixed, few []hspec
	mixed = append(mixed, hllSpecs([]int{4}, []int{0, 2}, "array-exceptions", "list-almost-full")...)
	mixed = append(mixed, hllSpecs([]int{6}, []int{0, 1}, "array-mixed", "array-many-exceptions")...)
	mixed = append(mixed, hllSpecs([]int{8}, []int{2, 1}, "set-colliding", "array-one-slot-left", "array-high")...)
	mixed = append(mixed, hllSpecs([]int{9}, []int{0, 1}, "array-mixed", "set-before-growth")...)
	mixed = append(mixed, hspec{"array-mixed", 6, 1, hllBases(6)[4].f, true}, hspec{"array-all-2", 8, 2, hllBases(8)[6].f, true})
	for i := 0; i < len(mixed); i += 2 {
		few = append(few, mixed[i])
	}
	direct := []coup{{5, 1}, {1<<25 | 7, 35}}
	engine.Register(engine.Property{
		ID: "C10", Assumptions: inv,
		Scenarios: func(tier string) []engine.Scenario {
			if tier == "thorough" {
				return []engine.Scenario{
					c10Inputs(),
					c10Seq("hll-union", []int{4, 5, 6, 7, 8, 9, 12}, mixed, direct, 3, true),
					c10Seq("hll-union-deep", []int{4, 7, 8, 10}, few, direct[:1], 4, false),
					c10Order("hll-union-large", []int{11, 12, 13, 14, 17, 21}, []int{11, 13, 14, 17}, []int{0, 1, 2}, 2),
					c10Order("hll-union-orders", []int{5, 8, 12}, []int{4, 6, 8, 9}, []int{0, 1, 2}, 3),
				}
			}
			return []engine.Scenario{
				c10Inputs(),
				c10Seq("hll-union", []int{4, 6, 7, 8, 10}, mixed, direct, 2, true),
				c10Seq("hll-union-deep", []int{4, 8, 10}, few, direct[:1], 3, false),
				c10Order("hll-union-large", []int{12, 15}, []int{11, 12, 14}, []int{0, 2}, 2),
			}
		},
	})
}
