package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"sort"

	"github.com/apache/datasketches-go/theta"

	"verifmc/engine"
)

// ---- operand alphabet ---------------------------------------------------------------------------

type thetaSpec struct {
	name   string
	lgK    int
	p      float32
	lo, hi int // integer keys [lo,hi)
	trim   bool
	raw    *tref // crafted content (decoded from hand-made bytes) instead of a key range
}

var thetaSpecs = []thetaSpec{
	{name: "empty", lgK: 5, p: 1},
	{name: "empty-p", lgK: 5, p: 0.1},
	{name: "one", lgK: 5, p: 1, lo: 3, hi: 4},
	{name: "exact-a", lgK: 5, p: 1, lo: 0, hi: 10},
	{name: "exact-b", lgK: 6, p: 1, lo: 5, hi: 40},
	{name: "disjoint", lgK: 5, p: 1, lo: 1000, hi: 1012},
	{name: "exact-big", lgK: 9, p: 1, lo: 0, hi: 200},
	{name: "est-a", lgK: 5, p: 1, lo: 0, hi: 200},
	{name: "est-b", lgK: 6, p: 1, lo: 100, hi: 700, trim: true},
	{name: "est-far", lgK: 5, p: 1, lo: 5000, hi: 5400},
	{name: "sampled", lgK: 6, p: 0.5, lo: 0, hi: 60},
	{name: "degenerate", lgK: 5, p: 0.001, lo: 0, hi: 6},
	{name: "superset", lgK: 8, p: 1, lo: 0, hi: 210},
	{name: "est-low-theta", lgK: 5, p: 1, lo: 0, hi: 3000},
}

const nThetaForms = 7

var thetaFormNames = []string{"update", "compact", "compact-ordered", "wrapped-v3", "wrapped-v3-ordered", "wrapped-v4", "decoded-v4"}

func (s thetaSpec) build(c *C, seed uint64) *theta.QuickSelectUpdateSketch {
	u := newTheta(c, s.lgK, 3, s.p, seed)
	for k := s.lo; k < s.hi; k++ {
		_ = u.UpdateInt64(int64(k))
	}
	if s.trim {
		u.Trim()
	}
	c.Step()
	return u
}

func encodeTheta(c *C, cs *theta.CompactSketch, compressed bool) []byte {
	var b bytes.Buffer
	enc := theta.NewEncoder(&b, compressed)
	c.NoErr(enc.Encode(cs), "encode")
	return b.Bytes()
}

func thetaForm(c *C, u *theta.QuickSelectUpdateSketch, form int, seed uint64) theta.Sketch {
	switch form {
	case 0:
		return u
	case 1:
		return u.Compact(false)
	case 2:
		return u.Compact(true)
	case 3, 4:
		w, err := theta.WrapCompactSketch(encodeTheta(c, u.Compact(form == 4), false), seed)
		c.NoErr(err, "wrap")
		return w
	case 5:
		w, err := theta.WrapCompactSketch(encodeTheta(c, u.Compact(true), true), seed)
		c.NoErr(err, "wrap")
		return w
	default:
		d, err := theta.Decode(encodeTheta(c, u.Compact(true), true), seed)
		c.NoErr(err, "decode")
		return d
	}
}

// ---- reference algebra --------------------------------------------------------------------------

func below(a []uint64, t uint64) []uint64 {
	i := sort.Search(len(a), func(i int) bool { return a[i] >= t })
	return a[:i:i]
}

func mergeSorted(a, b []uint64) []uint64 {
	r := make([]uint64, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i] < b[j]):
			r = append(r, a[i])
			i++
		case i >= len(a) || b[j] < a[i]:
			r = append(r, b[j])
			j++
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	return r
}

func isect(a, b []uint64, keep bool) []uint64 { // keep=true: common; false: a minus b
	var r []uint64
	j := 0
	for _, x := range a {
		for j < len(b) && b[j] < x {
			j++
		}
		if (j < len(b) && b[j] == x) == keep {
			r = append(r, x)
		}
	}
	return r
}

// refUnion is the union of the operands in a union of 2^lgK with starting threshold start.
func refUnion(lgK int, start uint64, ops []tref) tref {
	r := tref{theta: start, empty: true}
	var all []uint64
	for _, o := range ops {
		if o.empty {
			continue
		}
		r.empty = false
		r.theta = min(r.theta, o.theta)
		all = mergeSorted(all, o.h)
	}
	if r.empty {
		r.theta = maxTheta
		return r
	}
	all = below(all, r.theta)
	if k := 1 << lgK; len(all) > k {
		r.theta = all[k]
		all = all[:k]
	}
	r.h = all
	return r
}

func refIntersect(ops []tref) tref {
	r := tref{theta: maxTheta}
	for i, o := range ops {
		if o.empty {
			return tref{theta: maxTheta, empty: true}
		}
		r.theta = min(r.theta, o.theta)
		if i == 0 {
			r.h = o.h
		} else {
			r.h = isect(r.h, o.h, true)
		}
		r.h = below(r.h, r.theta)
		if len(r.h) == 0 && r.theta == maxTheta {
			return tref{theta: maxTheta, empty: true}
		}
	}
	return r
}

func refANotB(a, b tref) tref {
	if a.empty {
		return tref{theta: maxTheta, empty: true}
	}
	if b.empty {
		return a
	}
	r := tref{theta: min(a.theta, b.theta)}
	r.h = isect(below(a.h, r.theta), b.h, false)
	if len(r.h) == 0 && r.theta == maxTheta {
		r.empty = true
	}
	return r
}

func checkResult(c *C, what string, got *theta.CompactSketch, err error, want tref, ordered bool) tref {
	c.NoErr(err, "op-error")
	r := observe(c, got, what)
	if !r.eq(want) {
		c.Fail("set-op", "%s: got %v want %v", what, r, want)
	}
	if ordered {
		c.Assert(got.IsOrdered(), "result-order", "%s: ordered result requested, IsOrdered false", what)
	}
	sh, err := got.SeedHash()
	c.NoErr(err, "seedhash")
	c.Assert(sh == seedHash16(defaultSeed), "seedhash", "%s: seed hash %x", what, sh)
	return r
}

func seedHash16(seed uint64) uint16 {
	h, _ := hash128(le64(seed), 0)
	return uint16(h)
}

// ---- C02 ----------------------------------------------------------------------------------------

func c02Pairs(unionCfg [][2]float64, forms []int) engine.Scenario {
	return engine.Scenario{
		Name: "theta-pairs", ShardDepth: 4,
		Bound: fmt.Sprintf("every ordered pair of %d operand contents x every pair of forms %v x union configurations (lgK,p) %v: union, intersection, difference, each ordered and unordered, inputs re-observed afterwards", len(thetaSpecs), thetaFormNames, unionCfg),
		Run: func(c *C) {
			sa, sb := thetaSpecs[c.Choose(len(thetaSpecs), "A")], thetaSpecs[c.Choose(len(thetaSpecs), "B")]
			fa, fb := forms[c.Choose(len(forms), "formA")], forms[c.Choose(len(forms), "formB")]
			c.Logf("%s/%s %s/%s", sa.name, thetaFormNames[fa], sb.name, thetaFormNames[fb])
			a := thetaForm(c, sa.build(c, defaultSeed), fa, defaultSeed)
			b := thetaForm(c, sb.build(c, defaultSeed), fb, defaultSeed)
			ra, rb := observe(c, a, "A"), observe(c, b, "B")
			for _, ord := range []bool{true, false} {
				for _, cfg := range unionCfg {
					u, err := theta.NewUnion(theta.WithUnionLgK(uint8(cfg[0])), theta.WithUnionSketchP(float32(cfg[1])))
					c.NoErr(err, "new-union")
					start := startTheta(float32(cfg[1]))
					var ops []tref
					for _, x := range []struct {
						s theta.Sketch
						r tref
					}{{a, ra}, {b, rb}} {
						c.NoErr(u.Update(x.s), "union-update")
						c.Step()
						ops = append(ops, x.r)
						res, err := u.Result(ord)
						if ord {
							res, err = u.OrderedResult()
						}
						c.State(checkResult(c, "union", res, err, refUnion(int(cfg[0]), start, ops), ord).fp())
					}
					u.Reset()
					res, err := u.Result(ord)
					checkResult(c, "reset union", res, err, refUnion(int(cfg[0]), start, nil), ord)
					c.NoErr(u.Update(b), "union-update")
					res, err = u.Result(ord)
					checkResult(c, "union after reset", res, err, refUnion(int(cfg[0]), start, []tref{rb}), ord)
				}
				in := theta.NewIntersection()
				c.Assert(!in.HasResult(), "hasresult", "HasResult before any update")
				_, err := in.Result(ord)
				c.Assert(err != nil, "no-result", "Result before any update succeeded")
				c.NoErr(in.Update(a), "int-update")
				res, err := in.Result(ord)
				checkResult(c, "intersection of one", res, err, refIntersect([]tref{ra}), ord)
				c.NoErr(in.Update(b), "int-update")
				c.Assert(in.HasResult(), "hasresult", "HasResult after updates")
				res2, err := in.Result(ord)
				if ord {
					res2, err = in.OrderedResult()
				}
				c.State(checkResult(c, "intersection", res2, err, refIntersect([]tref{ra, rb}), ord).fp())
				c.Assert(observe(c, res, "earlier result").eq(refIntersect([]tref{ra})), "result-changed", "earlier intersection result changed")
				d, err := theta.ANotB(a, b, defaultSeed, ord)
				c.State(checkResult(c, "a-not-b", d, err, refANotB(ra, rb), ord).fp())
				c.Steps(3)
			}
			c.Assert(observe(c, a, "A").eq(ra) && observe(c, b, "B").eq(rb), "input-changed", "an operand changed")
		},
	}
}

func c02Seq(depth int) engine.Scenario {
	return engine.Scenario{
		Name: fmt.Sprintf("theta-sequences-%d", depth), ShardDepth: 3,
		Bound: fmt.Sprintf("every sequence of %d operand contents (%d contents, forms rotating with position) through one union (lgK 5, p 1 and 0.3) and one intersection, results taken after every step and re-observed at the end; then union+intersection combined in a difference", depth, len(thetaSpecs)),
		Run: func(c *C) {
			rot := c.Choose(nThetaForms, "form")
			p := float32(pickF(c, "p", 1, 0.3))
			u, err := theta.NewUnion(theta.WithUnionLgK(5), theta.WithUnionSketchP(p), theta.WithUnionResizeFactor(theta.ResizeFactor(rot&3)))
			c.NoErr(err, "new-union")
			in := theta.NewIntersection()
			var ops []tref
			type saved struct {
				s *theta.CompactSketch
				r tref
			}
			var keep []saved
			var lu, li *theta.CompactSketch
			for d := 0; d < depth; d++ {
				sp := thetaSpecs[c.Choose(len(thetaSpecs), "op")]
				c.Logf("%s", sp.name)
				s := thetaForm(c, sp.build(c, defaultSeed), (rot+3*d)%nThetaForms, defaultSeed)
				r := observe(c, s, sp.name)
				ops = append(ops, r)
				c.NoErr(u.Update(s), "union-update")
				c.NoErr(in.Update(s), "int-update")
				c.Steps(2)
				lu, err = u.Result(d%2 == 0)
				keep = append(keep, saved{lu, checkResult(c, "union", lu, err, refUnion(5, startTheta(p), ops), d%2 == 0)})
				li, err = in.Result(d%2 == 1)
				keep = append(keep, saved{li, checkResult(c, "intersection", li, err, refIntersect(ops), d%2 == 1)})
				c.State(mix(keep[len(keep)-1].r.fp(), keep[len(keep)-2].r.fp()))
				c.Assert(observe(c, s, sp.name).eq(r), "input-changed", "operand %s changed", sp.name)
			}
			d, err := theta.ANotB(lu, li, defaultSeed, true)
			checkResult(c, "union minus intersection", d, err, refANotB(keep[len(keep)-2].r, keep[len(keep)-1].r), true)
			d, err = theta.ANotB(li, lu, defaultSeed, false)
			checkResult(c, "intersection minus union", d, err, refANotB(keep[len(keep)-1].r, keep[len(keep)-2].r), false)
			for _, k := range keep {
				c.Assert(observe(c, k.s, "earlier result").eq(k.r), "result-changed", "an earlier result changed")
			}
		},
	}
}

// c02Sizes sweeps operand sizes across every table size boundary.
func c02Sizes(maxN, stepN int) engine.Scenario {
	return engine.Scenario{
		Name: "theta-operand-sizes", ShardDepth: 2,
		Bound: fmt.Sprintf("operand A of every size 1..%d (step %d), B in {A's keys, A's keys shifted by one, half, single, 3 keys}, ordered/unordered: union with lgK 5..8, intersection, difference", maxN, stepN),
		Run: func(c *C) {
			n := 1 + stepN*c.Choose(maxN/stepN, "n")
			fa, fb := pickInt(c, "formA", 1, 2), pickInt(c, "formB", 1, 2)
			kind := c.Choose(5, "B")
			mk := func(lo, hi int) *theta.QuickSelectUpdateSketch {
				return thetaSpec{lgK: 12, p: 1, lo: lo, hi: hi}.build(c, defaultSeed)
			}
			ua := mk(0, n)
			ub := [][2]int{{0, n}, {1, n + 1}, {n / 2, n}, {n - 1, n}, {0, 3}}[kind]
			a, b := thetaForm(c, ua, fa, defaultSeed), thetaForm(c, mk(ub[0], ub[1]), fb, defaultSeed)
			ra, rb := observe(c, a, "A"), observe(c, b, "B")
			for lgK := 5; lgK <= 8; lgK++ {
				u, err := theta.NewUnion(theta.WithUnionLgK(uint8(lgK)), theta.WithUnionResizeFactor(theta.ResizeFactor(n&3)))
				c.NoErr(err, "new-union")
				c.NoErr(u.Update(a), "union-update")
				c.NoErr(u.Update(b), "union-update")
				res, err := u.Result(true)
				c.State(checkResult(c, "union", res, err, refUnion(lgK, maxTheta, []tref{ra, rb}), true).fp())
				c.Steps(2)
			}
			in := theta.NewIntersection()
			c.NoErr(in.Update(a), "int-update")
			c.NoErr(in.Update(b), "int-update")
			res, err := in.Result(false)
			c.State(checkResult(c, "intersection", res, err, refIntersect([]tref{ra, rb}), false).fp())
			c.NoErr(in.Update(a), "int-update")
			res, err = in.Result(true)
			checkResult(c, "intersection again", res, err, refIntersect([]tref{ra, rb, ra}), true)
			d, err := theta.ANotB(a, b, defaultSeed, false)
			checkResult(c, "a-not-b", d, err, refANotB(ra, rb), false)
			c.Steps(4)
		},
	}
}

// c02Subsets: small universes exhaustively; every pair of subsets of 5 hashes at three thresholds.
func c02Subsets(m int) engine.Scenario {
	mk := func(mask int, th uint64, keys []uint64) tref {
		r := tref{theta: th}
		for i, k := range keys {
			if mask>>i&1 == 1 && k < th {
				r.h = append(r.h, k)
			}
		}
		r.empty = len(r.h) == 0 && th == maxTheta
		return r
	}
	return engine.Scenario{
		Name: "theta-subsets", ShardDepth: 3,
		Bound: fmt.Sprintf("every pair of subsets of %d crafted hashes (three of them colliding in every small table) x thresholds {1, 0.6, 0.3} each x ordered/unordered each: intersection, difference and union equal exact set algebra", m),
		Run: func(c *C) {
			q := maxTheta / 100
			keys := []uint64{1, q * 10, q*10 + 1<<20, q*45 + 1, q*70 + 3, q*90 + 3}[:m]
			ths := []uint64{maxTheta, q * 60, q * 30}
			pick := func(l string) (tref, theta.Sketch) {
				mask, th := c.Choose(1<<m, l), ths[c.Choose(3, "theta")]
				r := mk(mask, th, keys)
				ord := c.Choose(2, "ordered") == 0
				s, err := theta.Decode(craftTheta(r, ord, defaultSeed), defaultSeed)
				c.NoErr(err, "decode")
				return r, s
			}
			ra, a := pick("A")
			rb, b := pick("B")
			u, err := theta.NewUnion(theta.WithUnionLgK(5))
			c.NoErr(err, "new-union")
			c.NoErr(u.Update(a), "union-update")
			c.NoErr(u.Update(b), "union-update")
			res, err := u.Result(true)
			c.State(checkResult(c, "union", res, err, refUnion(5, maxTheta, []tref{ra, rb}), true).fp())
			in := theta.NewIntersection()
			c.NoErr(in.Update(a), "int-update")
			c.NoErr(in.Update(b), "int-update")
			res, err = in.Result(true)
			c.State(checkResult(c, "intersection", res, err, refIntersect([]tref{ra, rb}), true).fp())
			d, err := theta.ANotB(a, b, defaultSeed, true)
			c.State(checkResult(c, "a-not-b", d, err, refANotB(ra, rb), true).fp())
			c.Steps(6)
		},
	}
}

// craftTheta writes a version 3 image by hand. Unordered content is written in reverse order.
func craftTheta(r tref, ordered bool, seed uint64) []byte {
	n := len(r.h)
	flags := byte(1<<1 | 1<<3) // read-only, compact
	pre := 2
	if r.theta < maxTheta {
		pre = 3
	}
	if r.empty {
		flags |= 1 << 2
		pre = 1
	}
	if n == 1 && r.theta == maxTheta {
		pre = 1
	}
	if ordered || n <= 1 {
		flags |= 1 << 4
	}
	b := make([]byte, 8*pre+8*n)
	b[0], b[1], b[2], b[5] = byte(pre), 3, 3, flags
	binary.LittleEndian.PutUint16(b[6:], seedHash16(seed))
	if pre > 1 {
		binary.LittleEndian.PutUint32(b[8:], uint32(n))
	}
	if pre > 2 {
		binary.LittleEndian.PutUint64(b[16:], r.theta)
	}
	for i := range r.h {
		x := r.h[i]
		if !ordered {
			x = r.h[n-1-i]
		}
		binary.LittleEndian.PutUint64(b[8*(pre+i):], x)
	}
	return b
}

func c02Seeds() engine.Scenario {
	return engine.Scenario{
		Name:  "theta-seeds",
		Bound: "every operand content x form built with another seed: union, intersection and difference (either side) fail when both operands are non-empty, succeed when it is empty; operations with a custom seed on operands of that seed work",
		Run: func(c *C) {
			sp := thetaSpecs[c.Choose(len(thetaSpecs), "A")]
			f := c.Choose(nThetaForms, "form")
			const seed2 = 777
			a := thetaForm(c, sp.build(c, seed2), f, seed2)
			good := thetaSpecs[3].build(c, defaultSeed)
			ra := observe(c, a, "A")
			sh, err := a.SeedHash()
			c.NoErr(err, "seedhash")
			c.Assert(sh == seedHash16(seed2), "seedhash", "seed hash %x", sh)
			u, err := theta.NewUnion(theta.WithUnionLgK(5))
			c.NoErr(err, "new")
			c.NoErr(u.Update(good), "upd")
			before, err := u.Result(true)
			rbef := checkResult(c, "u", before, err, refUnion(5, maxTheta, []tref{observe(c, good, "good")}), true)
			e := u.Update(a)
			c.Assert((e != nil) == !ra.empty, "seed-union", "union with foreign seed: %v", e)
			after, err := u.Result(true)
			checkResult(c, "union after refusal", after, err, rbef, true)
			in := theta.NewIntersection()
			c.NoErr(in.Update(good), "upd")
			e = in.Update(a)
			c.Assert((e != nil) == !ra.empty, "seed-intersection", "intersection with foreign seed: %v", e)
			if !ra.empty {
				_, e = theta.ANotB(a, good, defaultSeed, true)
				c.Assert(e != nil, "seed-anotb", "A\\B with foreign A accepted")
				_, e = theta.ANotB(good, a, defaultSeed, true)
				c.Assert(e != nil, "seed-anotb", "A\\B with foreign B accepted")
			} else {
				d, e := theta.ANotB(good, a, defaultSeed, true)
				checkResult(c, "A minus empty", d, e, observe(c, good, "good"), true)
			}
			c.Steps(6)
			// same seed everywhere
			u2, err := theta.NewUnion(theta.WithUnionLgK(5), theta.WithUnionSeed(seed2))
			c.NoErr(err, "new")
			b := thetaSpecs[4].build(c, seed2)
			rb := observe(c, b, "b")
			c.NoErr(u2.Update(a), "upd")
			c.NoErr(u2.Update(b), "upd")
			res, err := u2.Result(true)
			c.NoErr(err, "res")
			c.Assert(observe(c, res, "u2").eq(refUnion(5, maxTheta, []tref{ra, rb})), "set-op", "union with custom seed")
			in2 := theta.NewIntersection(theta.WithIntersectionSeed(seed2))
			c.NoErr(in2.Update(b), "upd")
			c.NoErr(in2.Update(a), "upd")
			res, err = in2.Result(true)
			c.NoErr(err, "res")
			c.Assert(observe(c, res, "i2").eq(refIntersect([]tref{rb, ra})), "set-op", "intersection with custom seed")
			res, err = theta.ANotB(b, a, seed2, true)
			c.NoErr(err, "res")
			c.Assert(observe(c, res, "d2").eq(refANotB(rb, ra)), "set-op", "difference with custom seed")
			sh, err = res.SeedHash()
			c.Assert(err == nil && sh == seedHash16(seed2), "seedhash", "result seed hash %x", sh)
		},
	}
}

func init() {
	engine.Register(engine.Property{ID: "C02", Assumptions: []string{"operand contents are observed through the public interface before each operation; C01 and C03 decide that this content is right"},
		Scenarios: func(tier string) []engine.Scenario {
			if tier == "thorough" {
				return []engine.Scenario{c02Seeds(), c02Subsets(6), c02Sizes(2000, 1), c02Large([]int{9, 12, 14}, []int{10, 12, 15}), c02Pairs([][2]float64{{5, 1}, {5, 0.3}, {7, 1}, {10, 0.9}}, []int{0, 1, 2, 3, 4, 5, 6}), c02Seq(3), c02Seq(4)}
			}
			return []engine.Scenario{c02Seeds(), c02Subsets(5), c02Sizes(520, 1), c02Large([]int{9, 12}, []int{10, 12, 15}), c02Pairs([][2]float64{{5, 1}, {5, 0.3}, {7, 1}}, []int{0, 1, 2, 3, 4, 5, 6}), c02Seq(3)}
		}})
}
