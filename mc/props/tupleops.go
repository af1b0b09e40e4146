package props

import (
	"encoding/binary"
	"fmt"

	"github.com/apache/datasketches-go/theta"
	"github.com/apache/datasketches-go/tuple"

	"verifmc/engine"
)

const nTupForms = 5

var tupFormNames = []string{"update", "compact", "compact-ordered", "decoded", "decoded-ordered"}

// buildTuple makes an update sketch of family f holding sp's keys, with summaries that depend on key and tag.
func buildTuple(c *C, f tfam, sp thetaSpec, tag int, seed uint64) tupd {
	u := f.newUpd(c, sp.lgK, 3, sp.p, seed)
	for k := sp.lo; k < sp.hi; k++ {
		_ = u.update(int64(k), (k*7+tag)%29)
		if (k+tag)%3 == 0 {
			_ = u.update(int64(k), tag%29)
		}
	}
	if sp.trim {
		u.trim()
	}
	c.Step()
	return u
}

func tupForm(c *C, f tfam, u tupd, form int, seed uint64) topd {
	switch form {
	case 0:
		return u
	case 1, 2:
		return u.compact(c, form == 2)
	default:
		s, err := f.decode(f.encode(c, u.compact(c, form == 4)), seed)
		c.NoErr(err, "decode")
		return s
	}
}

func pickSums(f tfam, keys tref, ops []tv, first bool) tv {
	r := tv{tref: keys}
	for _, h := range keys.h {
		var s tsum
		got := false
		for _, o := range ops {
			if x, ok := o.get(h); ok {
				if got {
					s = f.combine(s, x)
				} else {
					s, got = x, true
				}
			}
			if first {
				break
			}
		}
		r.s = append(r.s, s)
	}
	return r
}

func trefs(ops []tv) []tref {
	var r []tref
	for _, o := range ops {
		r = append(r, o.tref)
	}
	return r
}

func tupUnion(f tfam, lgK int, start uint64, ops []tv) tv {
	return pickSums(f, refUnion(lgK, start, trefs(ops)), ops, false)
}

func tupInter(f tfam, ops []tv) tv {
	return pickSums(f, refIntersect(trefs(ops)), ops, false)
}

func checkTup(c *C, f tfam, what string, got topd, want tv, ordered bool) tv {
	v := got.view(c, what)
	if !v.same(want) {
		c.Fail("set-op", "%s %s: %s (got vs want)", f.nm(), what, v.diff(want))
	}
	if ordered {
		c.Assert(got.ordered(), "result-order", "%s %s: ordered result requested, IsOrdered false", f.nm(), what)
	}
	c.Assert(got.seedHash() == seedHash16(defaultSeed), "seedhash", "%s %s: seed hash %x", f.nm(), what, got.seedHash())
	return v
}

func c06Pairs(fams []tfam, forms []int, cfgs [][2]float64) engine.Scenario {
	return engine.Scenario{
		Name: "tuple-pairs", ShardDepth: 4,
		Bound: fmt.Sprintf("every ordered pair of %d operand contents x forms x %d families: union (configurations %v), intersection, difference with a tuple and with a theta sketch, ordered and not, compared with theta set algebra and the policy's fold; operands re-observed; results modified in place and the operation re-queried", len(thetaSpecs), len(fams), cfgs),
		Run: func(c *C) {
			f := fams[c.Choose(len(fams), "family")]
			sa, sb := thetaSpecs[c.Choose(len(thetaSpecs), "A")], thetaSpecs[c.Choose(len(thetaSpecs), "B")]
			fa, fb := forms[c.Choose(len(forms), "formA")], forms[c.Choose(len(forms), "formB")]
			c.Logf("%s: %s/%s %s/%s", f.nm(), sa.name, tupFormNames[fa], sb.name, tupFormNames[fb])
			a := tupForm(c, f, buildTuple(c, f, sa, 1, defaultSeed), fa, defaultSeed)
			b := tupForm(c, f, buildTuple(c, f, sb, 2, defaultSeed), fb, defaultSeed)
			ra, rb := a.view(c, "A"), b.view(c, "B")
			still := func(what string) {
				if v := a.view(c, "A"); !v.same(ra) {
					c.Fail("input-changed", "%s: operand A changed after %s: %s", f.nm(), what, v.diff(ra))
				}
				if v := b.view(c, "B"); !v.same(rb) {
					c.Fail("input-changed", "%s: operand B changed after %s: %s", f.nm(), what, v.diff(rb))
				}
			}
			for _, ord := range []bool{true, false} {
				for _, cfg := range cfgs {
					u := f.newUnion(c, int(cfg[0]), 3, float32(cfg[1]), defaultSeed)
					start := startTheta(float32(cfg[1]))
					var ops []tv
					var held []topd
					var hv []tv
					for i, s := range []topd{a, b, a} {
						c.NoErr(u.update(s), "union-update")
						c.Step()
						ops = append(ops, []tv{ra, rb, ra}[i])
						want := tupUnion(f, int(cfg[0]), start, ops)
						r := u.result(c, ord)
						v := checkTup(c, f, "union", r, want, ord)
						c.State(v.fp())
						for j, h := range held {
							if w := h.view(c, "earlier"); !w.same(hv[j]) {
								c.Fail("result-changed", "%s: an earlier union result changed: %s", f.nm(), w.diff(hv[j]))
							}
						}
						held, hv = append(held, r), append(hv, v)
						// modifying a returned sketch must not reach the union
						m := u.result(c, !ord)
						if m.mutate() {
							checkTup(c, f, "union after its result was modified", u.result(c, ord), want, ord)
						}
					}
					still("union")
					u.reset()
					checkTup(c, f, "reset union", u.result(c, ord), tupUnion(f, int(cfg[0]), start, nil), ord)
					still("union reset")
					for j, h := range held {
						if w := h.view(c, "earlier"); !w.same(hv[j]) {
							c.Fail("result-changed", "%s: an earlier union result changed by Reset: %s", f.nm(), w.diff(hv[j]))
						}
					}
					c.NoErr(u.update(b), "union-update")
					checkTup(c, f, "union after reset", u.result(c, ord), tupUnion(f, int(cfg[0]), start, []tv{rb}), ord)
				}
				in := f.newInter(defaultSeed)
				c.Assert(!in.hasResult(), "hasresult", "HasResult before any update")
				_, err := in.result(ord)
				c.Assert(err != nil, "no-result", "Result before any update succeeded")
				var ops []tv
				var held []topd
				var hv []tv
				for i, s := range []topd{a, b, a} {
					c.NoErr(in.update(s), "int-update")
					c.Step()
					ops = append(ops, []tv{ra, rb, ra}[i])
					want := tupInter(f, ops)
					r, err := in.result(ord)
					c.NoErr(err, "int-result")
					c.Assert(in.hasResult(), "hasresult", "no result after update")
					v := checkTup(c, f, "intersection", r, want, ord)
					c.State(v.fp())
					for j, h := range held {
						if w := h.view(c, "earlier"); !w.same(hv[j]) {
							c.Fail("result-changed", "%s: an earlier intersection result changed: %s", f.nm(), w.diff(hv[j]))
						}
					}
					held, hv = append(held, r), append(hv, v)
					m, err := in.result(!ord)
					c.NoErr(err, "int-result")
					if m.mutate() {
						r, err = in.result(ord)
						c.NoErr(err, "int-result")
						checkTup(c, f, "intersection after its result was modified", r, want, ord)
					}
				}
				still("intersection")
				d, err := f.aNotB(a, b, defaultSeed, ord)
				c.NoErr(err, "anotb")
				want := pickSums(f, refANotB(ra.tref, rb.tref), []tv{ra}, true)
				c.State(checkTup(c, f, "difference", d, want, ord).fp())
				d.mutate()
				still("modifying the difference")
				// theta as second operand
				tb := thetaForm(c, sb.build(c, defaultSeed), []int{0, 1, 2, 3, 6}[fb%5], defaultSeed)
				d, err = f.aNotTheta(a, tb, defaultSeed, ord)
				c.NoErr(err, "anotb-theta")
				checkTup(c, f, "difference with theta", d, want, ord)
				d.mutate()
				still("modifying the difference with theta")
				c.Steps(2)
			}
		},
	}
}

func c06Seq(depth int, fams []tfam) engine.Scenario {
	specs := thetaSpecs
	return engine.Scenario{
		Name: fmt.Sprintf("tuple-sequences-%d", depth), ShardDepth: 3,
		Bound: fmt.Sprintf("every sequence of %d operand contents through one union (lgK 5, p 1 and 0.3) and one intersection of each of %d families; all operands and all earlier results re-observed after every step", depth, len(fams)),
		Run: func(c *C) {
			f := fams[c.Choose(len(fams), "family")]
			rot := c.Choose(2, "rot")
			p := float32(pickF(c, "p", 1, 0.3))
			u := f.newUnion(c, 5, rot*2+1, p, defaultSeed)
			in := f.newInter(defaultSeed)
			var ops []tv
			var held []topd
			var hv []tv
			for d := 0; d < depth; d++ {
				sp := specs[c.Choose(len(specs), "op")]
				s := tupForm(c, f, buildTuple(c, f, sp, d+1, defaultSeed), (rot*2+d)%nTupForms, defaultSeed)
				v := s.view(c, sp.name)
				ops = append(ops, v)
				held, hv = append(held, s), append(hv, v)
				c.NoErr(u.update(s), "union-update")
				c.NoErr(in.update(s), "int-update")
				c.Steps(2)
				r := u.result(c, d%2 == 0)
				v1 := checkTup(c, f, "union", r, tupUnion(f, 5, startTheta(p), ops), d%2 == 0)
				held, hv = append(held, r), append(hv, v1)
				q, err := in.result(d%2 == 1)
				c.NoErr(err, "int-result")
				v2 := checkTup(c, f, "intersection", q, tupInter(f, ops), d%2 == 1)
				held, hv = append(held, q), append(hv, v2)
				c.State(mix(v1.fp(), v2.fp()))
				for j, h := range held {
					if w := h.view(c, "held"); !w.same(hv[j]) {
						c.Fail("input-changed", "%s: an operand or earlier result (#%d) changed: %s", f.nm(), j, w.diff(hv[j]))
					}
				}
			}
			// results as operands of further operations
			n := len(held)
			x, err := f.aNotB(held[n-2], held[n-1], defaultSeed, true)
			c.NoErr(err, "anotb")
			checkTup(c, f, "union minus intersection", x, pickSums(f, refANotB(hv[n-2].tref, hv[n-1].tref), []tv{hv[n-2]}, true), true)
		},
	}
}

func c06Sizes(maxN, step int, fams []tfam) engine.Scenario {
	return engine.Scenario{
		Name: "tuple-operand-sizes", ShardDepth: 2,
		Bound: fmt.Sprintf("operand A of every size 1..%d (step %d), B in {same keys, shifted by one, half, single, 3 keys}: union lgK 5..7, intersection and difference of %d families", maxN, step, len(fams)),
		Run: func(c *C) {
			f := fams[c.Choose(len(fams), "family")]
			n := 1 + step*c.Choose(maxN/step, "n")
			fa, fb := pickInt(c, "formA", 1, 2), pickInt(c, "formB", 1, 2)
			kind := c.Choose(5, "B")
			mk := func(lo, hi, tag int) tupd {
				return buildTuple(c, f, thetaSpec{lgK: 12, p: 1, lo: lo, hi: hi}, tag, defaultSeed)
			}
			r := [][2]int{{0, n}, {1, n + 1}, {n / 2, n}, {n - 1, n}, {0, 3}}[kind]
			a, b := tupForm(c, f, mk(0, n, 1), fa, defaultSeed), tupForm(c, f, mk(r[0], r[1], 2), fb, defaultSeed)
			ra, rb := a.view(c, "A"), b.view(c, "B")
			for lgK := 5; lgK <= 7; lgK++ {
				u := f.newUnion(c, lgK, n&3, 1, defaultSeed)
				c.NoErr(u.update(a), "union-update")
				c.NoErr(u.update(b), "union-update")
				c.Steps(2)
				c.State(checkTup(c, f, "union", u.result(c, true), tupUnion(f, lgK, maxTheta, []tv{ra, rb}), true).fp())
			}
			in := f.newInter(defaultSeed)
			c.NoErr(in.update(a), "int-update")
			c.NoErr(in.update(b), "int-update")
			x, err := in.result(true)
			c.NoErr(err, "int-result")
			c.State(checkTup(c, f, "intersection", x, tupInter(f, []tv{ra, rb}), true).fp())
			x, err = f.aNotB(a, b, defaultSeed, false)
			c.NoErr(err, "anotb")
			checkTup(c, f, "difference", x, pickSums(f, refANotB(ra.tref, rb.tref), []tv{ra}, true), false)
			c.Steps(4)
		},
	}
}

// craftTuple builds an operand with exactly the given content.
func craftTuple(c *C, f tfam, r tref, ordered bool, tag int64) topd {
	n := len(r.h)
	hash := func(i int) uint64 {
		if ordered {
			return r.h[i]
		}
		return r.h[n-1-i]
	}
	var b []byte
	var pre []byte
	switch f.(type) {
	case *gen[*logSum], *gen[valSum]:
		p := byte(2)
		if r.theta < maxTheta {
			p = 3
		}
		if r.empty || (n == 1 && r.theta == maxTheta) {
			p = 1
		}
		fl := byte(1<<1 | 1<<3)
		if r.empty {
			fl |= 1 << 2
		}
		if ordered || n <= 1 {
			fl |= 1 << 4
		}
		pre = []byte{p, 3, 9, 1, 0, fl, 0, 0}
		binary.LittleEndian.PutUint16(pre[6:], seedHash16(defaultSeed))
		b = pre
		if p > 1 {
			b = binary.LittleEndian.AppendUint64(b, uint64(n))
		}
		if p > 2 {
			b = binary.LittleEndian.AppendUint64(b, r.theta)
		}
		for i := 0; i < n; i++ {
			b = binary.LittleEndian.AppendUint64(b, hash(i))
			b = binary.LittleEndian.AppendUint64(b, uint64(tag*1000+int64(hash(i)%97)))
		}
	default:
		fl := byte(0)
		if r.empty {
			fl |= 1 << 2
		}
		if n > 0 {
			fl |= 1 << 3
		}
		if ordered || n <= 1 {
			fl |= 1 << 4
		}
		b = []byte{1, 1, 9, 3, fl, 3, 0, 0}
		binary.LittleEndian.PutUint16(b[6:], seedHash16(defaultSeed))
		b = binary.LittleEndian.AppendUint64(b, r.theta)
		if n > 0 {
			b = binary.LittleEndian.AppendUint64(b, uint64(n))
			for i := 0; i < n; i++ {
				b = binary.LittleEndian.AppendUint64(b, hash(i))
			}
			for i := 0; i < n; i++ {
				for j := int64(0); j < 3; j++ {
					b = binary.LittleEndian.AppendUint64(b, uint64(tag*1000+int64(hash(i)%97)+j)) // int64 values
				}
			}
		}
	}
	s, err := f.decode(b, defaultSeed)
	c.NoErr(err, "decode")
	return s
}

func c06Subsets(m int) engine.Scenario {
	fams := []tfam{famPtr, famI64}
	return engine.Scenario{
		Name: "tuple-subsets", ShardDepth: 3,
		Bound: fmt.Sprintf("every pair of subsets of %d crafted hashes x thresholds {1, 0.6, 0.3} x ordered/unordered each, general and array-of-numbers families: union, intersection, difference keys and summaries", m),
		Run: func(c *C) {
			f := fams[c.Choose(2, "family")]
			q := maxTheta / 100
			keys := []uint64{1, q * 10, q*10 + 1<<20, q*45 + 1, q*70 + 3, q*90 + 3}[:m]
			ths := []uint64{maxTheta, q * 60, q * 30}
			pick := func(l string, tag int64) (tv, topd) {
				mask, th := c.Choose(1<<m, l), ths[c.Choose(3, "theta")]
				r := tref{theta: th}
				for i, k := range keys {
					if mask>>i&1 == 1 && k < th {
						r.h = append(r.h, k)
					}
				}
				r.empty = len(r.h) == 0 && th == maxTheta
				s := craftTuple(c, f, r, c.Choose(2, "ordered") == 0, tag)
				v := s.view(c, "crafted")
				c.Assert(v.tref.eq(r), "decode", "crafted image decoded to %v, want %v", v.tref, r)
				return v, s
			}
			ra, a := pick("A", 1)
			rb, b := pick("B", 2)
			u := f.newUnion(c, 5, 3, 1, defaultSeed)
			c.NoErr(u.update(a), "union-update")
			c.NoErr(u.update(b), "union-update")
			c.State(checkTup(c, f, "union", u.result(c, true), tupUnion(f, 5, maxTheta, []tv{ra, rb}), true).fp())
			in := f.newInter(defaultSeed)
			c.NoErr(in.update(a), "int-update")
			c.NoErr(in.update(b), "int-update")
			r, err := in.result(false)
			c.NoErr(err, "int-result")
			c.State(checkTup(c, f, "intersection", r, tupInter(f, []tv{ra, rb}), false).fp())
			r, err = f.aNotB(a, b, defaultSeed, true)
			c.NoErr(err, "anotb")
			c.State(checkTup(c, f, "difference", r, pickSums(f, refANotB(ra.tref, rb.tref), []tv{ra}, true), true).fp())
			tb, err := theta.Decode(craftTheta(rb.tref, c.Choose(2, "theta-ordered") == 0, defaultSeed), defaultSeed)
			c.NoErr(err, "decode")
			r, err = f.aNotTheta(a, tb, defaultSeed, true)
			c.NoErr(err, "anotb-theta")
			checkTup(c, f, "difference with theta", r, pickSums(f, refANotB(ra.tref, rb.tref), []tv{ra}, true), true)
			c.Steps(7)
		},
	}
}

func c06Seeds() engine.Scenario {
	return engine.Scenario{
		Name: "tuple-seeds", ShardDepth: 1,
		Bound: "every operand content x form x family built with another seed (or, for arrays, another number of values): union, intersection and difference refuse a non-empty foreign operand and stay as they were; custom-seed operations work",
		Run: func(c *C) {
			fams := []tfam{famPtr, famVal, famF64, famI64}
			f := fams[c.Choose(len(fams), "family")]
			sp := thetaSpecs[c.Choose(len(thetaSpecs), "A")]
			form := c.Choose(nTupForms, "form")
			const seed2 = 777
			a := tupForm(c, f, buildTuple(c, f, sp, 1, seed2), form, seed2)
			ra := a.view(c, "A")
			good := buildTuple(c, f, thetaSpecs[3], 2, defaultSeed)
			rg := good.view(c, "good")
			u := f.newUnion(c, 5, 3, 1, defaultSeed)
			c.NoErr(u.update(good), "upd")
			e := u.update(a)
			c.Assert((e != nil) == !ra.empty, "seed-union", "%s: union with foreign seed: %v", f.nm(), e)
			checkTup(c, f, "union after refusal", u.result(c, true), tupUnion(f, 5, maxTheta, []tv{rg}), true)
			in := f.newInter(defaultSeed)
			c.NoErr(in.update(good), "upd")
			e = in.update(a)
			c.Assert((e != nil) == !ra.empty, "seed-intersection", "%s: intersection with foreign seed: %v", f.nm(), e)
			if !ra.empty {
				r, err := in.result(true)
				c.NoErr(err, "int-result")
				checkTup(c, f, "intersection after refusal", r, tupInter(f, []tv{rg}), true)
				_, e = f.aNotB(a, good, defaultSeed, true)
				c.Assert(e != nil, "seed-anotb", "%s: A\\B with foreign A accepted", f.nm())
				_, e = f.aNotB(good, a, defaultSeed, true)
				c.Assert(e != nil, "seed-anotb", "%s: A\\B with foreign B accepted", f.nm())
				_, e = f.aNotTheta(a, thetaSpecs[3].build(c, defaultSeed), defaultSeed, true)
				c.Assert(e != nil, "seed-anotb", "%s: A\\theta with foreign A accepted", f.nm())
				_, e = f.aNotTheta(good, thetaForm(c, sp.build(c, seed2), form, seed2), defaultSeed, true)
				c.Assert(e != nil, "seed-anotb", "%s: A\\theta with foreign theta accepted", f.nm())
			}
			c.Steps(6)
			b := buildTuple(c, f, thetaSpecs[4], 3, seed2)
			rb := b.view(c, "b")
			u2 := f.newUnion(c, 5, 3, 1, seed2)
			c.NoErr(u2.update(a), "upd")
			c.NoErr(u2.update(b), "upd")
			v := u2.result(c, true)
			c.Assert(v.view(c, "u2").same(tupUnion(f, 5, maxTheta, []tv{ra, rb})) && v.seedHash() == seedHash16(seed2), "set-op", "%s: union with custom seed", f.nm())
			i2 := f.newInter(seed2)
			c.NoErr(i2.update(b), "upd")
			c.NoErr(i2.update(a), "upd")
			r, err := i2.result(true)
			c.NoErr(err, "int-result")
			c.Assert(r.view(c, "i2").same(tupInter(f, []tv{rb, ra})) && r.seedHash() == seedHash16(seed2), "set-op", "%s: intersection with custom seed", f.nm())
			r, err = f.aNotB(b, a, seed2, true)
			c.NoErr(err, "anotb")
			c.Assert(r.view(c, "d2").same(pickSums(f, refANotB(rb.tref, ra.tref), []tv{rb}, true)) && r.seedHash() == seedHash16(seed2), "set-op", "%s: difference with custom seed", f.nm())
			// number of values
			two, err := tuple.NewArrayOfNumbersUpdateSketch[float64](2, tuple.WithUpdateSketchLgK(5))
			c.NoErr(err, "new")
			for k := sp.lo; k < sp.hi; k++ {
				_ = two.UpdateInt64(int64(k), []float64{1, 2})
			}
			un, err := tuple.NewArrayOfNumbersSketchUnion[float64](aonPolicy[float64]{}, 3)
			c.NoErr(err, "new")
			it := tuple.NewArrayOfNumbersSketchIntersection[float64](aonPolicy[float64]{}, 3)
			if !two.IsEmpty() {
				c.Assert(un.Update(two) != nil, "num-values", "union of 3 values accepted a sketch of 2")
				c.Assert(it.Update(two) != nil, "num-values", "intersection of 3 values accepted a sketch of 2")
				r, err := un.Result(true)
				c.Assert(err == nil && r.IsEmpty(), "num-values", "union changed by a refused sketch")
				c.Assert(!it.HasResult(), "num-values", "intersection changed by a refused sketch")
			}
		},
	}
}

func init() {
	engine.Register(engine.Property{ID: "C06", Assumptions: []string{
		"policies follow the documented contract (they change only the internal summary)",
		"operand contents are observed through the public interface before each operation"},
		Scenarios: func(tier string) []engine.Scenario {
			all := []int{0, 1, 2, 3, 4}
			if tier == "thorough" {
				fs := append(append([]tfam{}, tFams...), famPtrFn)
				return []engine.Scenario{c06Seeds(), c06Subsets(5), c06Sizes(1000, 1, fs), c06Large([]int{9, 12, 14}, []int{10, 12, 15}, fs), c06Pairs(fs, all, [][2]float64{{5, 1}, {5, 0.3}, {7, 1}, {10, 0.9}}), c06Seq(3, fs)}
			}
			return []engine.Scenario{c06Seeds(), c06Subsets(4), c06Sizes(260, 1, []tfam{famPtr, famF64}), c06Large([]int{9, 12}, []int{10, 12}, []tfam{famPtr, famF64}), c06Pairs(tFams, []int{0, 1, 2}, [][2]float64{{5, 1}, {7, 0.3}}), c06Seq(3, []tfam{famPtr, famF64}), c06Seq(2, []tfam{famVal, famPtrFn, famI64})}
		}})
}
