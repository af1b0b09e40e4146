package props

import (
	"fmt"

	"github.com/apache/datasketches-go/theta"

	"verifmc/engine"
)

// Sketches of ordinary and large size: the other scenarios stay small so that they can be exhaustive in what happens;
// these repeat a few histories at the sizes people use.

func c01Large(lgKs []int) engine.Scenario {
	return engine.Scenario{
		Name: "theta-large", ShardDepth: 3,
		Bound: fmt.Sprintf("lgK in %v, resize factors 0..3, p in {1,0.3}, integer keys with every third repeated: model compared when the retained count crosses a power of two, around k and 15/8 k, every k keys up to 5k, after trim, after reset and refill", lgKs),
		Run: func(c *C) {
			lgK := pickInt(c, "lgK", lgKs...)
			rf := pickInt(c, "rf", 0, 1, 2, 3)
			p := float32(pickF(c, "p", 1, 0.3))
			s := newTheta(c, lgK, rf, p, defaultSeed)
			k := 1 << lgK
			m := newTModel(k, p)
			run := func(n, base int) {
				prev := 0
				for i := 0; i < n; i++ {
					j := i
					if i%3 == 2 {
						j = i / 2
					}
					h := thetaHash(int64(base+j), defaultSeed)
					_, dup := m.seen[h]
					th := s.Theta64()
					err := s.UpdateInt64(int64(base + j))
					c.Step()
					m.add(h)
					updErr(c, err, dup, h, th)
					nr := int(s.NumRetained())
					if nr != prev && nr >= 1024 && (nr&(nr-1) == 0 || nr == k+1 || nr < prev) || i%k == k-1 {
						c.State(m.check(c, s, fmt.Sprintf("update %d", i)).fp())
					}
					prev = nr
				}
			}
			run(5*k, 0)
			r := m.check(c, s, "end")
			for _, ord := range []bool{true, false} {
				c.Assert(observe(c, s.Compact(ord), "compact").eq(r), "compact", "compact differs")
			}
			s.Trim()
			c.Assert(int(s.NumRetained()) <= k, "trim", "after Trim %d > k=%d", s.NumRetained(), k)
			m.check(c, s, "trimmed")
			s.Reset()
			m.reset()
			run(3*k, 1<<40)
			c.State(m.check(c, s, "refilled").fp())
		},
	}
}

// largeOps: operand A has na keys, B nb keys of which common ones are A's.
type largeOps struct{ lgA, lgB, na, nb, common int }

func largeOperands(lgs []int) (o []largeOps) {
	for _, la := range lgs {
		for _, lb := range lgs {
			for _, na := range []int{2 << la / 3, 7 << la} {
				for _, nb := range []int{1 << lb / 2, 3 << lb, 20 << lb} {
					for _, co := range []int{0, min(na, nb) / 3, min(na, nb)} {
						o = append(o, largeOps{la, lb, na, nb, co})
					}
				}
			}
		}
	}
	return
}

func c02Large(lgs []int, unions []int) engine.Scenario {
	ops := largeOperands(lgs)
	return engine.Scenario{
		Name: "theta-large", ShardDepth: 1,
		Bound: fmt.Sprintf("%d pairs of operands of lgK %v, exact and estimating, disjoint, overlapping and nested, live or compact: union with lgK %v, intersection, difference", len(ops), lgs, unions),
		Run: func(c *C) {
			o := ops[c.Choose(len(ops), "operands")]
			form := c.Choose(4, "form")
			ua := thetaSpec{lgK: o.lgA, p: 1, lo: 0, hi: o.na}.build(c, defaultSeed)
			ub := thetaSpec{lgK: o.lgB, p: 1, lo: o.na - o.common, hi: o.na - o.common + o.nb}.build(c, defaultSeed)
			a, b := thetaForm(c, ua, []int{0, 1, 2, 2}[form], defaultSeed), thetaForm(c, ub, []int{1, 2, 2, 5}[form], defaultSeed)
			ra, rb := observe(c, a, "A"), observe(c, b, "B")
			for _, lgK := range unions {
				u, err := theta.NewUnion(theta.WithUnionLgK(uint8(lgK)), theta.WithUnionResizeFactor(theta.ResizeFactor(form)))
				c.NoErr(err, "new-union")
				c.NoErr(u.Update(a), "union-update")
				c.NoErr(u.Update(b), "union-update")
				res, err := u.Result(true)
				c.State(checkResult(c, "union", res, err, refUnion(lgK, maxTheta, []tref{ra, rb}), true).fp())
				c.Steps(2)
			}
			in := theta.NewIntersection()
			c.NoErr(in.Update(a), "int-update")
			c.NoErr(in.Update(b), "int-update")
			res, err := in.Result(form > 1)
			c.State(checkResult(c, "intersection", res, err, refIntersect([]tref{ra, rb}), form > 1).fp())
			d, err := theta.ANotB(a, b, defaultSeed, form > 1)
			checkResult(c, "a-not-b", d, err, refANotB(ra, rb), form > 1)
			d, err = theta.ANotB(b, a, defaultSeed, true)
			checkResult(c, "b-not-a", d, err, refANotB(rb, ra), true)
			c.Steps(4)
		},
	}
}

func c05Large(lgKs []int) engine.Scenario {
	return engine.Scenario{
		Name: "tuple-large", ShardDepth: 2,
		Bound: fmt.Sprintf("lgK in %v, %d families, resize factors 0 and 3, p in {1,0.3}: streams of 4*k keys, every third one a second value for an earlier key, compared with theta and the per-key fold every k updates, after trim, after reset and refill", lgKs, len(tFams)),
		Run: func(c *C) {
			lgK := pickInt(c, "lgK", lgKs...)
			f := tFams[c.Choose(len(tFams), "family")]
			rf := pickInt(c, "rf", 0, 3)
			p := float32(pickF(c, "p", 1, 0.3))
			th := newTheta(c, lgK, rf, p, defaultSeed)
			u := f.newUpd(c, lgK, rf, p, defaultSeed)
			m := &tupleModel{f, map[uint64]tsum{}}
			check := func(what string) {
				v := u.view(c, what)
				m.check(c, v, observe(c, th, what), what)
				c.State(v.fp())
			}
			run := func(n, base int) {
				for i := 0; i < n; i++ {
					j := i
					if i%3 == 2 {
						j = i / 2
					}
					key := int64(base + j)
					_ = th.UpdateInt64(key)
					_ = u.update(key, i%50)
					m.add(thetaHash(key, defaultSeed), i%50)
					c.Step()
					if i%(1<<lgK) == 1<<lgK-1 {
						check("stream")
					}
				}
			}
			run(4<<lgK, 0)
			th.Trim()
			u.trim()
			check("trim")
			th.Reset()
			u.reset()
			m.m = map[uint64]tsum{}
			run(2<<lgK, 1<<40)
			check("refilled")
			cs := u.compact(c, true)
			unshared(c, cs, cs.view(c, "compact"), "compact", u)
		},
	}
}

func c06Large(lgs []int, unions []int, fams []tfam) engine.Scenario {
	ops := largeOperands(lgs)
	return engine.Scenario{
		Name: "tuple-large", ShardDepth: 2,
		Bound: fmt.Sprintf("%d families, %d pairs of operands of lgK %v, exact and estimating, disjoint, overlapping and nested, compact ordered or not: union with lgK %v, intersection, difference", len(fams), len(ops), lgs, unions),
		Run: func(c *C) {
			f := fams[c.Choose(len(fams), "family")]
			o := ops[c.Choose(len(ops), "operands")]
			form := c.Choose(2, "form")
			mk := func(lgK, lo, hi, tag, form int) topd {
				return tupForm(c, f, buildTuple(c, f, thetaSpec{lgK: lgK, p: 1, lo: lo, hi: hi}, tag, defaultSeed), form, defaultSeed)
			}
			a, b := mk(o.lgA, 0, o.na, 1, 1+form), mk(o.lgB, o.na-o.common, o.na-o.common+o.nb, 2, 2-form)
			ra, rb := a.view(c, "A"), b.view(c, "B")
			for _, lgK := range unions {
				u := f.newUnion(c, lgK, form*3, 1, defaultSeed)
				c.NoErr(u.update(a), "union-update")
				c.NoErr(u.update(b), "union-update")
				c.Steps(2)
				c.State(checkTup(c, f, "union", u.result(c, true), tupUnion(f, lgK, maxTheta, []tv{ra, rb}), true).fp())
			}
			in := f.newInter(defaultSeed)
			c.NoErr(in.update(a), "int-update")
			c.NoErr(in.update(b), "int-update")
			x, err := in.result(true)
			c.NoErr(err, "int-result")
			c.State(checkTup(c, f, "intersection", x, tupInter(f, []tv{ra, rb}), true).fp())
			x, err = f.aNotB(a, b, defaultSeed, form > 0)
			c.NoErr(err, "anotb")
			checkTup(c, f, "difference", x, pickSums(f, refANotB(ra.tref, rb.tref), []tv{ra}, true), form > 0)
			c.Steps(4)
		},
	}
}

// c08Large: full arrays of ordinary and large precision.
func c08Large(lgKs []int) engine.Scenario {
	return engine.Scenario{
		Name: "hll-large", ShardDepth: 2,
		Bound: fmt.Sprintf("lgK in %v: integers 1..12*k; every register raised through the values 1..6 with one in 16 far above (exception tables grow and shrink), in address order or scattered; registers, types and estimates of the three forms against the reference at the promotion, and every k/2 updates", lgKs),
		Run: func(c *C) {
			lgK := pickInt(c, "lgK", lgKs...)
			pat := c.Choose(3, "pattern")
			t := newTrio(c, lgK)
			t.r.big = true
			k := 1 << lgK
			n, every := 0, max(k/2, 1<<12)
			step := func() {
				n++
				if n%every == 0 || n < k && n >= 1024 && n&(n-1) == 0 {
					t.check(c, false)
				}
			}
			if pat == 0 {
				for i := 1; i <= 12*k; i++ {
					for _, s := range t.s {
						c.NoErr(s.UpdateInt64(int64(i)), "update")
					}
					c.Step()
					t.r.add(hllCoupon(le64(uint64(i))))
					step()
				}
			} else {
				for v := 1; v <= 6; v++ {
					for i := 0; i < k; i++ {
						a := i
						if pat == 2 {
							a = int(uint32(i)*40503+uint32(v)*77) & (k - 1)
						}
						val := v
						if a%16 == v {
							val = v + 14 + a%3
						}
						t.add(c, coup{uint32(a), uint8(val)})
						step()
					}
				}
			}
			t.check(c, false)
			for i, s := range t.s {
				g := himageC(c, s, hllTypeNames[i])
				if err := g.matches(t.r); err != nil {
					c.Fail("image-forms", "%s lgK=%d compact: %v", hllTypeNames[i], lgK, err)
				}
			}
		},
	}
}
