package props

import (
	"errors"
	"fmt"

	"github.com/apache/datasketches-go/theta"
	"github.com/apache/datasketches-go/tuple"

	"verifmc/engine"
)

// boundsTarget is anything with bounds.
type boundsTarget struct {
	name string
	b    func(sd uint8) (lb, est, ub float64, err error)
	sub  func(sd uint8, n uint32) (lb, ub float64, err error) // nil if there is none
}

func thetaTarget(name string, s theta.Sketch) boundsTarget {
	return boundsTarget{name, func(sd uint8) (float64, float64, float64, error) {
		l, e1 := s.LowerBound(sd)
		u, e2 := s.UpperBound(sd)
		return l, s.Estimate(), u, errors.Join(e1, e2)
	}, nil}
}

func tupTarget(name string, s topd) boundsTarget { return boundsTarget{name, s.bounds, s.subset} }

// checkBounds checks the ordering, nesting and exactness of one target. n is the retained count.
func checkBounds(c *C, t boundsTarget, n int, sampled bool) [3][2]float64 {
	var r [3][2]float64
	for sd := uint8(1); sd <= 3; sd++ {
		c.Step()
		l, e, u, err := t.b(sd)
		c.Assert(err == nil, "bounds-error", "%s n=%d: bounds failed: %v", t.name, n, err)
		if !(l <= e && e <= u) {
			c.Fail("bounds-order", "%s n=%d sd=%d: lower %v estimate %v upper %v", t.name, n, sd, l, e, u)
		}
		c.Assert(l >= float64(n), "bounds-lb", "%s sd=%d: lower bound %v below the %d retained", t.name, sd, l, n)
		if !sampled {
			c.Assert(l == e && u == e && e == float64(n), "bounds-exact", "%s n=%d sd=%d: exact sketch but %v/%v/%v", t.name, n, sd, l, e, u)
		}
		if sd > 1 {
			if l > r[sd-2][0] || u < r[sd-2][1] {
				c.Fail("bounds-nested", "%s n=%d: [%v,%v] at %d std devs does not enclose %v", t.name, n, l, u, sd, r[sd-2])
			}
		}
		r[sd-1] = [2]float64{l, u}
	}
	for _, sd := range []uint8{0, 4, 255} {
		_, _, _, err := t.b(sd)
		c.Assert(err != nil || !sampled, "bounds-sd", "%s n=%d: %d standard deviations accepted while sampling", t.name, n, sd)
	}
	return r
}

func checkSubset(c *C, t boundsTarget, n int, th uint64, empty bool) {
	if t.sub == nil {
		return
	}
	frac := float64(th) / float64(maxTheta)
	sampled := th < maxTheta && !empty
	for _, m := range subsetSizes(n) {
		var pl, pu float64
		for sd := uint8(1); sd <= 3; sd++ {
			l, u, err := t.sub(sd, uint32(m))
			c.Assert(err == nil, "bounds-error", "%s subset %d of %d: %v", t.name, m, n, err)
			k := min(m, n)
			e := float64(k) / frac
			if l > e*(1+1e-12) || u < e*(1-1e-12) || l < float64(k) {
				c.Fail("bounds-order", "%s subset %d of %d sd=%d theta %v: lower %v estimate %v upper %v", t.name, m, n, sd, frac, l, e, u)
			}
			c.Assert(sampled || (l == float64(k) && u == float64(k)), "bounds-exact", "%s subset %d of %d: exact sketch but %v/%v", t.name, m, n, l, u)
			if sd > 1 && (l > pl || u < pu) {
				c.Fail("bounds-nested", "%s subset %d of %d theta %v: [%v,%v] at %d std devs does not enclose [%v,%v]", t.name, m, n, frac, l, u, sd, pl, pu)
			}
			pl, pu = l, u
			if k == n {
				l2, _, u2, err := t.b(sd)
				c.Assert(err == nil && l2 == l && u2 == u, "bounds-subset", "%s: the full subset has bounds %v/%v, the sketch %v/%v", t.name, l, u, l2, u2)
			}
		}
	}
}

func subsetSizes(n int) []int {
	r := []int{n, n + 1, n + 1000}
	for i := 0; i < n; i++ {
		if i < 3 || i%17 == 0 {
			r = append(r, i)
		}
	}
	return r
}

// thetaGrid lists thresholds: fixed fractions plus both sides of every branch point of the bounds code.
func thetaGrid(n int, fine int) []uint64 {
	m := float64(maxTheta)
	g := []uint64{maxTheta, maxTheta - 1, maxTheta - 1024, maxTheta - 4096, uint64(m * (1 - 1e-9)), uint64(m * (1 - 1.01e-5)), uint64(m * (1 - 0.99e-5)), uint64(m * 1e-3), uint64(m * 1e-6), uint64(m * 1e-9), 1 << 20, 1 << 12}
	for i := 1; i < fine; i++ {
		g = append(g, uint64(m*float64(i)/float64(fine)))
	}
	x := float64(n) / 360
	for _, d := range []float64{-1e-3, -1e-12, 0, 1e-12, 1e-3} {
		if x+d > 0 && x+d < 1 {
			g = append(g, uint64(m*(x+d)))
		}
	}
	for _, lim := range []float64{500} { // est = n/theta at the limit of the exact calculators
		if y := float64(n) / lim; y > 0 && y < 1 {
			g = append(g, uint64(m*y)+1)
		}
	}
	return g
}

func c04Grid(maxN int, big []int, fine int) engine.Scenario {
	return engine.Scenario{
		Name: "bounds-grid", ShardDepth: 1,
		Bound: fmt.Sprintf("retained counts 0..%d and %v x %d+ thresholds (a uniform grid, tiny and near-one values, both sides of every branch point) x 1..3 standard deviations, for a decoded and a wrapped theta sketch, a general tuple and an array-of-numbers sketch; bounds of all agree; subset bounds", maxN, big, fine),
		Run: func(c *C) {
			n := c.Choose(maxN+1+len(big), "n")
			if n > maxN {
				n = big[n-maxN-1]
			}
			for _, th := range thetaGrid(n, fine) {
				if uint64(n)+1 >= th {
					continue
				}
				r := tref{theta: th, empty: n == 0 && th == maxTheta}
				for i := 0; i < n; i++ {
					r.h = append(r.h, uint64(i+1))
				}
				img := craftTheta(r, true, defaultSeed)
				d, err := theta.Decode(img, defaultSeed)
				c.NoErr(err, "decode")
				w, err := theta.WrapCompactSketch(img, defaultSeed)
				c.NoErr(err, "wrap")
				g, err := tuple.NewCompactSketchFromThetaSketch[*logSum](d, &logSum{}, true)
				c.NoErr(err, "from-theta")
				a := craftTuple(c, famI64, r, true, 1)
				name := func(s string) string { return fmt.Sprintf("%s theta=%v", s, float64(th)/float64(maxTheta)) }
				ts := []boundsTarget{thetaTarget(name("decoded"), d), thetaTarget(name("wrapped"), w), tupTarget(name("tuple"), genSk[*logSum]{famPtr, g}), tupTarget(name("aon"), a)}
				var first [3][2]float64
				for i, t := range ts {
					b := checkBounds(c, t, n, th < maxTheta && !r.empty)
					if i == 0 {
						first = b
					} else if b != first {
						c.Fail("bounds-differ", "%s n=%d: bounds %v differ from the decoded theta sketch's %v", t.name, n, b, first)
					}
					if n <= 130 && i != 1 {
						checkSubset(c, t, n, th, r.empty)
					}
				}
				c.State(engine.HAny(first))
			}
		},
	}
}

// c04Streams: live sketches along streams.
func c04Streams(lgKs []int) engine.Scenario {
	return engine.Scenario{
		Name: "bounds-streams", ShardDepth: 3,
		Bound: fmt.Sprintf("lgK in %v, p in {1,0.5,0.01}: bounds of live theta, tuple, array-of-numbers sketches, their compact, filtered, wrapped, union, intersection and difference results after every update up to 4k keys", lgKs),
		Run: func(c *C) {
			lgK := pickInt(c, "lgK", lgKs...)
			p := float32(pickF(c, "p", 1, 0.5, 0.01))
			f := []tfam{famPtr, famF64}[c.Choose(2, "family")]
			th := newTheta(c, lgK, 2, p, defaultSeed)
			u := f.newUpd(c, lgK, 2, p, defaultSeed)
			un, err := theta.NewUnion(theta.WithUnionLgK(uint8(lgK)))
			c.NoErr(err, "new")
			for k := 0; k < 4<<lgK; k++ {
				_ = th.UpdateInt64(int64(k))
				_ = u.update(int64(k), k%7)
				sampled := th.IsEstimationMode()
				n := int(th.NumRetained())
				a := checkBounds(c, thetaTarget("update", th), n, sampled)
				b := checkBounds(c, tupTarget("tuple update", u), n, sampled)
				c.Assert(a == b, "bounds-differ", "theta %v tuple %v", a, b)
				if k%11 == 0 {
					d := checkBounds(c, thetaTarget("compact", th.Compact(k%2 == 0)), n, sampled)
					c.Assert(a == d, "bounds-differ", "theta %v compact %v", a, d)
					d = checkBounds(c, tupTarget("tuple compact", u.compact(c, k%2 == 0)), n, sampled)
					c.Assert(a == d, "bounds-differ", "theta %v tuple compact %v", a, d)
					c.NoErr(un.Update(th), "union")
					r, err := un.Result(true)
					c.NoErr(err, "union")
					checkBounds(c, thetaTarget("union", r), int(r.NumRetained()), r.IsEstimationMode())
					if s := f.filter(c, u, func(t tsum) bool { return t[0]%2 == 0 }); s != nil {
						v := s.view(c, "filtered")
						checkBounds(c, tupTarget("filtered", s), len(v.h), v.theta < maxTheta && !v.empty)
					}
				}
				if k%61 == 0 {
					checkSubset(c, thetaTarget("update", th), n, th.Theta64(), th.IsEmpty())
					checkSubset(c, tupTarget("tuple update", u), n, th.Theta64(), th.IsEmpty())
				}
				c.State(engine.HAny(a))
			}
		},
	}
}

type jres struct{ lb, est, ub float64 }

func checkJaccard(c *C, what string, ra, rb tref, get func(swap bool) (jres, error), equal func(swap bool) (bool, error), sim, dis func(thr float64) (bool, error)) {
	c.Steps(6)
	j, err := get(false)
	c.NoErr(err, "jaccard-error")
	j2, err := get(true)
	c.NoErr(err, "jaccard-error")
	c.Assert(j == j2, "jaccard-symmetric", "%s: %v one way, %v the other", what, j, j2)
	if !(0 <= j.lb && j.lb <= j.est && j.est <= j.ub && j.ub <= 1) {
		c.Fail("jaccard-order", "%s: %v is not 0 <= lower <= estimate <= upper <= 1", what, j)
	}
	t := min(ra.theta, rb.theta)
	uni := below(mergeSorted(ra.h, rb.h), t)
	inter := below(isect(ra.h, rb.h, true), t)
	same := ra.theta == rb.theta && ra.empty == rb.empty && eqU64(ra.h, rb.h)
	switch {
	case ra.empty && rb.empty, same:
		c.Assert(j == jres{1, 1, 1}, "jaccard-same", "%s: identical contents give %v", what, j)
	case ra.empty != rb.empty:
		c.Assert(j == jres{0, 0, 0}, "jaccard-empty", "%s: empty against non-empty gives %v", what, j)
	case len(uni) > 0:
		want := float64(len(inter)) / float64(len(uni))
		c.Assert(near(j.est, want, 1e-12), "jaccard-estimate", "%s: estimate %v, want %d/%d", what, j.est, len(inter), len(uni))
		if t == maxTheta {
			c.Assert(j.lb == j.est && j.ub == j.est, "jaccard-exact", "%s: exact inputs but %v", what, j)
		}
	}
	e1, err := equal(false)
	c.NoErr(err, "jaccard-error")
	e2, err := equal(true)
	c.NoErr(err, "jaccard-error")
	c.Assert(e1 == e2 && e1 == (same || (ra.empty && rb.empty)), "exactly-equal", "%s: IsExactlyEqual %v/%v but same contents = %v", what, e1, e2, same)
	for _, thr := range []float64{0, j.lb, j.est, j.ub, 0.5, 1} {
		s, err := sim(thr)
		c.NoErr(err, "jaccard-error")
		d, err := dis(thr)
		c.NoErr(err, "jaccard-error")
		c.Assert(s == (j.lb >= thr) && d == (j.ub <= thr), "similar", "%s: %v at threshold %v: similar %v dissimilar %v", what, j, thr, s, d)
	}
	c.State(engine.HAny(j))
}

func thetaJ(j theta.JaccardSimilarityResult, err error) (jres, error) {
	return jres{j.LowerBound, j.Estimate, j.UpperBound}, err
}

func swapIf[T any](sw bool, a, b T) (T, T) {
	if sw {
		return b, a
	}
	return a, b
}

func jaccardTheta(c *C, what string, a, b theta.Sketch) {
	ra, rb := observe(c, a, "A"), observe(c, b, "B")
	checkJaccard(c, what, ra, rb, func(sw bool) (jres, error) {
		x, y := swapIf(sw, a, b)
		return thetaJ(theta.Jaccard(x, y, defaultSeed))
	}, func(sw bool) (bool, error) {
		x, y := swapIf(sw, a, b)
		return theta.IsExactlyEqual(x, y, defaultSeed)
	}, func(t float64) (bool, error) { return theta.IsSimilar(a, b, t, defaultSeed) },
		func(t float64) (bool, error) { return theta.IsDissimilar(a, b, t, defaultSeed) })
	c.Assert(observe(c, a, "A").eq(ra) && observe(c, b, "B").eq(rb), "input-changed", "%s: Jaccard changed an input", what)
}

func jaccardTuple[S tuple.Summary](c *C, what string, a, b tuple.Sketch[S], va, vb func() tv, pol tuple.Policy[S]) {
	ra, rb := va(), vb()
	checkJaccard(c, what, ra.tref, rb.tref, func(sw bool) (jres, error) {
		x, y := swapIf(sw, a, b)
		j, err := tuple.Jaccard[S](x, y, pol, defaultSeed)
		return jres{j.LowerBound, j.Estimate, j.UpperBound}, err
	}, func(sw bool) (bool, error) {
		x, y := swapIf(sw, a, b)
		return tuple.IsExactlyEqual[S](x, y, pol, defaultSeed)
	}, func(t float64) (bool, error) { return tuple.IsSimilar[S](a, b, pol, t, defaultSeed) },
		func(t float64) (bool, error) { return tuple.IsDissimilar[S](a, b, pol, t, defaultSeed) })
	c.Assert(va().same(ra) && vb().same(rb), "input-changed", "%s: Jaccard changed an input", what)
}

func c04Jaccard(forms []int) engine.Scenario {
	return engine.Scenario{
		Name: "jaccard-pairs", ShardDepth: 3,
		Bound: fmt.Sprintf("every ordered pair of %d contents x forms, theta, tuple and array-of-numbers: Jaccard order, symmetry, exact ratio, equality and similarity tests, inputs unchanged", len(thetaSpecs)),
		Run: func(c *C) {
			sa, sb := thetaSpecs[c.Choose(len(thetaSpecs), "A")], thetaSpecs[c.Choose(len(thetaSpecs), "B")]
			fa, fb := forms[c.Choose(len(forms), "formA")], forms[c.Choose(len(forms), "formB")]
			jaccardTheta(c, "theta "+sa.name+" "+sb.name, thetaForm(c, sa.build(c, defaultSeed), fa, defaultSeed), thetaForm(c, sb.build(c, defaultSeed), fb, defaultSeed))
			x := tupForm(c, famPtr, buildTuple(c, famPtr, sa, 1, defaultSeed), fa%nTupForms, defaultSeed)
			y := tupForm(c, famPtr, buildTuple(c, famPtr, sb, 2, defaultSeed), fb%nTupForms, defaultSeed)
			jaccardTuple[*logSum](c, "tuple "+sa.name+" "+sb.name, genOf[*logSum](x), genOf[*logSum](y), func() tv { return x.view(c, "A") }, func() tv { return y.view(c, "B") }, logPolicy{})
			p := tupForm(c, famF64, buildTuple(c, famF64, sa, 1, defaultSeed), fa%nTupForms, defaultSeed)
			q := tupForm(c, famF64, buildTuple(c, famF64, sb, 2, defaultSeed), fb%nTupForms, defaultSeed)
			jaccardTuple[*tuple.ArrayOfNumbersSummary[float64]](c, "aon "+sa.name+" "+sb.name, aonOf[float64](p), aonOf[float64](q), func() tv { return p.view(c, "A") }, func() tv { return q.view(c, "B") }, aonPolicy[float64]{})
			// the very same object
			z := thetaForm(c, sa.build(c, defaultSeed), fa, defaultSeed)
			jaccardTheta(c, "the same theta sketch "+sa.name, z, z)
			jaccardTuple[*logSum](c, "the same tuple sketch "+sa.name, genOf[*logSum](x), genOf[*logSum](x), func() tv { return x.view(c, "A") }, func() tv { return x.view(c, "A") }, logPolicy{})
			jaccardTuple[*tuple.ArrayOfNumbersSummary[float64]](c, "the same numbers sketch "+sa.name, aonOf[float64](p), aonOf[float64](p), func() tv { return p.view(c, "A") }, func() tv { return p.view(c, "A") }, aonPolicy[float64]{})
		},
	}
}

func c04JaccardSizes(maxN, maxM int) engine.Scenario {
	return engine.Scenario{
		Name: "jaccard-sizes", ShardDepth: 2,
		Bound: fmt.Sprintf("crafted sketches of n entries in A only, m in B only, x in both for all n,m <= %d, x <= %d and thresholds {1, 0.9, 0.4, 1e-4} each: exact ratio, order, symmetry", maxN, maxM),
		Run: func(c *C) {
			n, m, x := c.Choose(maxN+1, "n"), c.Choose(maxN+1, "m"), c.Choose(maxM+1, "x")
			q := maxTheta / 10000
			ths := []uint64{maxTheta, q * 9000, q * 4000, q}
			for i, ta := range ths {
				for j, tb := range ths {
					mk := func(th uint64, lo, cnt int) theta.Sketch {
						r := tref{theta: th}
						for k := 0; k < x; k++ {
							r.h = append(r.h, uint64(3*k+5)*(q/50)/16)
						}
						for k := 0; k < cnt; k++ {
							r.h = append(r.h, uint64(lo+2*k)*(q/50))
						}
						r.h = below(sorted(r.h), th)
						r.empty = len(r.h) == 0 && th == maxTheta
						s, err := theta.Decode(craftTheta(r, (i+j)%2 == 0, defaultSeed), defaultSeed)
						c.NoErr(err, "decode")
						return s
					}
					a, b := mk(ta, 1000, n), mk(tb, 1001, m)
					jaccardTheta(c, fmt.Sprintf("n=%d m=%d x=%d thetas %d,%d", n, m, x, i, j), a, b)
					if (n+m+x)%3 == 0 {
						x, e1 := tuple.NewCompactSketchFromThetaSketch[*logSum](a, &logSum{1}, false)
						y, e2 := tuple.NewCompactSketchFromThetaSketch[*logSum](b, &logSum{2}, false)
						c.NoErr(errors.Join(e1, e2), "from-theta")
						jaccardTuple[*logSum](c, "tuple", x, y, func() tv { return genSk[*logSum]{famPtr, x}.view(c, "A") }, func() tv { return genSk[*logSum]{famPtr, y}.view(c, "B") }, logPolicy{})
					}
				}
			}
		},
	}
}

func init() {
	engine.Register(engine.Property{ID: "C04", Assumptions: []string{
		"thresholds below 2^12/2^63 are not explored"},
		Scenarios: func(tier string) []engine.Scenario {
			if tier == "thorough" {
				return []engine.Scenario{c04Jaccard([]int{0, 1, 2, 3, 4, 5, 6}), c04JaccardSizes(16, 12), c04Streams([]int{5, 6, 7, 8}), c04Grid(400, []int{500, 1000, 4096, 10000, 65536}, 2000)}
			}
			return []engine.Scenario{c04Jaccard([]int{0, 1, 2, 4}), c04JaccardSizes(8, 6), c04Streams([]int{5, 6}), c04Grid(130, []int{200, 1000, 4096}, 100)}
		}})
}
