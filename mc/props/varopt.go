package props

import (
	"bytes"
	"fmt"
	"math"

	"github.com/apache/datasketches-go/common"
	"github.com/apache/datasketches-go/sampling"
	"verifmc/engine"
)

// C26 (VarOpt sampling).

type voSk = sampling.VarOptItemsSketch[int64]
type voUn = sampling.VarOptItemsUnion[int64]

var voSerde = common.ItemSketchLongSerDe{}

func voNew(c *C, k int, rf sampling.ResizeFactor) *voSk {
	s, err := sampling.NewVarOptItemsSketch[int64](uint(k), sampling.WithResizeFactor(rf))
	c.NoErr(err, "new")
	return s
}

func voBytes(c *C, s *voSk) []byte {
	var b bytes.Buffer
	e := sampling.NewVarOptItemsSketchEncoder[int64](&b, voSerde)
	c.NoErr(e.Encode(s), "encode")
	return b.Bytes()
}

type voSample = sampling.Sample[int64]

func voSamples(s *voSk) []voSample {
	var r []voSample
	for x := range s.All() {
		r = append(r, x)
	}
	return r
}

// voCheck checks the invariants of a sketch that was given items with these true weights.
// The k expected may be 0 (any).  It returns the reported weights by item.
func voCheck(c *C, s *voSk, k int, w []float64) map[int64]float64 {
	n := len(w)
	if k == 0 {
		k = s.K()
	}
	xs := voSamples(s)
	c.Assert(s.K() == k && s.N() == int64(n), "count", "K=%d N=%d, want %d %d", s.K(), s.N(), k, n)
	c.Assert(len(xs) == min(n, k) && s.NumSamples() == len(xs), "samples", "%d samples (NumSamples %d) of %d items, capacity %d", len(xs), s.NumSamples(), n, k)
	c.Assert(s.H()+s.R() == len(xs) && s.IsEmpty() == (n == 0), "regions", "H=%d R=%d for %d samples", s.H(), s.R(), len(xs))
	c.Assert((s.R() > 0) == (n > k), "regions", "R=%d after %d items, capacity %d", s.R(), n, k)
	total, sum, tau := 0.0, 0.0, 0.0
	for _, x := range w {
		total += x
	}
	if s.R() > 0 {
		tau = xs[len(xs)-1].Weight
	}
	m := make(map[int64]float64, len(xs))
	for i, x := range xs {
		sum += x.Weight
		c.Assert(x.Item >= 0 && x.Item < int64(n), "foreign", "sample %d was not in the stream", x.Item)
		_, dup := m[x.Item]
		c.Assert(!dup, "duplicate", "item %d is sampled twice", x.Item)
		m[x.Item] = x.Weight
		t := w[x.Item]
		if i < s.H() {
			c.Assert(x.Weight == t, "heavy-weight", "item %d of weight %v is reported as %v", x.Item, t, x.Weight)
			c.Assert(x.Weight >= tau*(1-1e-9), "heavy-light", "heavy item %d of weight %v is lighter than the light items' %v", x.Item, t, tau)
		} else {
			c.Assert(x.Weight == tau, "light-weight", "light items with different weights %v and %v", x.Weight, tau)
			c.Assert(x.Weight >= t*(1-1e-9), "below-true", "item %d of weight %v is reported as only %v", x.Item, t, x.Weight)
		}
	}
	c.Assert(near(sum, total, 1e-9), "weight-sum", "reported weights sum to %v, the stream's to %v", sum, total)
	for i, t := range w {
		if t > tau*(1+1e-9) {
			v, ok := m[int64(i)]
			c.Assert(ok && v == t, "heavy-lost", "item %d of weight %v, heavier than %v, is not kept with its weight (reported %v)", i, t, tau, v)
		}
	}
	voSubsets(c, s, xs, w, total)
	return m
}

func voSubsets(c *C, s *voSk, xs []voSample, w []float64, total float64) {
	preds := []func(int64) bool{func(int64) bool { return true }, func(int64) bool { return false }, func(v int64) bool { return v%2 == 0 }, func(v int64) bool { return v < 2 }, func(v int64) bool { return v%3 == 1 }}
	for i, p := range preds {
		r, err := s.EstimateSubsetSum(p)
		c.NoErr(err, "subset-sum")
		want, hsum, exact := 0.0, 0.0, 0.0
		for j, x := range xs {
			if p(x.Item) {
				want += x.Weight
				if j < s.H() {
					hsum += x.Weight
				}
			}
		}
		for j := range w {
			if p(int64(j)) {
				exact += w[j]
			}
		}
		c.Assert(near(r.Estimate, want, 1e-9) || math.Abs(r.Estimate-want) <= 1e-12*total, "subset-estimate", "predicate %d: estimate %v, reported weights sum to %v", i, r.Estimate, want)
		c.Assert(near(r.TotalSketchWeight, total, 1e-9), "subset-total", "predicate %d: total %v, want %v", i, r.TotalSketchWeight, total)
		e := 1e-9 * total
		c.Assert(r.LowerBound <= r.Estimate+e && r.Estimate <= r.UpperBound+e, "subset-bounds", "predicate %d: estimate %v outside [%v,%v]", i, r.Estimate, r.LowerBound, r.UpperBound)
		c.Assert(r.LowerBound >= hsum-e && r.UpperBound <= total+e, "subset-bounds", "predicate %d: bounds [%v,%v], exactly known part %v, total %v", i, r.LowerBound, r.UpperBound, hsum, total)
		if s.R() == 0 {
			c.Assert(near(r.LowerBound, exact, 1e-9) && near(r.UpperBound, exact, 1e-9), "subset-exact", "predicate %d: nothing was dropped, bounds [%v,%v] for %v", i, r.LowerBound, r.UpperBound, exact)
		}
	}
}

// voKey is what a sketch's future behaviour depends on, up to the names of the items.
func voKey(c *C, s *voSk, w []float64) uint64 {
	h := mix(uint64(s.K()), uint64(s.H()), uint64(s.R()), uint64(s.N()))
	mx := 0.0
	for i, x := range voSamples(s) {
		if i < s.H() {
			h = mix(h, math.Float64bits(x.Weight))
		} else {
			h = mix(h, math.Float64bits(x.Weight), 7)
			mx = math.Max(mx, w[x.Item])
		}
	}
	for _, t := range w {
		mx = math.Max(mx, t)
	}
	tot := 0.0
	for _, t := range w {
		tot += t
	}
	return mix(h, math.Float64bits(mx), math.Float64bits(tot))
}

// voTree explores every stream over an alphabet of weights and every random outcome, one step at a
// time: each update is checked to be unbiased given the state before it.
func voTree(name string, ks []int, alpha []float64, depth int) engine.Scenario {
	return engine.Scenario{
		Name:       name,
		Bound:      fmt.Sprintf("all streams of up to %d items with weights %v, all random outcomes", depth, alpha),
		ShardDepth: 3,
		Run: func(c *C) {
			k := pickInt(c, "k", ks...)
			var path []uint64
			var w []float64
			old := map[int64]float64{}
			for d := 0; d < depth; d++ {
				x := alpha[c.Choose(len(alpha), "weight")]
				w = append(w, x)
				c.Logf("update item %d weight %v", d, x)
				var last *voSk
				body := func() string {
					s := voNew(c, k, sampling.ResizeX8)
					for i, t := range w {
						c.NoErr(s.Update(int64(i), t), "update")
					}
					last = s
					return fmt.Sprint(voSamples(s), s.H())
				}
				t := &probTree{c: c}
				next := newProbStates()
				exp := map[int64]float64{}
				reach := map[string]uint64{}
				tau, tot := 0.0, 0.0
				t.dist(path, 1, body, func(o probOutcome) {
					m := voCheck(c, last, k, w)
					for it, v := range m {
						exp[it] += o.p * v
						if last.R() > 0 {
							tau = math.Max(tau, v)
						}
					}
					tot += o.p
					next.add(o)
					reach[o.sig] = voKey(c, last, w)
					c.Step()
				})
				c.Assert(math.Abs(tot-1) < 1e-8, "total-probability", "probabilities sum to %v", tot)
				old[int64(d)] = x
				for it := int64(0); it <= int64(d); it++ {
					o, ok := old[it]
					if !ok {
						c.Assert(exp[it] == 0, "resurrected", "item %d was dropped and came back", it)
						continue
					}
					c.Assert(math.Abs(exp[it]-o) <= 1e-8*o+1e-8*tau, "bias", "k=%d weights %v: item %d had reported weight %v before the last update and has %v on average after it", k, w, it, o, exp[it])
				}
				all := next.all()
				var reps []*probOutcome // one outcome for each key
				seen := map[uint64]bool{}
				for _, o := range all {
					if !seen[reach[o.sig]] {
						seen[reach[o.sig]] = true
						reps = append(reps, o)
					}
				}
				pick := reps[c.Choose(len(reps), "outcome")]
				path = pick.path
				t.one(path, body)
				if c.Tracing() {
					c.Logf("  -> %v (H=%d)", voSamples(last), last.H())
				}
				old = voCheck(c, last, k, w)
				c.State(reach[pick.sig])
				c.PruneIfSeen(mix(reach[pick.sig], uint64(d)))
			}
			c.Outcome(u64s(path))
		},
	}
}

var voStreams = []struct {
	name string
	f    func(i int) float64
}{
	{"1", func(i int) float64 { return 1 }},
	{"0.1", func(i int) float64 { return 0.1 }},
	{"(i+1)/10", func(i int) float64 { return float64(i+1) * 0.1 }},
	{"(i%7+1)/10", func(i int) float64 { return float64(i%7+1) * 0.1 }},
	{"1/(i+1)", func(i int) float64 { return 1 / float64(i+1) }},
	{"1.3^(i%200)", func(i int) float64 { return math.Pow(1.3, float64(i%200)) }},
	{"1.3^-(i%200)", func(i int) float64 { return math.Pow(1.3, -float64(i%200)) }},
	{"1e12 every 5th, else 0.3", func(i int) float64 {
		if i%5 == 4 {
			return 1e12
		}
		return 0.3
	}},
	{"1e-300", func(i int) float64 { return 1e-300 }},
	{"hashed", func(i int) float64 { return float64(mix(uint64(i), 5)%1000+1) / 30 }},
	{"hashed heavy tail", func(i int) float64 { return math.Exp(float64(mix(uint64(i), 9)%3000) / 100) }},
	{"1/3 then 2/3", func(i int) float64 { return float64(1+i%2) / 3 }},
}

func voLong(ks, ns []int, dev int) engine.Scenario {
	return engine.Scenario{
		Name:       "long",
		Bound:      fmt.Sprintf("long streams of %d weight patterns, all resize factors, fixed random policies with up to %d deviations", len(voStreams), dev),
		ShardDepth: 4,
		Run: func(c *C) {
			k, n := pickInt(c, "k", ks...), pickInt(c, "n", ns...)
			g := voStreams[c.Choose(len(voStreams), "weights")]
			rf := sampling.ResizeFactor(c.Choose(4, "resize factor"))
			pol := c.Choose(engine.NumPolicies, "policy")
			c.Logf("weights %s rf=%d policy=%d", g.name, rf, pol)
			c.RandPolicy(pol, dev)
			s := voNew(c, k, rf)
			voCheck(c, s, k, nil)
			var w []float64
			every := max(1, n/9)
			for i := 0; i < n; i++ {
				w = append(w, g.f(i))
				c.NoErr(s.Update(int64(i), w[i]), "update")
				c.Step()
				if i%every == every-1 || i == k || i == k-1 {
					voCheck(c, s, k, w)
				}
			}
			voCheck(c, s, k, w)
			before := voBytes(c, s)
			for _, bad := range []float64{0, -1, math.NaN(), math.Inf(1), math.Inf(-1)} {
				c.Assert(s.Update(-7, bad) != nil, "bad-weight", "weight %v accepted", bad)
				c.Assert(eqBytes(voBytes(c, s), before), "bad-weight", "refused weight %v changed the sketch", bad)
			}
			s.Reset()
			voCheck(c, s, k, nil)
			for i := 0; i < min(n, 2*k); i++ {
				c.NoErr(s.Update(int64(i), w[i]), "update")
			}
			voCheck(c, s, k, w[:min(n, 2*k)])
			c.Outcome(mix(uint64(k), uint64(n)))
		},
	}
}

func voMisc() engine.Scenario {
	return engine.Scenario{
		Name:  "limits",
		Bound: "capacities around the limits, refused weights in every mode, strings",
		Run: func(c *C) {
			for _, k := range []uint{0, 1<<31 - 1, 1 << 31, 1 << 40} {
				_, err := sampling.NewVarOptItemsSketch[int64](k)
				c.Assert(err != nil, "k", "capacity %d accepted", k)
			}
			k := pickInt(c, "k", 1, 2, 3, 17)
			n := pickInt(c, "n", 0, 1, 2, 3, 4, 17, 18, 30)
			c.RandPolicy(0, 0)
			s := voNew(c, k, sampling.ResizeX8)
			var w []float64
			for i := 0; i < n; i++ {
				w = append(w, float64(1+i%3))
				c.NoErr(s.Update(int64(i), w[i]), "update")
			}
			voCheck(c, s, k, w)
			before := voBytes(c, s)
			for _, bad := range []float64{0, math.Copysign(0, -1), -1e-300, math.NaN(), math.Inf(1), math.Inf(-1)} {
				c.Assert(s.Update(-7, bad) != nil, "bad-weight", "weight %v accepted", bad)
				c.Assert(eqBytes(voBytes(c, s), before), "bad-weight", "refused weight %v changed the sketch", bad)
			}
			voCheck(c, s, k, w)
			c.Checked()
		},
	}
}

func init() {
	engine.Register(engine.Property{
		ID: "C26",
		Assumptions: []string{
			"the sources of randomness are the top-level functions of math/rand, whose outcomes are uniform",
			"probabilities are exact up to the location of cuts of the unit interval (2^-35); sums of weights are compared with relative tolerance 1e-9",
			"the total weight of a stream is finite",
		},
		Scenarios: func(tier string) []engine.Scenario {
			ks, ns := []int{1, 2, 3, 16, 17, 100}, []int{1, 17, 60, 400}
			dev := 0
			if tier == "thorough" {
				ks, ns, dev = append(ks, 5, 8, 33, 64, 300), append(ns, 33, 101, 1500), 1
				return []engine.Scenario{
					voTree("tree", []int{1, 2, 3, 4, 5}, []float64{1, 2, 5}, 10),
					voTree("tree-heavy", []int{1, 2, 3, 4, 5}, []float64{1, 1000, 1e6}, 11),
					voTree("tree-thirds", []int{1, 2, 3, 4, 5}, []float64{0.1, 0.3, 0.7}, 10),
					voTree("tree-wide", []int{1, 2, 3, 4}, []float64{1, 1.5, 2, 3, 40}, 9),
					voLong(ks, ns, dev),
					voMisc(),
				}
			}
			return []engine.Scenario{
				voTree("tree", []int{1, 2, 3, 4}, []float64{1, 2, 5}, 8),
				voTree("tree-heavy", []int{1, 2, 3, 4, 5}, []float64{1, 1000, 1e6}, 9),
				voTree("tree-thirds", []int{2, 3, 4}, []float64{0.1, 0.3, 0.7}, 8),
				voLong(ks, ns, dev),
				voMisc(),
			}
		},
	})
}
