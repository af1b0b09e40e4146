package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"

	"github.com/apache/datasketches-go/sampling"
	"verifmc/engine"
)

// C27 (VarOpt union).

// voIn describes one input of a union: a VarOpt sketch in a given state, or a reservoir.
type voIn struct {
	k   int
	h   []float64 // weights of heavy items (all items while nothing was dropped)
	r   int
	tot float64 // weight of the r light items
	n   int64
	res bool // a reservoir of capacity k that has seen n items
}

func (x voIn) String() string {
	if x.res {
		return fmt.Sprintf("{reservoir k=%d n=%d}", x.k, x.n)
	}
	return fmt.Sprintf("{k=%d heavy=%v light=%dx%v n=%d}", x.k, x.h, x.r, x.tot/math.Max(1, float64(x.r)), x.n)
}

// weights are the reported weights of the input's samples.
func (x voIn) weights() []float64 {
	var w []float64
	if x.res {
		m := min(int64(x.k), x.n)
		for i := int64(0); i < m; i++ {
			w = append(w, float64(x.n)/float64(m))
		}
		return w
	}
	w = append(w, x.h...)
	for i := 0; i < x.r; i++ {
		w = append(w, x.tot/float64(x.r))
	}
	return w
}

func (x voIn) total() float64 {
	t := 0.0
	for _, v := range x.weights() {
		t += v
	}
	return t
}

func (x voIn) tau() float64 {
	if x.res && x.n > int64(x.k) {
		return float64(x.n) / float64(x.k)
	}
	if !x.res && x.r > 0 {
		return x.tot / float64(x.r)
	}
	return 0
}

// voMake builds the described sketch: by updates while nothing was dropped, else from its image.
func voMake(c *C, x voIn, base int64) *voSk {
	s := voNew(c, x.k, sampling.ResizeX8)
	if x.r == 0 {
		for i, w := range x.h {
			c.NoErr(s.Update(base+int64(i), w), "update")
		}
		return s
	}
	tmpl := voNew(c, 2, sampling.ResizeX8)
	c.NoErr(tmpl.Update(1, 1), "update")
	t := voBytes(c, tmpl)
	b := make([]byte, 32)
	b[0], b[1], b[2], b[3] = 4|3<<6, t[1], t[2], 0
	binary.LittleEndian.PutUint32(b[4:], uint32(x.k))
	binary.LittleEndian.PutUint64(b[8:], uint64(x.n))
	binary.LittleEndian.PutUint32(b[16:], uint32(len(x.h)))
	binary.LittleEndian.PutUint32(b[20:], uint32(x.r))
	binary.LittleEndian.PutUint64(b[24:], math.Float64bits(x.tot))
	for _, w := range x.h { // a sorted list is a heap
		b = binary.LittleEndian.AppendUint64(b, math.Float64bits(w))
	}
	for i := 0; i < len(x.h)+x.r; i++ {
		b = binary.LittleEndian.AppendUint64(b, uint64(base+int64(i)))
	}
	s, err := sampling.DecodeVarOptItemsSketch[int64](b, voSerde)
	c.NoErr(err, "decode")
	return s
}

func voUnBytes(c *C, u *voUn) string {
	var b bytes.Buffer
	e := sampling.NewVarOptItemsUnionEncoder[int64](&b, voSerde)
	c.NoErr(e.Encode(u), "encode-union")
	return b.String()
}

func voUnNew(c *C, maxK int) *voUn {
	u, err := sampling.NewVarOptItemsUnion[int64](uint(maxK))
	c.NoErr(err, "new-union")
	return u
}

// voFeed gives an input to the union, which must leave it alone.
func voFeed(c *C, u *voUn, x voIn, base int64) {
	if x.res {
		s := rsMake(c, x.k, x.n, base)
		cp := rsMake(c, x.k, x.n, base)
		c.NoErr(u.UpdateReservoirItemsSketch(s), "union-update-reservoir")
		c.Assert(rsSame(s, cp), "source", "the union changed its input %v", x)
		return
	}
	s := voMake(c, x, base)
	before := voBytes(c, s)
	c.NoErr(u.Update(s), "union-update")
	c.Assert(eqBytes(before, voBytes(c, s)), "source", "the union changed its input %v", x)
}

func voSampleStr(s *voSk) string { return fmt.Sprint(s.K(), s.N(), s.H(), voSamples(s)) }

// voResult checks one result of a union that was given these inputs.
func voResult(c *C, s *voSk, maxK int, ins []voIn) map[int64]float64 {
	var n int64
	total, tauIn, cnt := 0.0, 0.0, 0
	for _, x := range ins {
		n += x.n
		total += x.total()
		tauIn = math.Max(tauIn, x.tau())
		cnt += len(x.weights())
	}
	xs := voSamples(s)
	c.Assert(s.N() == n, "count", "N=%d, want %d", s.N(), n)
	c.Assert(s.K() >= 1 && s.K() <= maxK && len(xs) <= s.K() && s.NumSamples() == len(xs) && s.H()+s.R() == len(xs), "capacity", "K=%d maxK=%d, %d samples, H=%d R=%d", s.K(), maxK, len(xs), s.H(), s.R())
	c.Assert(s.IsEmpty() == (n == 0) && (n == 0 || len(xs) > 0), "empty", "IsEmpty %v after %d items", s.IsEmpty(), n)
	tau := 0.0
	if s.R() > 0 {
		tau = xs[len(xs)-1].Weight
		c.Assert(len(xs) == s.K(), "full", "%d samples, capacity %d, although items were dropped", len(xs), s.K())
	} else {
		c.Assert(len(xs) == cnt && tauIn == 0, "exact", "R=0 with %d of %d input samples, largest input tau %v", len(xs), cnt, tauIn)
	}
	c.Assert(tau >= tauIn*(1-1e-9), "tau", "light items have weight %v, in an input %v", tau, tauIn)
	sum := 0.0
	m := map[int64]float64{}
	for i, x := range xs {
		j, p := int(x.Item/100)-1, int(x.Item%100)
		ok := j >= 0 && j < len(ins) && p < len(ins[j].weights())
		c.Assert(ok, "foreign", "sample %d was in no input", x.Item)
		_, dup := m[x.Item]
		c.Assert(!dup, "duplicate", "item %d is sampled twice", x.Item)
		m[x.Item] = x.Weight
		sum += x.Weight
		t := ins[j].weights()[p]
		if i < s.H() {
			c.Assert(x.Weight == t || near(x.Weight, t, 1e-9), "heavy-weight", "item %d of weight %v is reported as %v", x.Item, t, x.Weight)
			c.Assert(x.Weight >= tau*(1-1e-9), "heavy-light", "heavy item %d of weight %v is lighter than the light items' %v", x.Item, x.Weight, tau)
		} else {
			c.Assert(x.Weight == tau && tau >= t*(1-1e-9), "below-true", "item %d of weight %v is reported as only %v", x.Item, t, x.Weight)
		}
	}
	c.Assert(near(sum, total, 1e-9), "weight-sum", "reported weights sum to %v, the inputs' to %v", sum, total)
	for j, x := range ins {
		for p, t := range x.weights() {
			if t > tau*(1+1e-9) {
				v, ok := m[int64(j+1)*100+int64(p)]
				c.Assert(ok && near(v, t, 1e-9), "heavy-lost", "item %d of input %d with weight %v, heavier than %v, is not kept with its weight (reported %v)", p, j, t, tau, v)
			}
		}
	}
	if n > 0 {
		for _, k := range []int64{2, 1} {
			r, err := s.EstimateSubsetSum(func(v int64) bool { return v%2 == 0 || k == 1 })
			c.NoErr(err, "subset-sum")
			e := 1e-9 * total
			c.Assert(r.LowerBound <= r.Estimate+e && r.Estimate <= r.UpperBound+e && near(r.TotalSketchWeight, total, 1e-9), "subset-bounds", "%+v, total %v", r, total)
		}
	}
	return m
}

// voUsable: the result takes further items and can be serialized, and is nobody else's storage.
func voUsable(c *C, u *voUn, s *voSk) {
	ub := voUnBytes(c, u)
	b := voBytes(c, s)
	d, err := sampling.DecodeVarOptItemsSketch[int64](b, voSerde)
	c.NoErr(err, "result-decode")
	c.Assert(voSampleStr(d) == voSampleStr(s), "result-decoded", "decoded result %s, want %s", voSampleStr(d), voSampleStr(s))
	total := 0.0
	for _, x := range voSamples(s) {
		total += x.Weight
	}
	n := s.N()
	k := s.K()
	for i, w := range []float64{total/float64(k+1) + 1, total + 1, 0.001, 3 * (total + 1)} {
		c.NoErr(s.Update(int64(9000+i), w), "result-update")
		n++
		total += w
		sum := 0.0
		xs := voSamples(s)
		for _, x := range xs {
			sum += x.Weight
		}
		c.Assert(s.N() == n && s.K() == k && near(sum, total, 1e-9) && len(xs) <= k, "result-continued", "after updating the result: N=%d (want %d), weights sum to %v (want %v), %d samples of %d", s.N(), n, sum, total, len(xs), k)
	}
	_ = voBytes(c, s)
	c.Assert(voUnBytes(c, u) == ub, "result-aliased", "updating a result changed the union")
}

func voUnion(name string, maxKs []int, alpha []voIn, nIn int) engine.Scenario {
	return engine.Scenario{
		Name:       name,
		Bound:      fmt.Sprintf("all sequences of up to %d of %d inputs, all random outcomes", nIn, len(alpha)),
		ShardDepth: 3,
		Run: func(c *C) {
			maxK := pickInt(c, "maxK", maxKs...)
			var ins []voIn
			for i := 0; i < nIn; i++ {
				v := c.Choose(len(alpha)+1, "input")
				if v == len(alpha) {
					break
				}
				ins = append(ins, alpha[v])
			}
			c.Logf("inputs %v", ins)
			if len(ins) == 0 {
				u := voUnNew(c, maxK)
				c.NoErr(u.Update(nil), "nil")
				c.NoErr(u.UpdateReservoirItemsSketch(nil), "nil")
				s, err := u.Result()
				c.NoErr(err, "result")
				voResult(c, s, maxK, nil)
				c.Assert(s.K() == maxK, "capacity", "K=%d of an empty union", s.K())
				voUsable(c, u, s)
				return
			}
			t := &probTree{c: c, maxRuns: 2_000_000, conts: manyConts}
			states := []*probOutcome{{p: 1}}
			m := len(ins)
			for i := 0; i < m; i++ {
				next := newProbStates()
				var u *voUn
				t.snap = func() string { return deepSig(u) }
				body := func() string {
					u = voUnNew(c, maxK)
					for j := 0; j <= i; j++ {
						voFeed(c, u, ins[j], int64(j+1)*100)
					}
					return voUnBytes(c, u)
				}
				for _, st := range states {
					t.dist(st.path, st.p, body, func(o probOutcome) { next.add(o) })
					if t.giveUp {
						return
					}
				}
				states = next.all()
				if len(states) > 3000 {
					return
				}
				if i < m-1 {
					continue // shorter sequences are executions of their own
				}
				exp := map[int64]float64{}
				tot, tau := 0.0, 0.0
				var s *voSk
				body2 := func() string {
					sig := body()
					var err error
					s, err = u.Result()
					c.NoErr(err, "result")
					c.Assert(voUnBytes(c, u) == sig, "result-changes-union", "asking for the result changed the union")
					return voSampleStr(s)
				}
				for _, st := range states {
					t.dist(st.path, st.p, body2, func(o probOutcome) {
						w := voResult(c, s, maxK, ins)
						for it, v := range w {
							exp[it] += o.p * v
						}
						if s.R() > 0 {
							tau = math.Max(tau, voSamples(s)[s.H()].Weight)
						}
						tot += o.p
						voUsable(c, u, s)
						// a result is not changed by what happens to the union afterwards
						s2, err := u.Result()
						c.NoErr(err, "result")
						was := voSampleStr(s2)
						voFeed(c, u, voIn{k: 3, h: []float64{2}, r: 2, tot: 5, n: 7}, 9100)
						c.Assert(voSampleStr(s2) == was, "earlier-result", "updating the union changed an earlier result")
						c.Step()
					})
					if t.giveUp {
						return
					}
				}
				c.Assert(math.Abs(tot-1) < 1e-7, "total-probability", "probabilities sum to %v", tot)
				lo, hi := math.Inf(1), 0.0
				for _, x := range ins {
					for _, w := range x.weights() {
						lo, hi = math.Min(lo, w), math.Max(hi, w)
					}
				}
				for j := range ins {
					for p, w := range ins[j].weights() {
						if hi > 5000*lo {
							continue // outcomes of tiny probability within Result are not all found
						}
						e := exp[int64(j+1)*100+int64(p)]
						c.Assert(math.Abs(e-w) <= 1e-7*w+1e-7*tau, "bias", "maxK=%d inputs %v: sample %d of input %d with weight %v has %v in the result on average", maxK, ins, p, j, w, e)
					}
				}
			}
			c.State(mix(uint64(maxK), uint64(len(states)), uint64(t.runs)))
			c.Outcome(mix(uint64(maxK), uint64(len(states))))
			// reset
			u := voUnNew(c, maxK)
			for j := range ins {
				voFeed(c, u, ins[j], int64(j+1)*100)
			}
			u.Reset()
			c.Assert(voUnBytes(c, u) == voUnBytes(c, voUnNew(c, maxK)), "reset", "a reset union differs from a new one")
			voFeed(c, u, ins[0], 100)
			f := voUnNew(c, maxK)
			voFeed(c, f, ins[0], 100)
			c.Assert(voUnBytes(c, u) == voUnBytes(c, f), "reset", "a reset union behaves unlike a new one")
		},
	}
}

var voInputs = []voIn{
	{k: 2, n: 0},
	{k: 3, h: []float64{1, 2}, n: 2},
	{k: 2, r: 2, tot: 3, n: 3},
	{k: 3, h: []float64{10}, r: 2, tot: 4, n: 5},
	{k: 2, h: []float64{7}, r: 1, tot: 3, n: 4},
	{k: 1, r: 1, tot: 5, n: 3},
	{k: 2, n: 2, res: true},
	{k: 2, n: 5, res: true},
	{k: 5, h: []float64{0.1, 0.2, 0.3, 0.7}, n: 4},
	{k: 3, h: []float64{1e9, 2e12}, r: 1, tot: 1e8 / 3, n: 40},
	{k: 3, r: 3, tot: 0.7, n: 6},
	{k: 4, h: []float64{5}, r: 3, tot: 0.3, n: 9},
	{k: 3, n: 100, res: true},
	{k: 2, r: 2, tot: 1e15 / 7, n: 30},
	{k: 3, h: []float64{1.5}, r: 2, tot: 3, n: 6},
}

// voMarked are inputs whose light items all fit into a large union.
var voMarked = []voIn{
	{k: 2, r: 2, tot: 1.444023146618599e+08, n: 6},
	{k: 2, n: 1<<47 + 1, res: true},
	{k: 3, h: []float64{1, 4}, r: 1, tot: 1.0 / 3, n: 30},
	{k: 3, h: []float64{1}, n: 1},
}

func voUnLong(ks []int, dev int) engine.Scenario {
	return engine.Scenario{
		Name:       "long",
		Bound:      fmt.Sprintf("unions of three large sketches over %d weight patterns, fixed random policies with up to %d deviations", len(voStreams), dev),
		ShardDepth: 4,
		Run: func(c *C) {
			maxK := pickInt(c, "maxK", ks...)
			a := voStreams[c.Choose(len(voStreams), "first weights")]
			b := voStreams[c.Choose(len(voStreams), "second weights")]
			shape := c.Choose(4, "capacities")
			pol := c.Choose(engine.NumPolicies, "policy")
			c.Logf("%s and %s, capacities %d, policy %d", a.name, b.name, shape, pol)
			c.RandPolicy(pol, dev)
			u := voUnNew(c, maxK)
			var n int64
			total := 0.0
			have := map[int64]float64{}
			for j := 0; j < 3; j++ {
				k := []int{maxK, maxK / 2, maxK * 3, maxK/3 + j*maxK}[shape]
				g := a
				if j == 1 {
					g = b
				}
				s := voNew(c, max(k, 1), sampling.ResizeX2)
				for i := 0; i < []int{60, 25, 130}[j]; i++ {
					c.NoErr(s.Update(int64(j+1)*1000000+int64(i), g.f(i)), "update")
					total += g.f(i)
					n++
				}
				for _, x := range voSamples(s) {
					have[x.Item] = x.Weight
				}
				before := voBytes(c, s)
				c.NoErr(u.Update(s), "union-update")
				c.Assert(eqBytes(voBytes(c, s), before), "source", "the union changed its input")
				r, err := u.Result()
				c.NoErr(err, "result")
				xs := voSamples(r)
				sum := 0.0
				for _, x := range xs {
					sum += x.Weight
					t, ok := have[x.Item]
					c.Assert(ok, "foreign", "sample %d was in no input's sample", x.Item)
					c.Assert(x.Weight >= t*(1-1e-9), "below-true", "item %d of weight %v is reported as %v", x.Item, t, x.Weight)
				}
				c.Assert(r.N() == n && r.K() <= maxK && len(xs) <= r.K() && near(sum, total, 1e-9), "result", "N=%d (want %d) K=%d (maximum %d), %d samples of weight %v (want %v)", r.N(), n, r.K(), maxK, len(xs), sum, total)
				voUsable(c, u, r)
				c.Step()
			}
			c.Outcome(mix(uint64(maxK), math.Float64bits(total)))
		},
	}
}

func init() {
	engine.Register(engine.Property{
		ID: "C27",
		Assumptions: []string{
			"inputs in sampling mode are brought into their state through the decoder, so that their content is fixed",
			"averages are taken over the random choices of the union, given the weights its inputs report",
			"probabilities are exact up to the location of cuts of the unit interval (2^-35); sums of weights are compared with relative tolerance 1e-9",
			"averages are checked for inputs whose weights differ by a factor of at most 5000; everything else for all inputs",
		},
		Scenarios: func(tier string) []engine.Scenario {
			if tier == "thorough" {
				return []engine.Scenario{
					voUnion("union-2", []int{1, 2, 3, 4, 5, 8}, voInputs, 2),
					voUnion("union-3", []int{1, 2, 3, 4, 6}, voInputs, 3),
					voUnion("marked", []int{5, 6, 7, 9, 12}, voMarked, 4),
					voUnLong([]int{1, 2, 5, 16, 40, 100}, 1),
				}
			}
			return []engine.Scenario{
				voUnion("union-2", []int{1, 2, 3, 4, 5}, voInputs, 2),
				voUnion("union-3", []int{2, 3, 5}, voInputs[:8], 3),
				voUnion("marked", []int{6, 9}, voMarked, 3),
				voUnLong([]int{1, 5, 40}, 0),
			}
		},
	})
}
