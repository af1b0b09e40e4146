package props

import (
	"encoding/binary"
	"fmt"
	"math"
	"sort"

	"github.com/apache/datasketches-go/common"
	"github.com/apache/datasketches-go/sampling"
	"verifmc/engine"
)

// C25 (reservoir sampling).

type rsSk = sampling.ReservoirItemsSketch[int64]
type rsUn = sampling.ReservoirItemsUnion[int64]

var rsSerde = common.ItemSketchLongSerDe{}

// rsImage is the serialized form of a reservoir of capacity k that has seen n items.
func rsImage(k int, n int64, rf byte, items []int64) []byte {
	b := make([]byte, 16+8*len(items))
	b[0], b[1], b[2] = 2|rf<<6, 2, 0
	binary.LittleEndian.PutUint32(b[4:], uint32(k))
	binary.LittleEndian.PutUint64(b[8:], uint64(n))
	for i, x := range items {
		binary.LittleEndian.PutUint64(b[16+8*i:], uint64(x))
	}
	return b
}

// rsMake is a reservoir of capacity k after n items; its samples are base, base+1, ...
func rsMake(c *C, k int, n int64, base int64) *rsSk {
	if n == 0 {
		s, err := sampling.NewReservoirItemsSketch[int64](k)
		c.NoErr(err, "new")
		return s
	}
	items := make([]int64, min(int64(k), n))
	for i := range items {
		items[i] = base + int64(i)
	}
	if n <= int64(k) {
		s, err := sampling.NewReservoirItemsSketch[int64](k)
		c.NoErr(err, "new")
		for _, x := range items {
			c.NoErr(s.Update(x), "update")
		}
		return s
	}
	tmpl, err := sampling.NewReservoirItemsSketch[int64](k)
	c.NoErr(err, "new")
	c.NoErr(tmpl.Update(1), "update")
	fam, err := tmpl.ToSlice(rsSerde)
	c.NoErr(err, "serialize")
	b := rsImage(k, n, 3, items)
	b[2] = fam[2]
	s, err := sampling.NewReservoirItemsSketchFromSlice[int64](b, rsSerde)
	c.NoErr(err, "decode")
	return s
}

func rsSame(a, b *rsSk) bool {
	x, y := a.Samples(), b.Samples()
	if a.K() != b.K() || a.N() != b.N() || len(x) != len(y) || a.NumSamples() != b.NumSamples() {
		return false
	}
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

func rsSortedSamples(s *rsSk) []int64 {
	x := s.Samples()
	sort.Slice(x, func(i, j int) bool { return x[i] < x[j] })
	return x
}

// rsCheck: min(n,k) samples, all different.
func rsCheck(c *C, s *rsSk, k int, n int64) []int64 {
	x := rsSortedSamples(s)
	c.Assert(s.K() == k && s.N() == n, "count", "K=%d N=%d, want %d %d", s.K(), s.N(), k, n)
	c.Assert(int64(len(x)) == min(n, int64(k)) && s.NumSamples() == len(x), "samples", "%d samples (NumSamples %d), want min(%d,%d)", len(x), s.NumSamples(), n, k)
	for i := 1; i < len(x); i++ {
		c.Assert(x[i] != x[i-1], "duplicate", "sample %d twice: %v", x[i], x)
	}
	return x
}

func rsRoundTrip(c *C, s *rsSk) *rsSk {
	b, err := s.ToSlice(rsSerde)
	c.NoErr(err, "serialize")
	d, err := sampling.NewReservoirItemsSketchFromSlice[int64](b, rsSerde)
	c.NoErr(err, "decode")
	c.Assert(rsSame(s, d), "decoded", "decoded K=%d N=%d %v, want K=%d N=%d %v", d.K(), d.N(), d.Samples(), s.K(), s.N(), s.Samples())
	b2, err := d.ToSlice(rsSerde)
	c.NoErr(err, "serialize")
	c.Assert(eqBytes(b, b2), "reencode", "decoding and encoding again changes the image")
	return d
}

func rsSubsets(c *C, s *rsSk, n int64, all int64) {
	x := s.Samples()
	preds := []func(int64) bool{func(int64) bool { return true }, func(int64) bool { return false }, func(v int64) bool { return v%2 == 0 }, func(v int64) bool { return v == 0 }, func(v int64) bool { return v < all/2 }}
	for i, p := range preds {
		r, err := s.EstimateSubsetSum(p)
		c.NoErr(err, "subset-sum")
		if n == 0 {
			c.Assert(r == sampling.SampleSubsetSummary{}, "subset-sum", "empty reservoir: %+v", r)
			continue
		}
		cnt := 0
		for _, v := range x {
			if p(v) {
				cnt++
			}
		}
		want := float64(cnt) * float64(n) / float64(len(x))
		c.Assert(near(r.Estimate, want, 1e-12) || math.Abs(r.Estimate-want) < 1e-12, "subset-estimate", "predicate %d: estimate %v, want %d of %d samples of %d items", i, r.Estimate, cnt, len(x), n)
		c.Assert(r.LowerBound <= r.Estimate*(1+1e-12) && r.Estimate <= r.UpperBound*(1+1e-12), "subset-bounds", "predicate %d: %v not within [%v,%v]", i, r.Estimate, r.LowerBound, r.UpperBound)
		c.Assert(r.TotalSketchWeight == float64(n), "subset-total", "total %v, want %d", r.TotalSketchWeight, n)
		c.Assert(r.LowerBound >= 0 && r.UpperBound <= float64(n)*(1+1e-12), "subset-bounds", "predicate %d: [%v,%v] of %d items", i, r.LowerBound, r.UpperBound, n)
		if n <= int64(s.K()) {
			c.Assert(r.LowerBound == float64(cnt) && r.UpperBound == float64(cnt), "subset-exact", "predicate %d: nothing was dropped, bounds [%v,%v] for %d", i, r.LowerBound, r.UpperBound, cnt)
		}
	}
}

func binom(n, k int) float64 {
	r := 1.0
	for i := 0; i < k; i++ {
		r = r * float64(n-i) / float64(i+1)
	}
	return r
}

// rsUniform enumerates every outcome of a whole short stream.
func rsUniform(cfgs [][2]int) engine.Scenario {
	return engine.Scenario{
		Name:       "uniform",
		Bound:      "all random outcomes of short streams",
		ShardDepth: 2,
		Run: func(c *C) {
			g := cfgs[c.Choose(len(cfgs), "k,n")]
			k, n := g[0], g[1]
			rt := c.Choose(3, "variant") // plain, serialized half way, copied half way
			c.Logf("k=%d n=%d variant=%d", k, n, rt)
			t := &probTree{c: c}
			incl := make([]float64, n)
			subs := map[string]float64{}
			tot := 0.0
			var last *rsSk
			body := func() string {
				s, err := sampling.NewReservoirItemsSketch[int64](k)
				c.NoErr(err, "new")
				for i := 0; i < n; i++ {
					c.NoErr(s.Update(int64(i)), "update")
					if i == n/2 && rt == 1 {
						s = rsRoundTrip(c, s)
					}
					if i == n/2 && rt == 2 {
						old := s
						s = s.Copy()
						c.NoErr(old.Update(-1), "update")
						c.NoErr(old.Update(-2), "update")
					}
				}
				last = s
				return fmt.Sprint(s.Samples())
			}
			if rt == 2 {
				n = min(n, 6) // the copied original draws as well
				incl = incl[:n]
			}
			t.dist(nil, 1, body, func(o probOutcome) {
				body2 := last // dist's leaf call ran body last
				x := rsCheck(c, body2, k, int64(n))
				for _, v := range x {
					c.Assert(v >= 0 && v < int64(n), "foreign", "sample %d is not in the stream", v)
					incl[v] += o.p
				}
				subs[fmt.Sprint(x)] += o.p
				tot += o.p
				rsSubsets(c, body2, int64(n), int64(n))
				c.Step()
			})
			c.Assert(math.Abs(tot-1) < 1e-9, "total-probability", "probabilities sum to %v", tot)
			p := math.Min(1, float64(k)/float64(n))
			for i, v := range incl {
				c.Assert(math.Abs(v-p) < 1e-8, "inclusion", "position %d is retained with probability %v, want %v: %v", i, v, p, incl)
			}
			want := 1 / binom(n, min(k, n))
			for s, v := range subs {
				c.Assert(math.Abs(v-want) < 1e-8, "subset", "sample %s has probability %v, want %v", s, v, want)
			}
			c.State(mix(uint64(k), uint64(n), uint64(t.runs)))
			c.Outcome(mix(uint64(k), uint64(n)))
		},
	}
}

// rsStep checks one update of a reservoir that has seen n items, n up to the limit.
func rsStep(ks []int) engine.Scenario {
	return engine.Scenario{
		Name:  "step",
		Bound: "one update at every chosen capacity and count up to the documented limit, all outcomes",
		Run: func(c *C) {
			k := pickInt(c, "k", ks...)
			ns := []int64{0, 1, int64(k) - 1, int64(k), int64(k) + 1, int64(2*k) + 1, 1000, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 40, 1<<48 - 2}
			n := ns[c.Choose(len(ns), "n")]
			c.Logf("n=%d", n)
			t := &probTree{c: c}
			var last *rsSk
			body := func() string {
				s := rsMake(c, k, n, 0)
				c.NoErr(s.Update(-1), "update")
				last = s
				return fmt.Sprint(s.Samples())
			}
			pin := 0.0
			out := make([]float64, k)
			t.dist(nil, 1, body, func(o probOutcome) {
				x := rsCheck(c, last, k, n+1)
				if x[0] == -1 {
					pin += o.p
				}
				have := map[int64]bool{}
				for _, v := range x {
					have[v] = true
				}
				for i := int64(0); i < min(n, int64(k)); i++ {
					if !have[i] {
						out[i] += o.p
					}
				}
				c.Step()
			})
			want := math.Min(1, float64(k)/float64(n+1))
			c.Assert(math.Abs(pin-want) < 1e-8, "inclusion", "k=%d: item %d is sampled with probability %v, want %v", k, n+1, pin, want)
			drop := 0.0
			if n >= int64(k) {
				drop = 1 / float64(n+1)
			}
			for i := range out {
				c.Assert(math.Abs(out[i]-drop) < 1e-8, "dropped", "k=%d n=%d: sample %d is dropped with probability %v, want %v", k, n, i, out[i], drop)
			}
			c.Outcome(mix(uint64(k), uint64(n)))
		},
	}
}

type rsIn struct {
	k   int
	n   int64
	how int // 0 UpdateSketch, 1 UpdateFromRaw, 2 single items
}

func (x rsIn) String() string { return fmt.Sprintf("{k=%d n=%d how=%d}", x.k, x.n, x.how) }

func (x rsIn) kept() int64 {
	if x.how == 2 {
		return x.n
	}
	return min(x.n, int64(x.k))
}

// rsFeed gives input i to the union; sources must come out unchanged.
func rsFeed(c *C, u *rsUn, x rsIn, base int64) {
	switch x.how {
	case 0:
		s := rsMake(c, x.k, x.n, base)
		cp := rsMake(c, x.k, x.n, base)
		c.NoErr(u.UpdateSketch(s), "union-update")
		c.Assert(rsSame(s, cp), "source", "the union changed its input: K=%d N=%d %v", s.K(), s.N(), s.Samples())
		// changing the input afterwards must not reach the union
		r, err := u.Result()
		c.NoErr(err, "result")
		for i := 0; i < 3; i++ {
			c.NoErr(s.Update(-5), "update")
		}
		r2, err := u.Result()
		c.NoErr(err, "result")
		c.Assert(rsSame(r, r2), "input-aliased", "updating an input after the merge changed the union's result")
	case 1:
		items := make([]int64, x.kept())
		for i := range items {
			items[i] = base + int64(i)
		}
		c.NoErr(u.UpdateFromRaw(x.n, x.k, items), "union-update-raw")
	default:
		for i := int64(0); i < x.n; i++ {
			c.NoErr(u.Update(base+i), "union-update-item")
		}
	}
}

func rsUnBytes(c *C, u *rsUn) string {
	b, err := u.ToSlice(rsSerde)
	c.NoErr(err, "serialize")
	return string(b)
}

// rsUnion feeds sequences of reservoirs to a union and computes exact inclusion probabilities.
func rsUnion(name string, maxKs []int, alpha []rsIn, nIn int) engine.Scenario {
	return engine.Scenario{
		Name:       name,
		Bound:      fmt.Sprintf("all sequences of up to %d inputs, all random outcomes", nIn),
		ShardDepth: 3,
		Run: func(c *C) {
			maxK := pickInt(c, "maxK", maxKs...)
			m := nIn
			ins := make([]rsIn, 0, m)
			for i := 0; i < m; i++ {
				v := c.Choose(len(alpha)+1, "input")
				if v == len(alpha) {
					break
				}
				ins = append(ins, alpha[v])
			}
			if len(ins) == 0 {
				u, err := sampling.NewReservoirItemsUnion[int64](maxK)
				c.NoErr(err, "new")
				c.Assert(u.MaxK() == maxK, "maxk", "MaxK %d", u.MaxK())
				r, err := u.Result()
				c.NoErr(err, "result")
				c.Assert(r == nil, "empty", "result of an unused union")
				u.Reset()
				c.NoErr(u.Update(1), "update")
				r, err = u.Result()
				c.NoErr(err, "result")
				rsCheck(c, r, maxK, 1)
				return
			}
			ser := c.Choose(2, "serialize between inputs") == 1
			c.Logf("inputs %v serialize=%v", ins, ser)
			t := &probTree{c: c, maxRuns: 400_000}
			states := []*probOutcome{{p: 1}}
			var n int64
			for i := range ins {
				n += ins[i].n
				next := newProbStates()
				var lastU *rsUn
				body := func() string {
					u, err := sampling.NewReservoirItemsUnion[int64](maxK)
					c.NoErr(err, "new")
					for j := 0; j <= i; j++ {
						var before *rsSk
						var copyB *rsSk
						if j == i && j > 0 {
							before, err = u.Result()
							c.NoErr(err, "result")
							if before != nil {
								copyB = before.Copy()
							}
						}
						rsFeed(c, u, ins[j], int64(j+1)*100)
						if before != nil {
							c.Assert(rsSame(before, copyB), "earlier-result", "merging changed an earlier result")
						}
						if ser && j < i {
							b := rsUnBytes(c, u)
							r1, err := u.Result()
							c.NoErr(err, "result")
							u, err = sampling.NewReservoirItemsUnionFromSlice[int64]([]byte(b), rsSerde)
							c.NoErr(err, "decode-union")
							r2, err := u.Result()
							c.NoErr(err, "result")
							if r1 != nil && r1.N() > 0 {
								c.Assert(r2 != nil && rsSame(r1, r2), "decoded-union", "decoded union differs")
							}
							c.Assert(rsUnBytes(c, u) == b, "reencode-union", "decoding and encoding a union changes its image")
						}
					}
					lastU = u
					return rsUnBytes(c, u)
				}
				perSample := make([][]float64, i+1)
				for j := range perSample {
					perSample[j] = make([]float64, ins[j].kept())
				}
				resK, tot := 0, 0.0
				for _, st := range states {
					t.dist(st.path, st.p, body, func(o probOutcome) {
						next.add(o)
						r, err := lastU.Result()
						c.NoErr(err, "result")
						c.Assert(r != nil, "no-result", "no result after %d items", n)
						if resK == 0 {
							resK = r.K()
						}
						c.Assert(r.K() == resK, "capacity", "capacity %d or %d depending on the random draws", r.K(), resK)
						x := rsCheck(c, r, resK, n)
						for _, v := range x {
							j := int(v/100) - 1
							c.Assert(j >= 0 && j <= i && v%100 < ins[j].kept(), "foreign", "sample %d was in no input", v)
							perSample[j][v%100] += o.p
						}
						tot += o.p
						rsSubsets(c, r, n, 200)
						c.Step()
					})
					if t.giveUp {
						return
					}
				}
				ok := resK == maxK
				for j := 0; j <= i; j++ {
					ok = ok || ins[j].how != 2 && ins[j].k == resK && resK < maxK
				}
				c.Assert(ok, "capacity", "result capacity %d: neither the union's %d nor an input's", resK, maxK)
				c.Assert(math.Abs(tot-1) < 1e-8, "total-probability", "probabilities sum to %v", tot)
				base := math.Min(1, float64(resK)/math.Max(1, float64(n)))
				for j := range perSample {
					w := float64(ins[j].n) / float64(max(1, ins[j].kept()))
					for s, p := range perSample[j] {
						c.Assert(math.Abs(p-base*w) < 1e-7, "inclusion", "inputs %v maxK %d: sample %d of input %d (weight %v) is in the result with probability %v, want %v", ins[:i+1], maxK, s, j, w, p, base*w)
					}
				}
				states = next.all()
				if len(states) > 600 {
					break
				}
			}
			c.State(mix(uint64(maxK), uint64(len(states)), uint64(t.runs)))
			c.Outcome(mix(uint64(maxK), uint64(n), uint64(len(states))))
		},
	}
}

// rsLong runs long streams under fixed random policies, across array growth and resets.
func rsLong(ks, ns []int, dev int) engine.Scenario {
	return engine.Scenario{
		Name:       "long",
		Bound:      fmt.Sprintf("long streams, all resize factors, fixed random policies with up to %d deviations", dev),
		ShardDepth: 3,
		Run: func(c *C) {
			k, n := pickInt(c, "k", ks...), pickInt(c, "n", ns...)
			rf := sampling.ResizeFactor(c.Choose(4, "resize factor"))
			pol := c.Choose(engine.NumPolicies, "policy")
			c.Logf("rf=%d policy=%d", rf, pol)
			c.RandPolicy(pol, dev)
			s, err := sampling.NewReservoirItemsSketch[int64](k, sampling.WithReservoirItemsSketchResizeFactor(rf))
			c.NoErr(err, "new")
			rsCheck(c, s, k, 0)
			every := max(1, n/7)
			for i := 0; i < n; i++ {
				c.NoErr(s.Update(int64(i)), "update")
				c.Step()
				if i%every == every-1 || i == k || i == k-1 {
					x := rsCheck(c, s, k, int64(i+1))
					for j, v := range x {
						c.Assert(v >= 0 && v <= int64(i), "foreign", "sample %d after %d items", v, i+1)
						if i < k {
							c.Assert(v == int64(j), "exact", "samples %v of the first %d items", x, i+1)
						}
					}
					cp := s.Copy()
					c.Assert(rsSame(cp, s), "copy", "the copy differs")
					s = rsRoundTrip(c, s)
				}
			}
			rsSubsets(c, s, int64(n), int64(n))
			// merge two halves into a union that is large enough, equal, or smaller
			for _, mk := range []int{k, 2 * k, max(2, k/2)} {
				u, err := sampling.NewReservoirItemsUnion[int64](mk)
				c.NoErr(err, "new")
				a := s.Copy()
				b, err := sampling.NewReservoirItemsSketch[int64](k+1, sampling.WithReservoirItemsSketchResizeFactor(rf))
				c.NoErr(err, "new")
				for i := 0; i < n/2; i++ {
					c.NoErr(b.Update(int64(n+i)), "update")
				}
				bc := b.Copy()
				c.NoErr(u.UpdateSketch(a), "union")
				c.NoErr(u.UpdateSketch(b), "union")
				c.Assert(rsSame(a, s) && rsSame(b, bc), "source", "the union changed an input")
				r, err := u.Result()
				c.NoErr(err, "result")
				c.Assert(r.K() <= mk, "capacity", "result capacity %d, union maximum %d", r.K(), mk)
				x := rsCheck(c, r, r.K(), int64(n+n/2))
				for _, v := range x {
					c.Assert(v >= 0 && v < int64(n+n/2), "foreign", "sample %d", v)
				}
				rsRoundTrip(c, r)
				d, err := sampling.NewReservoirItemsUnionFromSlice[int64]([]byte(rsUnBytes(c, u)), rsSerde)
				c.NoErr(err, "decode-union")
				r2, err := d.Result()
				c.NoErr(err, "result")
				c.Assert(rsSame(r, r2), "decoded-union", "decoded union differs")
				u.Reset()
				r3, err := u.Result()
				c.NoErr(err, "result")
				c.Assert(r3 == nil || r3.N() == 0 && r3.NumSamples() == 0 && r3.K() == mk, "reset", "a reset union has N=%d K=%d", r3.N(), r3.K())
				c.NoErr(u.Update(7), "update")
				r3, err = u.Result()
				c.NoErr(err, "result")
				rsCheck(c, r3, mk, 1)
			}
			s.Reset()
			rsCheck(c, s, k, 0)
			for i := 0; i < min(n, k); i++ {
				c.NoErr(s.Update(int64(i)), "update")
			}
			rsCheck(c, s, k, int64(min(n, k)))
			c.Outcome(mix(uint64(k), uint64(n)))
		},
	}
}

// rsMisc: parameters, the count limit, nil items, strings.
func rsMisc() engine.Scenario {
	return engine.Scenario{
		Name:  "limits",
		Bound: "capacities around the minimum, counts around 2^48, nil items, strings",
		Run: func(c *C) {
			for _, k := range []int{-1, 0, 1} {
				_, err := sampling.NewReservoirItemsSketch[int64](k)
				c.Assert(err != nil, "small-k", "capacity %d accepted", k)
				_, err = sampling.NewReservoirItemsUnion[int64](k)
				c.Assert(err != nil, "small-maxk", "union capacity %d accepted", k)
			}
			const lim = int64(1)<<48 - 1
			k := pickInt(c, "k", 2, 5)
			s := rsMake(c, k, lim-1, 0)
			c.RandPolicy(0, 0)
			c.NoErr(s.Update(-1), "update")
			c.Assert(s.N() == lim, "count", "N=%d", s.N())
			before := s.Copy()
			c.Assert(s.Update(-2) != nil, "limit", "item 2^48 accepted")
			c.Assert(rsSame(s, before), "limit", "a refused item changed the reservoir")
			p, err := sampling.NewReservoirItemsSketch[*int64](k)
			c.NoErr(err, "new")
			v := int64(3)
			c.NoErr(p.Update(nil), "update-nil")
			c.NoErr(p.Update(&v), "update")
			c.Assert(p.N() == 1 && p.NumSamples() == 1 && p.Samples()[0] == &v, "nil", "nil item counted: N=%d", p.N())
			st, err := sampling.NewReservoirItemsSketch[string](k)
			c.NoErr(err, "new")
			for _, x := range []string{"", "a", "żółć", "a\x00b"}[:min(k, 4)] {
				c.NoErr(st.Update(x), "update")
			}
			b, err := st.ToSlice(common.ItemSketchStringSerDe{})
			c.NoErr(err, "serialize")
			d, err := sampling.NewReservoirItemsSketchFromSlice[string](b, common.ItemSketchStringSerDe{})
			c.NoErr(err, "decode")
			c.Assert(fmt.Sprint(d.Samples()) == fmt.Sprint(st.Samples()) && d.N() == st.N() && d.K() == st.K(), "strings", "decoded %q", d.Samples())
			// a union keeps working when a raw input brings no items
			u, err := sampling.NewReservoirItemsUnion[int64](k)
			c.NoErr(err, "new")
			c.NoErr(u.UpdateFromRaw(0, k, nil), "raw-empty")
			c.NoErr(u.Update(4), "update-after-raw")
			r, err := u.Result()
			c.NoErr(err, "result")
			rsCheck(c, r, k, 1)
			c.Checked()
		},
	}
}

func init() {
	engine.Register(engine.Property{
		ID: "C25",
		Assumptions: []string{
			"the sources of randomness are the top-level functions of math/rand, whose outcomes are uniform",
			"capacities of unions are checked against the union's maximum and the inputs' capacities; counts stay below 2^48",
			"UpdateFromRaw is given min(n,k) items that the caller no longer uses, as documented",
		},
		Scenarios: func(tier string) []engine.Scenario {
			cfgs := [][2]int{{2, 1}, {2, 2}, {2, 3}, {2, 4}, {2, 5}, {2, 6}, {3, 3}, {3, 4}, {3, 6}, {4, 5}, {4, 7}, {5, 7}}
			a2 := []rsIn{{2, 0, 0}, {2, 1, 0}, {2, 2, 0}, {2, 3, 0}, {2, 40, 0}, {2, 3, 2}, {3, 3, 1}, {3, 7, 0}, {2, 5, 1}, {4, 2, 0}, {4, 9, 1}}
			a3 := []rsIn{{2, 2, 0}, {2, 3, 0}, {2, 1000, 0}, {2, 1, 2}, {3, 4, 0}}
			ks, ns := []int{2, 3, 16, 17, 100}, []int{1, 16, 17, 40, 500}
			sk := []int{2, 3, 5}
			dev := 0
			mk2, mk3 := []int{2, 3, 4}, []int{2, 3}
			if tier == "thorough" {
				cfgs = append(cfgs, [2]int{2, 7}, [2]int{2, 8}, [2]int{3, 7}, [2]int{3, 8}, [2]int{4, 8}, [2]int{5, 8}, [2]int{6, 9})
				a2 = append(a2, rsIn{3, 2, 0}, rsIn{3, 1 << 40, 0}, rsIn{4, 5, 0}, rsIn{5, 6, 0}, rsIn{2, 1 << 40, 1}, rsIn{4, 4, 0})
				a3 = append(a3, rsIn{3, 50, 1}, rsIn{2, 5, 0}, rsIn{4, 3, 0})
				ks, ns = append(ks, 15, 31, 32, 33, 64, 1000), append(ns, 2, 3, 15, 33, 64, 101, 2000)
				sk = append(sk, 4, 7, 16, 33, 100)
				dev = 1
				mk2, mk3 = append(mk2, 5), append(mk3, 4)
			}
			return []engine.Scenario{
				rsUniform(cfgs),
				rsStep(sk),
				rsUnion("union-2", mk2, a2, 2),
				rsUnion("union-3", mk3, a3, 3),
				rsLong(ks, ns, dev),
				rsMisc(),
			}
		},
	})
}
