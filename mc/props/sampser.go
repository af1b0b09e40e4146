package props

import (
	"bytes"
	"errors"
	"fmt"
	"math"

	"github.com/apache/datasketches-go/common"
	"github.com/apache/datasketches-go/sampling"
	"verifmc/engine"
)

// C28 (serialization of the sampling sketches).

// twinRand answers random draws with choices and lets other objects replay the same answers.
type twinRand struct {
	c      *C
	policy bool // answers come from the scenario's policy instead of being enumerated
	kinds  []string
	vals   []uint64
	pos    int
	replay bool
	seq    uint64
	pol    int
}

func (t *twinRand) hook(kind string, n uint64) (uint64, bool) {
	k := fmt.Sprint(kind, n)
	if t.replay {
		t.c.Assert(t.pos < len(t.vals) && t.kinds[t.pos] == k, "random-use", "the restored object asks for random value %d (%s), the original asked for %d: %v", t.pos, k, len(t.kinds), t.kinds)
		t.pos++
		return t.vals[t.pos-1], true
	}
	var v uint64
	switch {
	case t.policy:
		t.seq++
		x := mix(t.seq, uint64(t.pol))
		switch t.pol {
		case 0:
			x = 0
		case 1:
			x = math.MaxUint64
		case 2:
			x = -(t.seq & 1)
		}
		if kind == "int" {
			v = uint64(float64(n) * (float64(x>>11) / (1 << 53)))
		} else {
			v = max(x, 1<<40) // zero is drawn again
		}
	case kind == "int" && n <= 4:
		v = uint64(t.c.Choose(int(n), "rnd"))
	case kind == "int":
		v = []uint64{0, n / 2, n - 1}[t.c.Choose(3, "rnd")]
	default: // the unit interval, or raw bits
		v = []uint64{1 << 40, 1<<63 - 1<<61, 1<<63 + 1<<62, math.MaxUint64 - 1<<40}[t.c.Choose(4, "rndf")]
	}
	t.kinds, t.vals = append(t.kinds, k), append(t.vals, v)
	return v, true
}

// do runs f on the original, then g on its twins with the same random outcomes.
func (t *twinRand) do(f func(), g ...func()) {
	t.kinds, t.vals, t.replay = t.kinds[:0], t.vals[:0], false
	t.c.RandCustom(t.hook)
	f()
	for _, h := range g {
		t.pos, t.replay = 0, true
		h()
		t.c.Assert(t.pos == len(t.vals), "random-use", "the restored object asked for %d random values, the original for %d", t.pos, len(t.vals))
	}
	t.replay = false
}

type voCodec[T comparable] struct {
	serde common.ItemSketchSerde[T]
	item  func(i int) T
}

func (v voCodec[T]) enc(c *C, s *sampling.VarOptItemsSketch[T]) []byte {
	var b bytes.Buffer
	e := sampling.NewVarOptItemsSketchEncoder[T](&b, v.serde)
	c.NoErr(e.Encode(s), "encode")
	c.Assert(s.SerializedSizeBytes(v.serde) == b.Len(), "size", "image has %d bytes, SerializedSizeBytes %d", b.Len(), s.SerializedSizeBytes(v.serde))
	return b.Bytes()
}

func (v voCodec[T]) dec(c *C, b []byte) *sampling.VarOptItemsSketch[T] {
	s, err := sampling.DecodeVarOptItemsSketch[T](b, v.serde)
	c.NoErr(err, "decode")
	return s
}

func (v voCodec[T]) str(c *C, s *sampling.VarOptItemsSketch[T]) string {
	r := fmt.Sprint(s.K(), s.N(), s.H(), s.R(), s.NumSamples(), s.IsEmpty())
	for x := range s.All() {
		r += fmt.Sprintf(" %#v:%v", x.Item, x.Weight)
	}
	odd := false
	e, err := s.EstimateSubsetSum(func(T) bool { odd = !odd; return odd })
	c.NoErr(err, "subset-sum")
	return r + fmt.Sprintf(" %v", e)
}

// same: the restored sketch reports what the original does and has the same image.
func (v voCodec[T]) same(c *C, d, s *sampling.VarOptItemsSketch[T], img []byte, when string) {
	a, b := v.str(c, d), v.str(c, s)
	c.Assert(a == b, "answers", "%s: restored sketch reports %s, original %s", when, a, b)
	if img == nil {
		img = v.enc(c, s)
	}
	c.Assert(eqBytes(v.enc(c, d), img), "image", "%s: the restored sketch is serialized differently", when)
}

// voSerTree: after every update the sketch is restored from its image; all restored sketches are
// then updated like the original.
func voSerTree[T comparable](name string, v voCodec[T], ks []int, alpha []float64, depth int) engine.Scenario {
	return engine.Scenario{
		Name:       name,
		Bound:      fmt.Sprintf("all histories of %d updates with weights %v and resets, representative random outcomes, restored after every step and continued", depth, alpha),
		ShardDepth: 4,
		Run: func(c *C) {
			k := pickInt(c, "k", ks...)
			rf := []sampling.ResizeFactor{sampling.ResizeX8, sampling.ResizeX1, sampling.ResizeX2}[c.Choose(3, "resize")]
			s, err := sampling.NewVarOptItemsSketch[T](uint(k), sampling.WithResizeFactor(rf))
			c.NoErr(err, "new")
			t := &twinRand{c: c}
			var tw []*sampling.VarOptItemsSketch[T]
			chain := s
			tw = append(tw, v.dec(c, v.enc(c, s)))
			for d := 0; d < depth; d++ {
				o := c.Choose(len(alpha)+1, "op")
				op := func(x *sampling.VarOptItemsSketch[T]) func() {
					return func() {
						if o == len(alpha) {
							x.Reset()
						} else {
							c.NoErr(x.Update(v.item(d), alpha[o]), "update")
						}
					}
				}
				if o < len(alpha) {
					c.Logf("update item %d weight %v", d, alpha[o])
				} else {
					c.Logf("reset")
				}
				chain = v.dec(c, v.enc(c, chain))
				fs := []func(){op(chain)}
				if chain == s {
					fs = fs[:0]
				}
				for _, x := range tw {
					fs = append(fs, op(x))
				}
				t.do(op(s), fs...)
				if c.Tracing() {
					c.Logf("  -> %s", v.str(c, s))
				}
				img := v.enc(c, s)
				for i, x := range tw {
					v.same(c, x, s, img, fmt.Sprintf("restored before step %d, after step %d", i, d))
				}
				v.same(c, chain, s, img, "restored at every step")
				x := v.dec(c, img)
				v.same(c, x, s, img, "just restored")
				tw = append(tw, x)
				if len(tw) > 4 {
					tw = append(tw[:1], tw[2:]...)
				}
				c.Checked()
				c.Step()
				h := mix(engine.HAny(img), uint64(rf))
				c.State(h)
				c.PruneIfSeen(mix(engine.HAny(deepSig(s)+deepSig(tw)+deepSig(chain)), uint64(d), uint64(rf), uint64(k)))
			}
			c.Outcome(engine.HAny(v.enc(c, s)))
		},
	}
}

func voSerLong(ks, ns []int) engine.Scenario {
	v := voCodec[string]{common.ItemSketchStringSerDe{}, svStr}
	return engine.Scenario{
		Name:       "varopt-long",
		Bound:      fmt.Sprintf("string sketches over %d weight patterns, restored and continued past a further capacity, then merged; fixed random policies", len(voStreams)),
		ShardDepth: 4,
		Run: func(c *C) {
			k := pickInt(c, "k", ks...)
			n := pickInt(c, "n", ns...)
			g := voStreams[c.Choose(len(voStreams), "weights")]
			rf := []sampling.ResizeFactor{sampling.ResizeX8, sampling.ResizeX1, sampling.ResizeX2, sampling.ResizeX4}[c.Choose(4, "resize")]
			t := &twinRand{c: c, policy: true, pol: c.Choose(4, "policy")}
			s, err := sampling.NewVarOptItemsSketch[string](uint(k), sampling.WithResizeFactor(rf))
			c.NoErr(err, "new")
			c.RandCustom(t.hook)
			for i := 0; i < n; i++ {
				c.NoErr(s.Update(v.item(i), g.f(i)), "update")
			}
			img := v.enc(c, s)
			d := v.dec(c, append([]byte{}, img...))
			v.same(c, d, s, img, "just restored")
			// trailing bytes belong to somebody else
			e := v.dec(c, append(append([]byte{}, img...), 0xff, 0xff, 0xff))
			v.same(c, e, s, img, "restored from a longer slice")
			for i := 0; i < 2*k+5; i++ {
				w := g.f((i*7 + n) % 400)
				t.do(func() { c.NoErr(s.Update(v.item(-i), w), "update") }, func() { c.NoErr(d.Update(v.item(-i), w), "update") })
				if i < 5 || i%(k/4+1) == 0 {
					v.same(c, d, s, nil, fmt.Sprintf("after %d more updates", i+1))
				}
				c.Step()
			}
			v.same(c, d, s, nil, "continued")
			for _, mk := range []int{k, max(k/2, 1), 2*k + 1} {
				var r [2]*sampling.VarOptItemsSketch[string]
				f := func(j int, x *sampling.VarOptItemsSketch[string]) func() {
					return func() {
						u, err := sampling.NewVarOptItemsUnion[string](uint(mk))
						c.NoErr(err, "new-union")
						c.NoErr(u.Update(x), "union-update")
						c.NoErr(u.Update(e), "union-update")
						r[j], err = u.Result()
						c.NoErr(err, "result")
					}
				}
				t.do(f(0, s), f(1, d))
				v.same(c, r[1], r[0], nil, "merged")
			}
			c.State(engine.HAny(img))
			c.Checked()
		},
	}
}

func svStr(i int) string {
	switch {
	case i%7 == 3:
		return ""
	case i%5 == 1:
		return fmt.Sprintf("\u00e9\U0001f600%d", i)
	case i%11 == 2:
		return fmt.Sprintf("%d%0300d", i, i)
	}
	return fmt.Sprint("item", i)
}

func voUnDec(c *C, b string) *voUn {
	u, err := sampling.DecodeVarOptItemsUnion[int64]([]byte(b), voSerde)
	c.NoErr(err, "decode-union")
	return u
}

func voUnStr(c *C, u *voUn) string {
	r, err := u.Result()
	c.NoErr(err, "result")
	return voSampleStr(r)
}

// voSerUnion: the union is restored after every input; restored unions take the same further inputs.
func voSerUnion(name string, maxKs []int, alpha []voIn, nIn int, policies int) engine.Scenario {
	return engine.Scenario{
		Name:       name,
		Bound:      fmt.Sprintf("all sequences of %d inputs from %d sketches and resets, restored after every step and continued; %d random policies (0: enumerated)", nIn, len(alpha), policies),
		ShardDepth: 4,
		Run: func(c *C) {
			maxK := pickInt(c, "maxK", maxKs...)
			t := &twinRand{c: c}
			if policies > 0 {
				t.policy, t.pol = true, c.Choose(policies, "policy")
			}
			u := voUnNew(c, maxK)
			tw := []*voUn{voUnDec(c, voUnBytes(c, u))}
			chain := tw[0]
			for d := 0; d < nIn; d++ {
				o := c.Choose(len(alpha)+1, "input")
				op := func(x *voUn) func() {
					return func() {
						if o == len(alpha) {
							x.Reset()
						} else {
							voFeed(c, x, alpha[o], int64(d+1)*100)
						}
					}
				}
				if o < len(alpha) {
					c.Logf("input %v", alpha[o])
				} else {
					c.Logf("reset")
				}
				fs := []func(){op(chain)}
				for _, x := range tw {
					if x != chain {
						fs = append(fs, op(x))
					}
				}
				t.do(op(u), fs...)
				img := voUnBytes(c, u)
				x := voUnDec(c, img)
				tw = append(tw, x)
				var want string
				var rs []func()
				for i, x := range append(tw, chain) {
					c.Assert(voUnBytes(c, x) == img, "union-image", "union %d of %d restored: after input %d it is serialized differently", i, len(tw), d)
					rs = append(rs, func() {
						g := voUnStr(c, x)
						c.Assert(g == want, "union-result", "restored union %d of %d: result %s, original %s", i, len(tw), g, want)
					})
				}
				t.do(func() { want = voUnStr(c, u) }, rs...)
				c.Logf("  -> %s", want)
				c.Assert(voUnBytes(c, u) == img, "result-changes", "asking for the result changed the union")
				chain = voUnDec(c, voUnBytes(c, chain))
				c.Step()
				c.Checked()
				c.State(engine.HAny(img))
				c.PruneIfSeen(mix(engine.HAny(deepSig(u)+deepSig(tw)+deepSig(chain)), uint64(d), uint64(maxK), uint64(t.pol)))
			}
			c.Outcome(engine.HAny(voUnBytes(c, u)))
		},
	}
}

func rsDec(c *C, b []byte) *rsSk {
	d, err := sampling.NewReservoirItemsSketchFromSlice[int64](b, rsSerde)
	c.NoErr(err, "decode")
	return d
}

func rsEnc(c *C, s *rsSk) []byte {
	b, err := s.ToSlice(rsSerde)
	c.NoErr(err, "serialize")
	return b
}

// rsSerTree: reservoirs restored after every update and continued.
func rsSerTree(ks []int, depth int) engine.Scenario {
	return engine.Scenario{
		Name:       "reservoir",
		Bound:      fmt.Sprintf("all histories of %d operations (updates, resets, restoring), all random outcomes", depth),
		ShardDepth: 4,
		Run: func(c *C) {
			k := pickInt(c, "k", ks...)
			rf := []sampling.ResizeFactor{sampling.ResizeX8, sampling.ResizeX1, sampling.ResizeX2}[c.Choose(3, "resize")]
			start := c.Choose(3, "start")
			s, err := sampling.NewReservoirItemsSketch[int64](k, sampling.WithReservoirItemsSketchResizeFactor(rf))
			c.NoErr(err, "new")
			if start > 0 {
				s = rsMake(c, k, int64(k)+[]int64{0, 1, 1 << 40}[start], 1000)
			}
			t := &twinRand{c: c}
			tw := []*rsSk{rsDec(c, rsEnc(c, s))}
			for d := 0; d < depth; d++ {
				o := c.Choose(2, "op")
				op := func(x *rsSk) func() {
					return func() {
						if o == 1 {
							x.Reset()
						} else {
							c.NoErr(x.Update(int64(d)), "update")
						}
					}
				}
				var fs []func()
				for _, x := range tw {
					fs = append(fs, op(x))
				}
				t.do(op(s), fs...)
				img := rsEnc(c, s)
				tw = append(tw, rsDec(c, img))
				for i, x := range tw {
					c.Assert(rsSame(x, s), "answers", "reservoir restored before step %d, after step %d: K=%d N=%d %v, original K=%d N=%d %v", i, d, x.K(), x.N(), x.Samples(), s.K(), s.N(), s.Samples())
					c.Assert(eqBytes(rsEnc(c, x), img), "image", "reservoir restored before step %d is serialized differently after step %d", i, d)
				}
				if len(tw) > 4 {
					tw = append(tw[:1], tw[2:]...)
				}
				c.Step()
				c.Checked()
				c.State(engine.HAny(img))
				c.PruneIfSeen(mix(engine.HAny(deepSig(s)+deepSig(tw)), uint64(d), uint64(rf), uint64(k)))
			}
			c.Outcome(engine.HAny(rsEnc(c, s)))
		},
	}
}

func rsUnDec(c *C, b string) *rsUn {
	u, err := sampling.NewReservoirItemsUnionFromSlice[int64]([]byte(b), rsSerde)
	c.NoErr(err, "decode-union")
	return u
}

func rsUnStr(c *C, u *rsUn) string {
	r, err := u.Result()
	c.NoErr(err, "result")
	if r == nil || r.N() == 0 { // a union that has seen nothing may have no reservoir yet
		return fmt.Sprint(u.MaxK(), " nothing")
	}
	return fmt.Sprint(u.MaxK(), r.K(), r.N(), r.Samples())
}

func rsSerUnion(maxKs []int, alpha []rsIn, nIn int, policies int) engine.Scenario {
	return engine.Scenario{
		Name:       "reservoir-union",
		Bound:      fmt.Sprintf("all sequences of %d inputs from %d reservoirs and resets, restored after every step and continued, %d random policies", nIn, len(alpha), policies),
		ShardDepth: 4,
		Run: func(c *C) {
			maxK := pickInt(c, "maxK", maxKs...)
			t := &twinRand{c: c, policy: true, pol: c.Choose(policies, "policy")}
			u, err := sampling.NewReservoirItemsUnion[int64](maxK)
			c.NoErr(err, "new")
			tw := []*rsUn{rsUnDec(c, rsUnBytes(c, u))}
			for d := 0; d < nIn; d++ {
				o := c.Choose(len(alpha)+1, "input")
				op := func(x *rsUn) func() {
					return func() {
						if o == len(alpha) {
							x.Reset()
						} else {
							rsFeed(c, x, alpha[o], int64(d+1)*100)
						}
					}
				}
				if o < len(alpha) {
					c.Logf("input %v", alpha[o])
				} else {
					c.Logf("reset")
				}
				var fs []func()
				for _, x := range tw {
					fs = append(fs, op(x))
				}
				t.do(op(u), fs...)
				img := rsUnBytes(c, u)
				want := rsUnStr(c, u)
				tw = append(tw, rsUnDec(c, img))
				for i, x := range tw {
					g := rsUnStr(c, x)
					c.Assert(g == want, "union-result", "union restored before step %d: after step %d its result is %s, the original's %s", i, d, g, want)
					c.Assert(rsUnBytes(c, x) == img, "union-image", "union restored before step %d is serialized differently after step %d", i, d)
				}
				c.Step()
				c.Checked()
				c.State(engine.HAny(img))
			}
			c.Outcome(engine.HAny(rsUnBytes(c, u)))
		},
	}
}

// rsLegacy: images of serial version 1 hold the capacity as a 16-bit code, 11 bits of fraction of
// an octave; they restore what a version 2 image with that capacity does.
func rsLegacy() engine.Scenario {
	return engine.Scenario{
		Name:       "reservoir-legacy",
		Bound:      "all 65536 capacity codes of empty version 1 images of reservoirs and of unions; non-empty ones with 1..40 items for the codes of capacities 2..64",
		ShardDepth: 1,
		Run: func(c *C) {
			hi := c.Choose(32, "octave")
			e, err := sampling.NewReservoirItemsSketch[int64](5)
			c.NoErr(err, "new")
			sk := rsEnc(c, e)
			eu, err := sampling.NewReservoirItemsUnion[int64](5)
			c.NoErr(err, "new")
			un := []byte(rsUnBytes(c, eu))
			v1 := func(b []byte, code int) []byte {
				b = append([]byte(nil), b...)
				b[1], b[4], b[5], b[6], b[7] = 1, byte(code), byte(code>>8), 0, 0
				return b
			}
			for lo := 0; lo < 2048; lo++ {
				code := hi<<11 | lo
				k := int64(1)<<hi + int64(lo)<<hi>>11
				d, err := sampling.NewReservoirItemsSketchFromSlice[int64](v1(sk, code), rsSerde)
				if code > 0xf7ff || k < 2 {
					c.Assert(err != nil, "legacy-bad", "capacity code %#x accepted", code)
					continue
				}
				c.NoErr(err, "decode")
				c.Assert(int64(d.K()) == k && d.N() == 0, "legacy-k", "capacity code %#x restored as %d, means %d", code, d.K(), k)
				u, err := sampling.NewReservoirItemsUnionFromSlice[int64](v1(un, code), rsSerde)
				c.NoErr(err, "decode")
				c.Assert(int64(u.MaxK()) == k, "legacy-max-k", "capacity code %#x of a union restored as %d, means %d", code, u.MaxK(), k)
				c.Step()
				if k > 64 || int64(lo)<<hi&2047 != 0 {
					continue
				}
				s, err := sampling.NewReservoirItemsSketch[int64](int(k))
				c.NoErr(err, "new")
				gu, err := sampling.NewReservoirItemsUnion[int64](int(k))
				c.NoErr(err, "new")
				c.RandPolicy(lo%6, 0)
				for n := int64(1); n <= 40; n++ {
					s.Update(n * 3)
					b := rsEnc(c, s)
					d := rsDec(c, v1(b, code))
					c.Assert(rsSame(d, s), "legacy-content", "version 1 image restored as K=%d N=%d %v, was K=%d N=%d %v", d.K(), d.N(), d.Samples(), s.K(), s.N(), s.Samples())
					c.Assert(eqBytes(rsEnc(c, d), b), "legacy-image", "restored from version 1 it is serialized differently")
					gu.Reset()
					c.NoErr(gu.UpdateSketch(s), "union")
					ub := []byte(rsUnBytes(c, gu))
					ub1 := append(v1(ub[:8], code), v1(ub[8:], code)...)
					du, err := sampling.NewReservoirItemsUnionFromSlice[int64](ub1, rsSerde)
					c.NoErr(err, "decode")
					c.Assert(rsUnStr(c, du) == rsUnStr(c, gu), "legacy-union", "union of version 1 restored as %s, was %s", rsUnStr(c, du), rsUnStr(c, gu))
					c.Step()
				}
			}
			c.Checked()
		},
	}
}

// svFaults: an encoder that cannot write everything says so.
func svFaults() engine.Scenario {
	return engine.Scenario{
		Name:       "write-faults",
		Bound:      "writer failing after every byte, for sketches and unions in every mode",
		ShardDepth: 2,
		Run: func(c *C) {
			x := voInputs[c.Choose(len(voInputs), "input")]
			un := c.Choose(2, "union") == 1 || x.res
			var enc func(w *failWriter) error
			var full []byte
			if un {
				u := voUnNew(c, 3)
				c.RandPolicy(4, 0)
				voFeed(c, u, x, 10)
				full = []byte(voUnBytes(c, u))
				enc = func(w *failWriter) error {
					e := sampling.NewVarOptItemsUnionEncoder[int64](w, voSerde)
					return e.Encode(u)
				}
			} else {
				s := voMake(c, x, 10)
				full = voBytes(c, s)
				enc = func(w *failWriter) error {
					e := sampling.NewVarOptItemsSketchEncoder[int64](w, voSerde)
					return e.Encode(s)
				}
			}
			for l := 0; l <= len(full); l++ {
				err := enc(&failWriter{limit: l})
				c.Assert((err == nil) == (l == len(full)), "write-fault", "the writer takes %d of %d bytes: error %v", l, len(full), err)
				c.Assert(err == nil || errors.Is(err, errWrite), "write-fault", "writer error became %v", err)
				c.Step()
			}
			c.State(engine.HAny(full))
		},
	}
}

func init() {
	engine.Register(engine.Property{
		ID: "C28",
		Assumptions: []string{
			"the sources of randomness are the top-level functions of math/rand",
			"the restored object is given the random outcomes the original was given, in the same order",
		},
		Scenarios: func(tier string) []engine.Scenario {
			long := voCodec[int64]{voSerde, func(i int) int64 { return int64(i) }}
			str := voCodec[string]{common.ItemSketchStringSerDe{}, svStr}
			flt := voCodec[float64]{common.ItemSketchDoubleSerDe{}, func(i int) float64 { return []float64{0, -1.5, math.Inf(1), 1e-310, 7}[i%5] }}
			if tier == "thorough" {
				return []engine.Scenario{
					voSerTree("varopt", long, []int{1, 2, 3, 4, 5}, []float64{1, 2, 5}, 9),
					voSerTree("varopt-wide", long, []int{1, 2, 3, 4}, []float64{0.1, 0.3, 1e6}, 9),
					voSerTree("varopt-string", str, []int{1, 2, 3, 4}, []float64{1, 10}, 9),
					voSerTree("varopt-double", flt, []int{2, 3}, []float64{1, 3}, 8),
					voSerLong([]int{1, 2, 5, 16, 17, 40, 100, 300}, []int{0, 1, 2, 5, 15, 16, 17, 18, 33, 40, 41, 100, 101, 400}),
					voSerUnion("union", []int{1, 2, 3, 4, 5, 8}, voInputs, 3, 4),
					voSerUnion("union-random", []int{1, 2, 3, 5}, voInputs[:9], 2, 0),
					voSerUnion("union-marked", []int{5, 6, 7, 9, 12, 25, 40}, svMarked, 5, 4),
					rsSerTree([]int{2, 3, 4, 17, 20}, 9),
					rsSerUnion([]int{2, 3, 4, 8}, svReservoirs, 4, 4),
					rsLegacy(),
					svFaults(),
				}
			}
			return []engine.Scenario{
				voSerTree("varopt", long, []int{1, 2, 3, 4}, []float64{1, 2, 5}, 6),
				voSerTree("varopt-wide", long, []int{2, 3}, []float64{0.1, 1e6}, 7),
				voSerTree("varopt-string", str, []int{1, 3}, []float64{1, 10}, 6),
				voSerTree("varopt-double", flt, []int{2}, []float64{1, 3}, 5),
				voSerLong([]int{1, 5, 16, 40}, []int{0, 1, 5, 16, 17, 41, 100}),
				voSerUnion("union", []int{1, 2, 3, 5}, voInputs, 2, 3),
				voSerUnion("union-random", []int{2, 3}, voInputs[:6], 2, 0),
				voSerUnion("union-marked", []int{6, 9, 25}, svMarked, 3, 3),
				rsSerTree([]int{2, 3, 17}, 6),
				rsSerUnion([]int{2, 3, 8}, svReservoirs, 3, 3),
				rsLegacy(),
				svFaults(),
			}
		},
	})
}

var svReservoirs = []rsIn{
	{2, 0, 0}, {2, 1, 0}, {2, 2, 0}, {2, 7, 0}, {3, 2, 0}, {3, 3, 0}, {3, 50, 0}, {5, 4, 0}, {5, 9, 0}, {3, 5, 1}, {4, 2, 2},
}

// svMarked also has an input with so many light items that their marks take several bytes.
var svMarked = append([]voIn{{k: 11, h: []float64{20}, r: 10, tot: 30, n: 17}}, voMarked...)
