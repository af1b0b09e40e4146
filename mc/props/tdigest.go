package props

import (
	"bytes"
	"encoding/binary"
	"errors"
	"math"
	"sort"

	"github.com/apache/datasketches-go/tdigest"
	"verifmc/engine"
)

// C19 (t-digest answers) and C20 (its serialization).

// tdRef is what the digest was fed: the exact multiset.
type tdRef struct {
	vals []float64
	sum  float64
	abs  float64
}

func (r *tdRef) add(v float64) {
	r.vals = append(r.vals, v)
	r.sum += v
	r.abs += math.Abs(v)
}

func (r *tdRef) addAll(o *tdRef) {
	for _, v := range append([]float64{}, o.vals...) {
		r.add(v)
	}
}

func (r *tdRef) sorted() []float64 {
	s := append([]float64{}, r.vals...)
	sort.Float64s(s)
	return s
}

type tdImg struct {
	k        int
	flags    byte
	min, max float64
	means    []float64
	weights  []uint64
	buffer   []float64
	n        uint64
}

// parseTD reads an image by the published layout.
func parseTD(c *C, b []byte) (g tdImg) {
	c.Assert(len(b) >= 8 && b[1] == 1 && b[2] == 20, "layout", "image header % x", b[:8])
	g.k = int(binary.LittleEndian.Uint16(b[3:]))
	g.flags = b[5]
	f := func(o int) float64 { return math.Float64frombits(binary.LittleEndian.Uint64(b[o:])) }
	switch {
	case g.flags&1 != 0:
		c.Assert(len(b) == 8 && b[0] == 1, "layout", "empty image has %d bytes, preamble longs %d", len(b), b[0])
	case g.flags&2 != 0:
		c.Assert(len(b) == 16 && b[0] == 1, "layout", "single value image has %d bytes, preamble longs %d", len(b), b[0])
		g.min, g.max, g.n = f(8), f(8), 1
		g.means, g.weights = []float64{f(8)}, []uint64{1}
	default:
		nc, nb := int(binary.LittleEndian.Uint32(b[8:])), int(binary.LittleEndian.Uint32(b[12:]))
		c.Assert(b[0] == 2 && len(b) == 32+16*nc+8*nb, "layout", "image has %d bytes, %d centroids and %d buffered values, preamble longs %d", len(b), nc, nb, b[0])
		g.min, g.max = f(16), f(24)
		o := 32
		for i := 0; i < nc; i++ {
			g.means = append(g.means, f(o))
			w := binary.LittleEndian.Uint64(b[o+8:])
			g.weights = append(g.weights, w)
			g.n += w
			o += 16
		}
		for i := 0; i < nb; i++ {
			g.buffer = append(g.buffer, f(o))
			g.n++
			o += 8
		}
	}
	return
}

func tdCapacity(k int) int {
	if k < 30 {
		return 2*k + 30
	}
	return 2*k + 10
}

func tdClone(c *C, d *tdigest.Double) *tdigest.Double {
	b, err := tdigest.EncodeDouble(d, true)
	c.NoErr(err, "encode")
	r, err := tdigest.DecodeDouble(b)
	c.NoErr(err, "decode")
	return r
}

// tdLight checks what no query side effect is needed for.
func tdLight(c *C, d *tdigest.Double, ref *tdRef) {
	c.Assert(d.TotalWeight() == uint64(len(ref.vals)), "weight", "total weight %d after %d finite values", d.TotalWeight(), len(ref.vals))
	c.Assert(d.IsEmpty() == (len(ref.vals) == 0), "isempty", "IsEmpty=%v after %d values", d.IsEmpty(), len(ref.vals))
	mn, e1 := d.MinValue()
	mx, e2 := d.MaxValue()
	if len(ref.vals) == 0 {
		c.Assert(errors.Is(e1, tdigest.ErrEmpty) && errors.Is(e2, tdigest.ErrEmpty), "empty-error", "extremes of an empty digest: %v %v", e1, e2)
		return
	}
	c.NoErr(e1, "min")
	c.NoErr(e2, "max")
	rn, rx := ref.vals[0], ref.vals[0]
	for _, v := range ref.vals {
		rn, rx = math.Min(rn, v), math.Max(rx, v)
	}
	c.Assert(mn == rn, "min", "minimum %v, want %v", mn, rn)
	c.Assert(mx == rx, "max", "maximum %v, want %v", mx, rx)
}

type tdAnswers struct {
	n        uint64
	min, max float64
	ranks    []float64
	quants   []float64
}

func tdGrid(s []float64, limit int) []float64 {
	g := []float64{math.Inf(-1), math.Inf(1)}
	if len(s) == 0 {
		return append(g, 0)
	}
	step := 1
	if len(s) > limit {
		step = len(s)/limit + 1
	}
	for i := 0; i < len(s); i += step {
		g = append(g, s[i], math.Nextafter(s[i], math.Inf(-1)), math.Nextafter(s[i], math.Inf(1)))
		if i+1 < len(s) {
			g = append(g, s[i]/2+s[i+1]/2)
		}
	}
	mn, mx := s[0], s[len(s)-1]
	g = append(g, mx, math.Nextafter(mx, math.Inf(-1)), mn-1, mx+1)
	if len(s) > 2 {
		g = append(g, s[1], s[len(s)-2], mn*0.75+s[1]*0.25, mx*0.75+s[len(s)-2]*0.25, mn/2+mx/2)
	}
	sort.Float64s(g)
	return g
}

func tdRankGrid(n int) []float64 {
	w := float64(n)
	r := []float64{0, 1, 0.5, 0.25, 0.75, 1e-9, 1 - 1e-9, 0.01, 0.99, 0.999, 0.001, math.Nextafter(1, 0)}
	for i := 0.0; i <= 4; i += 0.25 {
		if i <= w {
			r = append(r, i/w, 1-i/w)
		}
	}
	m := 2 * n
	if m > 160 {
		m = 160
	}
	for i := 0; i <= m; i++ {
		r = append(r, float64(i)/float64(m))
	}
	sort.Float64s(r)
	return r
}

func tdAsk(c *C, d *tdigest.Double, vals, ranks []float64) tdAnswers {
	var a tdAnswers
	var err error
	a.n = d.TotalWeight()
	a.min, err = d.MinValue()
	c.NoErr(err, "min")
	a.max, err = d.MaxValue()
	c.NoErr(err, "max")
	for _, v := range vals {
		r, err := d.Rank(v)
		c.NoErr(err, "rank")
		a.ranks = append(a.ranks, r)
	}
	for _, r := range ranks {
		q, err := d.Quantile(r)
		c.NoErr(err, "quantile")
		a.quants = append(a.quants, q)
	}
	return a
}

func (a tdAnswers) same(b tdAnswers) bool {
	if a.n != b.n || a.min != b.min || a.max != b.max || len(a.ranks) != len(b.ranks) || len(a.quants) != len(b.quants) {
		return false
	}
	for i := range a.ranks {
		if a.ranks[i] != b.ranks[i] {
			return false
		}
	}
	for i := range a.quants {
		if a.quants[i] != b.quants[i] {
			return false
		}
	}
	return true
}

// tdFull asks everything of d (which compresses it).
func tdFull(c *C, d *tdigest.Double, ref *tdRef, limit int) {
	tdLight(c, d, ref)
	n := len(ref.vals)
	if n == 0 {
		_, e1 := d.Rank(0)
		_, e2 := d.Quantile(0.5)
		_, e3 := d.CDF([]float64{0})
		_, e4 := d.PMF([]float64{0})
		c.Assert(errors.Is(e1, tdigest.ErrEmpty) && errors.Is(e2, tdigest.ErrEmpty) && e3 != nil && e4 != nil, "empty-error", "queries of an empty digest: %v %v %v %v", e1, e2, e3, e4)
		return
	}
	s := ref.sorted()
	tdQueries(c, d, s[0], s[n-1], uint64(n), tdGrid(s, limit))
	b, err := tdigest.EncodeDouble(d, true)
	c.NoErr(err, "encode")
	g := parseTD(c, b)
	c.Assert(len(g.buffer) == 0, "compressed", "%d values still buffered after queries", len(g.buffer))
	c.Assert(g.n == uint64(n), "centroid-weight", "centroids weigh %d after %d values", g.n, n)
	c.Assert(len(g.means) <= tdCapacity(g.k), "centroid-count", "%d centroids with k=%d (capacity %d)", len(g.means), g.k, tdCapacity(g.k))
	sum := 0.0
	for i, m := range g.means {
		c.Assert(m >= s[0] && m <= s[n-1], "centroid-range", "centroid %d mean %v outside [%v,%v]", i, m, s[0], s[n-1])
		c.Assert(i == 0 || g.means[i-1] <= m, "centroid-order", "centroid means %v then %v", g.means[max(i-1, 0)], m)
		sum += m * float64(g.weights[i])
	}
	if ref.abs < 1e300 {
		c.Assert(math.Abs(sum-ref.sum) <= 1e-9*ref.abs+1e-300, "centroid-sum", "centroids sum to %v, values to %v", sum, ref.sum)
	}
	// ranks reflect the weight below: a value strictly between two centroids has between the
	// weight up to the middle of the one and the weight up to the middle of the other
	W := float64(n)
	below := 0.0
	for i := 0; i+1 < len(g.means); i++ {
		lo := below + float64(g.weights[i])/2
		below += float64(g.weights[i])
		hi := below + float64(g.weights[i+1])/2
		x := g.means[i]/2 + g.means[i+1]/2
		if x > g.means[i] && x < g.means[i+1] {
			r, err := d.Rank(x)
			c.NoErr(err, "rank")
			c.Assert(r >= lo/W-1e-12 && r <= hi/W+1e-12, "rank-weight", "rank %v of %v, between centroids at %v and %v", r, x, lo/W, hi/W)
		}
		q, err := d.Quantile((lo + hi) / 2 / W)
		c.NoErr(err, "quantile")
		tol := 1e-9 * (math.Abs(g.means[i]) + math.Abs(g.means[i+1]))
		c.Assert(q >= g.means[i]-tol && q <= g.means[i+1]+tol, "quantile-weight", "quantile %v at rank %v, between centroids %v and %v", q, (lo+hi)/2/W, g.means[i], g.means[i+1])
		if gap := g.means[i+1] - g.means[i]; g.weights[i] > 1 && g.weights[i+1] > 1 && gap > 1e-6*(math.Abs(g.means[i])+math.Abs(g.means[i+1])) && gap > 1e-290 && !math.IsInf(gap, 0) {
			// between two centroids of several values, rank and quantile are each other's inverse
			for _, f := range []float64{0.2, 0.5, 0.8} {
				at := (lo + f*(hi-lo)) / W
				q, err := d.Quantile(at)
				c.NoErr(err, "quantile")
				r, err := d.Rank(q)
				c.NoErr(err, "rank")
				c.Assert(math.Abs(r-at) <= 0.01*(hi-lo)/W, "rank-quantile", "quantile %v at rank %v, whose rank is %v", q, at, r)
			}
		}
	}
	c.Checked()
}

// tdQueries checks ranks, quantiles, CDF and PMF of d against each other and the extremes.
func tdQueries(c *C, d *tdigest.Double, mn, mx float64, n uint64, vals []float64) {
	ranks := tdRankGrid(int(n))
	a := tdAsk(c, d, vals, ranks)
	c.Assert(a.n == n && a.min == mn && a.max == mx, "extremes", "n=%d min=%v max=%v, want %d %v %v", a.n, a.min, a.max, n, mn, mx)
	for i, r := range a.ranks {
		c.Assert(r >= 0 && r <= 1, "rank-range", "rank %v of %v", r, vals[i])
		c.Assert(i == 0 || a.ranks[i-1] <= r+1e-12, "rank-monotone", "rank %v at %v but %v at %v", a.ranks[max(i-1, 0)], vals[max(i-1, 0)], r, vals[i])
		if vals[i] < mn {
			c.Assert(r == 0, "rank-below", "rank %v of %v below the minimum %v", r, vals[i], mn)
		}
		if vals[i] > mx {
			c.Assert(r == 1, "rank-above", "rank %v of %v above the maximum %v", r, vals[i], mx)
		}
	}
	span := math.Max(math.Abs(mn), math.Abs(mx))
	for i, q := range a.quants {
		c.Assert(q >= mn && q <= mx, "quantile-range", "quantile %v at rank %v outside [%v,%v]", q, ranks[i], mn, mx)
		c.Assert(i == 0 || a.quants[i-1] <= q+1e-12*span, "quantile-monotone", "quantile %v at rank %v but %v at rank %v", a.quants[max(i-1, 0)], ranks[max(i-1, 0)], q, ranks[i])
	}
	c.Assert(a.quants[0] == mn && a.quants[len(a.quants)-1] == mx, "quantile-ends", "quantiles at 0 and 1 are %v and %v, extremes %v and %v", a.quants[0], a.quants[len(a.quants)-1], mn, mx)
	// split points: all distinct grid values
	var sp []float64
	for _, v := range vals {
		if !math.IsInf(v, 0) && (len(sp) == 0 || v > sp[len(sp)-1]) {
			sp = append(sp, v)
		}
	}
	for _, sps := range [][]float64{sp, sp[:1], sp[len(sp)/2 : len(sp)/2+1], {}} {
		keep := append([]float64{}, sps...)
		cdf, err := d.CDF(sps)
		c.NoErr(err, "cdf")
		pmf, err := d.PMF(sps)
		c.NoErr(err, "pmf")
		c.Assert(len(cdf) == len(sps)+1 && len(pmf) == len(sps)+1, "cdf-size", "%d split points, %d CDF entries and %d masses", len(sps), len(cdf), len(pmf))
		tot := 0.0
		for i := range cdf {
			if i < len(sps) {
				r, err := d.Rank(sps[i])
				c.NoErr(err, "rank")
				c.Assert(cdf[i] == r, "cdf-rank", "CDF %v at %v, rank %v", cdf[i], sps[i], r)
				c.Assert(sps[i] == keep[i], "cdf-splits", "split point %d changed from %v to %v", i, keep[i], sps[i])
			}
			c.Assert(pmf[i] >= -1e-12, "pmf-negative", "mass %v in bucket %d", pmf[i], i)
			tot += pmf[i]
			c.Assert(math.Abs(tot-cdf[i]) < 1e-9, "pmf-cdf", "masses up to %d sum to %v, CDF %v", i, tot, cdf[i])
		}
		c.Assert(cdf[len(sps)] == 1 && math.Abs(tot-1) < 1e-9, "pmf-total", "masses sum to %v, last CDF %v", tot, cdf[len(sps)])
	}
	for _, bad := range [][]float64{{2, 1}, {1, 1}, {math.NaN()}, {0, math.NaN()}} {
		_, e1 := d.CDF(bad)
		_, e2 := d.PMF(bad)
		c.Assert(e1 != nil && e2 != nil, "bad-splits", "split points %v accepted", bad)
	}
	for _, bad := range []float64{-1e-9, 1 + 1e-9, 2, -1, math.Inf(1), math.Inf(-1), math.NaN()} {
		_, e := d.Quantile(bad)
		c.Assert(e != nil, "bad-rank", "rank %v accepted", bad)
	}
	_, e := d.Rank(math.NaN())
	c.Assert(e != nil, "nan-rank", "rank of NaN accepted")
	c.Assert(a.same(tdAsk(c, d, vals, ranks)), "answers-change", "the same queries answered differently the second time")
}

var tdBadValues = []float64{math.NaN(), math.Inf(1), math.Inf(-1)}

func tdUpdate(c *C, d *tdigest.Double, ref *tdRef, v float64) {
	err := d.Update(v)
	if math.IsNaN(v) || math.IsInf(v, 0) {
		c.Assert(err != nil, "nonfinite-accepted", "Update(%v) returned no error", v)
		return
	}
	c.NoErr(err, "update")
	ref.add(v)
}

func tdNew(c *C, k int) *tdigest.Double {
	d, err := tdigest.NewDouble(uint16(k))
	c.NoErr(err, "new")
	c.Assert(int(d.K()) == k, "k", "K=%d, want %d", d.K(), k)
	return d
}

func tdVal(shape, i, n int) float64 {
	switch shape {
	case 7: // clusters far apart
		return float64(i%5)*1e6 + float64(i*7%n)*1e-3
	case 8: // heavy tails of both signs
		return math.Copysign(math.Pow(1.5, float64(i*5%61)), float64(i%2)-0.5)
	case 9: // neighbouring floats
		return math.Float64frombits(math.Float64bits(0.1) + uint64(i*3%17))
	case 10: // two huge magnitudes of opposite sign
		return []float64{-math.MaxFloat64, math.MaxFloat64, 0}[i%3]
	case 11: // huge magnitudes of opposite sign, spread
		return math.Copysign(1e307*(1+float64(i*7%17)), float64(i%2)-0.5)
	case 12: // tiny and subnormal
		return float64(i%9-4) * math.SmallestNonzeroFloat64
	case 13: // the two limits, one after the other
		return math.Copysign(math.MaxFloat64, float64(2*i-n))
	case 14:
		return math.Copysign(math.MaxFloat64, float64(n-2*i))
	case 15: // the two limits, mixed
		return math.Copysign(math.MaxFloat64, float64(i*7%3-1))
	default:
		return float64(streamVal(shape, i, n))
	}
}

const tdShapes = 16

// tdOther builds the digest to merge in.
func tdOther(c *C, kind int, k int) (*tdigest.Double, *tdRef) {
	o, r := tdNew(c, k), &tdRef{}
	n, sh := 0, 0
	switch kind {
	case 0: // empty
	case 1:
		n, sh = 1, 3
	case 2: // below everything, buffered
		tdUpdate(c, o, r, -50)
		tdUpdate(c, o, r, -40)
	case 3: // compressed, wide
		n, sh = 60, 2
	case 4: // compressed with a new buffer
		n, sh = 45, 5
	case 5: // long, all one value
		n, sh = 300, 3
	case 6: // clusters, several compressions
		n, sh = 700, 7
	}
	for i := 0; i < n; i++ {
		tdUpdate(c, o, r, tdVal(sh, i, max(n, 1)))
	}
	if kind >= 3 {
		_, err := o.Quantile(0.5)
		c.NoErr(err, "quantile")
	}
	if kind == 4 {
		for _, v := range []float64{100, -100, 7} {
			tdUpdate(c, o, r, v)
		}
	}
	return o, r
}

func tdMerge(c *C, d, o *tdigest.Double, dr, or *tdRef) {
	var before []byte
	var err error
	if o != d {
		before, err = tdigest.EncodeDouble(o, true)
		c.NoErr(err, "encode")
	}
	err = d.Merge(o)
	if len(or.vals) == 0 {
		c.Assert(err == nil || errors.Is(err, tdigest.ErrEmpty), "merge-empty", "merging an empty digest: %v", err)
	} else {
		c.NoErr(err, "merge")
	}
	dr.addAll(or)
	if o != d {
		after, err := tdigest.EncodeDouble(o, true)
		c.NoErr(err, "encode")
		c.Assert(eqBytes(before, after), "merge-operand", "Merge changed its argument")
	}
}

func tdHistory(depth int, bursts bool) func(c *C) {
	singles := []float64{0, 1, -2, 2.5, 1e308, -1e308}
	return func(c *C) {
		k := pickInt(c, "k", 10, 11, 30)
		d, ref := tdNew(c, k), &tdRef{}
		for i := 0; i < depth; i++ {
			nOps := len(singles) + 1 + 7 + 1 + 1 + 1
			if bursts {
				nOps += 6
			}
			op := c.Choose(nOps+1, "op")
			if op == nOps {
				break
			}
			switch {
			case op < len(singles):
				c.Logf("update %v", singles[op])
				tdUpdate(c, d, ref, singles[op])
			case op == len(singles):
				c.Logf("non-finite updates")
				for _, v := range tdBadValues {
					tdUpdate(c, d, ref, v)
				}
			case op < len(singles)+8:
				kind := op - len(singles) - 1
				o, or := tdOther(c, kind, 10+kind*7)
				c.Logf("merge other kind %d (k=%d)", kind, o.K())
				tdMerge(c, d, o, ref, or)
			case op == len(singles)+8:
				c.Logf("merge itself")
				tdMerge(c, d, d, ref, &tdRef{vals: append([]float64{}, ref.vals...)})
			case op == len(singles)+9:
				c.Logf("full query")
				tdFull(c, d, ref, 12)
			case op == len(singles)+10:
				c.Logf("encode without buffer")
				_, err := tdigest.EncodeDouble(d, false)
				c.NoErr(err, "encode")
			default:
				j := op - len(singles) - 11
				n := []int{10, 40, 199, 201, 500, 3}[j]
				sh := []int{0, 2, 4, 1, 8, 10}[j]
				c.Logf("burst of %d values, shape %d", n, sh)
				for i := 0; i < n; i++ {
					tdUpdate(c, d, ref, tdVal(sh, i, n))
				}
			}
			tdLight(c, d, ref)
			c.Step()
			b, err := tdigest.EncodeDouble(d, true)
			c.NoErr(err, "encode")
			c.State(engine.HAny(b))
		}
		cl := tdClone(c, d)
		tdFull(c, cl, ref, 12)
		c.Outcome(mix(uint64(len(ref.vals)), math.Float64bits(ref.sum)))
	}
}

func tdStreams(ks []int, n int, every int) func(c *C) {
	return func(c *C) {
		k := pickInt(c, "k", ks...)
		shape := c.Choose(tdShapes, "shape")
		c.Logf("shape=%d", shape)
		live := c.Choose(3, "queries") // 0 none, 1 on the digest itself, 2 rarely
		d, ref := tdNew(c, k), &tdRef{}
		bufCap := 4 * tdCapacity(k)
		for i := 0; i < n; i++ {
			tdUpdate(c, d, ref, tdVal(shape, i, n))
			m := i + 1
			full := m <= 40 || m%every == 0 || m%bufCap <= 1 || m == n
			if !full {
				continue
			}
			tdLight(c, d, ref)
			c.Step()
			if live == 1 || live == 2 && m%bufCap == 1 {
				tdFull(c, d, ref, 20)
			} else {
				tdFull(c, tdClone(c, d), ref, 20)
			}
		}
		b, err := tdigest.EncodeDouble(d, false)
		c.NoErr(err, "encode")
		c.State(engine.HAny(b))
		c.Outcome(engine.HAny(b))
	}
}

// tdMergeTree merges p digests of a stream in a chosen order.
func tdMergeTree(parts, maxPer int) func(c *C) {
	return func(c *C) {
		ks := []int{10, 100}
		var ds []*tdigest.Double
		var rs []*tdRef
		shape := pickInt(c, "shape", 0, 2, 3, 4, 7, 8, 9, 11)
		for p := 0; p < parts; p++ {
			k := ks[c.Choose(2, "k")]
			n := pickInt(c, "n", 1, 25, maxPer)
			d, r := tdNew(c, k), &tdRef{}
			for i := 0; i < n; i++ {
				tdUpdate(c, d, r, tdVal(shape, i*parts+p, n*parts))
			}
			if c.Choose(2, "compress") == 1 {
				_, err := d.Quantile(0.5)
				c.NoErr(err, "quantile")
			}
			ds, rs = append(ds, d), append(rs, r)
		}
		for len(ds) > 1 {
			a := c.Choose(len(ds), "a")
			b := c.Choose(len(ds)-1, "b")
			if b >= a {
				b++
			}
			tdMerge(c, ds[a], ds[b], rs[a], rs[b])
			tdLight(c, ds[a], rs[a])
			tdFull(c, tdClone(c, ds[a]), rs[a], 15)
			ds = append(ds[:b:b], ds[b+1:]...)
			rs = append(rs[:b:b], rs[b+1:]...)
			c.Step()
		}
		tdFull(c, ds[0], rs[0], 30)
		b, err := tdigest.EncodeDouble(ds[0], true)
		c.NoErr(err, "encode")
		c.State(engine.HAny(b))
	}
}

// tdBuild writes an image by the published layout.
func tdBuild(k int, flags byte, mn, mx float64, means []float64, weights []uint64, buf []float64) []byte {
	var w bytes.Buffer
	w.Write([]byte{2, 1, 20, byte(k), byte(k >> 8), flags, 0, 0})
	p := func(v any) { _ = binary.Write(&w, binary.LittleEndian, v) }
	p(uint32(len(means)))
	p(uint32(len(buf)))
	p(mn)
	p(mx)
	for i := range means {
		p(means[i])
		p(weights[i])
	}
	for _, v := range buf {
		p(v)
	}
	return w.Bytes()
}

func tdBuildCompat(double bool, k int, mn, mx float64, means []float64, weights []uint64) []byte {
	var w bytes.Buffer
	p := func(v any) { _ = binary.Write(&w, binary.BigEndian, v) }
	if double {
		p(uint32(1))
		p(mn)
		p(mx)
		p(float64(k))
		p(uint32(len(means)))
		for i := range means {
			p(float64(weights[i]))
			p(means[i])
		}
	} else {
		p(uint32(2))
		p(mn)
		p(mx)
		p(float32(k))
		p(uint16(len(means) + 3))
		p(uint16(17))
		p(uint16(len(means)))
		for i := range means {
			p(float32(weights[i]))
			p(float32(means[i]))
		}
	}
	return w.Bytes()
}

// tdHeavy asks digests that come from another implementation, whose end centroids may weigh
// more than one, and merges of them.
func tdHeavy() func(c *C) {
	return func(c *C) {
		m := 2 + c.Choose(3, "centroids")
		var means []float64
		var ws []uint64
		var n uint64
		x := 10.0
		for i := 0; i < m; i++ {
			w := uint64([]int{1, 2, 3, 10}[c.Choose(4, "w")])
			ws = append(ws, w)
			n += w
			means = append(means, x)
			x += []float64{0, 1, 8}[c.Choose(3, "gap")]
		}
		mn, mx := means[0], means[m-1]
		if ws[0] > 1 {
			mn -= pickF(c, "below", 0, 3)
		}
		if ws[m-1] > 1 {
			mx += pickF(c, "above", 0, 3)
		}
		var img []byte
		format := c.Choose(3, "format")
		switch format {
		case 0:
			img = tdBuild(100, 0, mn, mx, means, ws, nil)
		default:
			img = tdBuildCompat(format == 1, 100, mn, mx, means, ws)
		}
		c.Logf("format %d min %v max %v means %v weights %v", format, mn, mx, means, ws)
		d, err := tdigest.DecodeDouble(img)
		c.NoErr(err, "decode")
		var grid []float64
		for i := mn - 1; i <= mx+1; i += 0.25 {
			grid = append(grid, i)
		}
		tdQueries(c, d, mn, mx, n, grid)
		o := tdNew(c, 50)
		c.NoErr(o.Update(15), "update")
		c.NoErr(o.Merge(d), "merge")
		a, _ := o.MinValue()
		b, _ := o.MaxValue()
		c.Assert(o.TotalWeight() == n+1 && a == math.Min(mn, 15) && b == math.Max(mx, 15), "merge-extremes", "merged: weight %d min %v max %v; the digest merged in has min %v max %v", o.TotalWeight(), a, b, mn, mx)
		c.State(engine.HAny(img))
		c.Step()
	}
}

// tdDeep doubles a digest by merging copies until it weighs 2^50 values, far beyond 32 bits.
func tdDeep(ks []int) func(c *C) {
	return func(c *C) {
		k, k2 := ks[c.Choose(len(ks), "k")], ks[c.Choose(len(ks), "k2")]
		shape := c.Choose(4, "shape")
		n0 := []int{1, 3, 40, 1000}[c.Choose(4, "n")]
		d, ref := tdNew(c, k), &tdRef{}
		for i := 0; i < n0; i++ {
			tdUpdate(c, d, ref, tdVal(shape, i, n0))
		}
		s := ref.sorted()
		mn, mx, n := s[0], s[len(s)-1], uint64(n0)
		grid := tdGrid(s, 6)
		for step := 0; n < 1<<50; step++ {
			switch step % 3 {
			case 0: // a copy of itself
				c.NoErr(d.Merge(tdClone(c, d)), "merge")
				n *= 2
			case 1: // through a digest of another size
				o := tdNew(c, k2)
				c.NoErr(o.Update(mx), "update")
				c.NoErr(o.Merge(d), "merge")
				c.NoErr(o.Merge(d), "merge")
				c.NoErr(d.Merge(o), "merge")
				n = 3*n + 1
			default: // into a digest of the other size, and on with that
				o := tdNew(c, k2)
				c.NoErr(o.Update(mn), "update")
				c.NoErr(o.Merge(d), "merge")
				c.NoErr(o.Merge(tdClone(c, d)), "merge")
				d, n = o, 2*n+1
				k, k2 = k2, k
			}
			c.Step()
			b, err := tdigest.EncodeDouble(d, true)
			c.NoErr(err, "encode")
			g := parseTD(c, b)
			c.Assert(g.n == n && d.TotalWeight() == n, "weight", "%d values went in, total weight %d, image holds %d", n, d.TotalWeight(), g.n)
			r, err := tdigest.DecodeDouble(b)
			c.NoErr(err, "decode")
			tdQueries(c, d, mn, mx, n, grid)
			tdQueries(c, r, mn, mx, n, grid)
			rg := tdRankGrid(12)
			c.Assert(tdAsk(c, d, grid, rg).same(tdAsk(c, r, grid, rg)), "decoded-answers", "the decoded digest of %d values answers differently", n)
			b, err = tdigest.EncodeDouble(d, false)
			c.NoErr(err, "encode")
			g = parseTD(c, b)
			// (the scale function lets very uneven weights need somewhat more than the capacity)
			c.Assert(g.n == n && len(g.means) <= 2*tdCapacity(g.k), "centroid-weight", "%d centroids weigh %d, want %d", len(g.means), g.n, n)
			c.State(engine.HAny(b))
		}
	}
}

func tdConstruct(c *C) {
	for k := 0; k <= 65535; k++ {
		d, err := tdigest.NewDouble(uint16(k))
		if k < 10 {
			c.Assert(err != nil, "k-accepted", "k=%d accepted", k)
			continue
		}
		c.NoErr(err, "new")
		c.Assert(int(d.K()) == k && d.IsEmpty() && d.TotalWeight() == 0, "new", "new digest: k=%d empty=%v weight=%d", d.K(), d.IsEmpty(), d.TotalWeight())
		if k > 400 {
			k += 997
		}
	}
}

func init() {
	engine.Register(engine.Property{
		ID: "C19",
		Assumptions: []string{
			"quantiles and ranks compared for monotonicity up to 1e-12 (relative for quantiles)",
			"merging an empty digest may report ErrEmpty, and then changes nothing",
		},
		Scenarios: func(tier string) []engine.Scenario {
			th := tier == "thorough"
			d1, d2, n, nm := 4, 3, 5000, 300
			ks := []int{10, 11, 29, 30, 31, 100, 200}
			if th {
				d1, d2, n, nm = 5, 4, 6000, 1500
				ks = []int{10, 11, 20, 29, 30, 31, 50, 100, 200, 500, 1000}
			}
			return []engine.Scenario{
				{Name: "construct", Bound: "every k up to 400 and a stride above", Run: tdConstruct},
				{Name: "history", Bound: "all histories of updates, merges and queries of the given depth", Run: tdHistory(d1, false), ShardDepth: 2},
				{Name: "history-bursts", Bound: "histories that include bursts across compressions", Run: tdHistory(d2, true), ShardDepth: 2},
				{Name: "streams", Bound: "13 stream shapes, several k, every prefix up to 40 and checkpoints", Run: tdStreams(ks, n, 97), ShardDepth: 3},
				{Name: "merge-tree", Bound: "3 digests merged in every order", Run: tdMergeTree(3, nm), ShardDepth: 3},
				{Name: "deep", Bound: "digests of 4 sizes and shapes doubled by merging up to 2^50 values, through digests of other k", Run: tdDeep(ks), ShardDepth: 3},
				{Name: "heavy-ends", Bound: "2-4 centroids, weights {1,2,3,10}, gaps {0,1,8}, three formats", Run: tdHeavy(), ShardDepth: 3},
			}
		},
	})
}
