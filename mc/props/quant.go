package props

import (
	"fmt"
	"math"
	"math/big"
	"sort"

	"github.com/apache/datasketches-go/common"
	"github.com/apache/datasketches-go/kll"
	"github.com/apache/datasketches-go/req"
	"verifmc/engine"
)

// wview is the reference for quantile queries: weighted items in order.
type wview struct {
	v   []int64 // keys, non-decreasing
	cum []int64 // weight up to and including
	n   int64
}

func newWview(items []wit[int64]) *wview {
	sort.Slice(items, func(i, j int) bool { return items[i].v < items[j].v })
	w := &wview{}
	for _, x := range items {
		w.n += x.w
		w.v = append(w.v, x.v)
		w.cum = append(w.cum, w.n)
	}
	return w
}

// withExtremes puts the stream's extremes in when they are not retained (each takes one unit of weight).
func (w *wview) withExtremes(mn, mx int64) *wview {
	r := &wview{n: w.n}
	if w.v[0] != mn {
		r.v = append(r.v, mn)
		r.cum = append(r.cum, 1)
	}
	r.v = append(r.v, w.v...)
	r.cum = append(r.cum, w.cum...)
	if w.v[len(w.v)-1] != mx {
		r.cum[len(r.cum)-1]--
		r.v = append(r.v, mx)
		r.cum = append(r.cum, w.n)
	}
	return r
}

func (w *wview) nat(x int64, incl bool) int64 {
	i := sort.Search(len(w.v), func(i int) bool {
		if incl {
			return w.v[i] > x
		}
		return w.v[i] >= x
	})
	if i == 0 {
		return 0
	}
	return w.cum[i-1]
}

func (w *wview) rank(x int64, incl bool) float64 {
	return float64(w.nat(x, incl)) / float64(w.n)
}

// naturals returns the natural ranks a normalized rank may stand for (two when rank*n is within
// rounding of an integer).
func (w *wview) naturals(r float64, incl bool) []int64 {
	p := new(big.Float).SetPrec(200).Mul(big.NewFloat(r), new(big.Float).SetInt64(w.n))
	fl, _ := p.Int64() // towards zero
	frac, _ := new(big.Float).Sub(p, new(big.Float).SetInt64(fl)).Float64()
	tol := 1e-7
	if w.n > 1e7 {
		tol = math.Max(1e-7, float64(w.n)*3e-16)
	}
	switch {
	case frac < tol || frac > 1-tol:
		k := fl
		if frac > 0.5 {
			k++
		}
		if frac == 0 || w.n <= 1e7 && (frac < 4e-8 || frac > 1-4e-8) {
			return []int64{k}
		}
		if incl {
			return []int64{k, k + 1}
		}
		return []int64{k - 1, k}
	case incl:
		return []int64{fl + 1}
	default:
		return []int64{fl}
	}
}

func (w *wview) quantiles(r float64, incl bool) []int64 {
	var out []int64
	for _, nr := range w.naturals(r, incl) {
		i := sort.Search(len(w.cum), func(i int) bool {
			if incl {
				return w.cum[i] >= nr
			}
			return w.cum[i] > nr
		})
		if i == len(w.cum) {
			i--
		}
		out = append(out, w.v[i])
	}
	return out
}

func in64(x int64, s []int64) bool {
	for _, y := range s {
		if x == y {
			return true
		}
	}
	return false
}

// qsk adapts a quantile sketch under test (keys are int64s).
type qsk interface {
	rank(x int64, incl bool) (float64, error)
	ranks(x []int64, incl bool) ([]float64, error)
	quantile(r float64, incl bool) (int64, error)
	quantiles(r []float64, incl bool) ([]int64, error)
	cdf(x []int64, incl bool) ([]float64, error)
	pmf(x []int64, incl bool) ([]float64, error)
	items() []wit[int64]
	view() ([]int64, []int64, []int64, error) // keys, cumulative weights, weights
	extremes() (int64, int64, error)
	count() uint64
	upd(x int64) error
	other(q int) string // further queries: description of their answers
	name() string
	queryView(w *wview) *wview
	checkOther(c *C, w *wview)
}

func gridKeys(w *wview, mn, mx int64) []int64 {
	seen := map[int64]bool{}
	var g []int64
	add := func(x int64) {
		if !seen[x] {
			seen[x] = true
			g = append(g, x)
		}
	}
	add(mn - 1)
	add(mn)
	add(mn + 1)
	add(mx - 1)
	add(mx)
	add(mx + 1)
	st := 1
	if len(w.v) > 60 {
		st = len(w.v) / 60
	}
	for i := 0; i < len(w.v); i += st {
		add(w.v[i] - 1)
		add(w.v[i])
		add(w.v[i] + 1)
	}
	add(w.v[len(w.v)-1])
	sort.Slice(g, func(i, j int) bool { return g[i] < g[j] })
	return g
}

func gridRanks(w *wview) []float64 {
	g := []float64{0, 1, 0.5, 0.25, 1.0 / 3, 0.1, 0.9, 0.99, 1e-9, 1 - 1e-9}
	st := 1
	if len(w.cum) > 50 {
		st = len(w.cum) / 50
	}
	n := float64(w.n)
	for i := 0; i < len(w.cum); i += st {
		x := float64(w.cum[i])
		g = append(g, x/n, (x-0.5)/n)
		if x/n < 1 {
			g = append(g, math.Min(1, (x+0.5)/n))
		}
	}
	sort.Float64s(g)
	return g
}

// checkQueries compares every query with its definition on the retained weighted items.
func checkQueries(c *C, s qsk) {
	c.Assert(s.count() > 0, "harness", "empty")
	raw := newWview(s.items())
	mn, mx, err := s.extremes()
	c.NoErr(err, "extremes")
	w := s.queryView(raw)
	keys := gridKeys(w, mn, mx)
	for _, incl := range []bool{true, false} {
		prev := -1.0
		want := make([]float64, len(keys))
		for i, x := range keys {
			r, err := s.rank(x, incl)
			want[i] = w.rank(x, incl)
			if err != nil || r != want[i] {
				c.Fail("rank", "%s: rank(%d, inclusive=%v) = %v err %v, weight of such items gives %v", s.name(), x, incl, r, err, want[i])
			}
			c.Assert(r >= prev && r >= 0 && r <= 1, "rank-monotone", "%s: rank(%d, inclusive=%v) = %v after %v", s.name(), x, incl, r, prev)
			prev = r
		}
		rs, err := s.ranks(keys, incl)
		c.NoErr(err, "ranks")
		c.Assert(len(rs) == len(want), "ranks", "%d ranks", len(rs))
		for i := range rs {
			c.Assert(rs[i] == want[i], "ranks", "%s: ranks[%d]=%v, want %v", s.name(), i, rs[i], want[i])
		}
		// quantiles
		grid := gridRanks(w)
		var prevQ int64
		var qs []int64
		for i, r := range grid {
			q, err := s.quantile(r, incl)
			ok := w.quantiles(r, incl)
			if err != nil || !in64(q, ok) {
				c.Fail("quantile", "%s: quantile(%v, inclusive=%v) = %d err %v, by definition %v", s.name(), r, incl, q, err, ok)
			}
			c.Assert(q >= mn && q <= mx && (i == 0 || q >= prevQ), "quantile-monotone", "%s: quantile(%v, inclusive=%v) = %d after %d, range %d..%d", s.name(), r, incl, q, prevQ, mn, mx)
			prevQ = q
			qs = append(qs, q)
		}
		qq, err := s.quantiles(grid, incl)
		c.NoErr(err, "quantiles")
		for i := range qq {
			c.Assert(qq[i] == qs[i], "quantiles", "%s: quantiles[%d]=%d, one by one %d", s.name(), i, qq[i], qs[i])
		}
		for _, r := range []float64{-0.001, 1.001, math.Inf(1), math.Inf(-1), math.NaN()} {
			_, err := s.quantile(r, incl)
			c.Assert(err != nil, "rank-range", "%s: quantile(%v) accepted", s.name(), r)
			_, err = s.quantiles([]float64{0.5, r}, incl)
			c.Assert(err != nil, "rank-range", "%s: quantiles(%v) accepted", s.name(), r)
		}
		// CDF and PMF at several choices of split points
		sets := [][]int64{{}, keys}
		for i := 0; i < len(keys); i += 1 + len(keys)/9 {
			sets = append(sets, []int64{keys[i]})
			if i+3 < len(keys) {
				sets = append(sets, []int64{keys[i], keys[i+3]}, keys[i:])
			}
		}
		for _, sp := range sets {
			cdf, err := s.cdf(sp, incl)
			pmf, err2 := s.pmf(sp, incl)
			if err != nil || err2 != nil || len(cdf) != len(sp)+1 || len(pmf) != len(sp)+1 {
				c.Fail("cdf", "%s: CDF/PMF of %d split points: %d/%d values, errors %v %v", s.name(), len(sp), len(cdf), len(pmf), err, err2)
			}
			sum, prev := 0.0, 0.0
			for i := range cdf {
				want := 1.0
				if i < len(sp) {
					want = w.rank(sp[i], incl)
				}
				c.Assert(cdf[i] == want, "cdf", "%s: CDF%v inclusive=%v [%d] = %v, rank %v", s.name(), sp, incl, i, cdf[i], want)
				c.Assert(math.Abs(pmf[i]-(want-prev)) < 1e-12 && pmf[i] >= 0, "pmf", "%s: PMF%v inclusive=%v [%d] = %v, want %v", s.name(), sp, incl, i, pmf[i], want-prev)
				prev = want
				sum += pmf[i]
			}
			c.Assert(math.Abs(sum-1) < 1e-9, "pmf-sum", "%s: PMF sums to %v", s.name(), sum)
		}
		for _, bad := range [][]int64{{mn, mn}, {mx, mn - 1}, {1, 2, 2}, {3, 2, 4}} {
			_, err := s.cdf(bad, incl)
			_, err2 := s.pmf(bad, incl)
			c.Assert(err != nil && err2 != nil, "split-points", "%s: split points %v accepted", s.name(), bad)
		}
	}
	v, cum, wt, err := s.view()
	c.NoErr(err, "view")
	c.Assert(len(v) == len(w.v), "view", "%s: sorted view has %d entries, want %d", s.name(), len(v), len(w.v))
	prev := int64(0)
	for i := range v {
		// entries of equal value may come in any order
		c.Assert(v[i] == w.v[i] && wt[i] == cum[i]-prev, "view", "%s: sorted view entry %d is %d weight %d cumulative %d", s.name(), i, v[i], wt[i], cum[i])
		if i+1 == len(v) || v[i+1] != v[i] {
			c.Assert(cum[i] == w.cum[i], "view", "%s: sorted view cumulative weight %d at %d, want %d", s.name(), cum[i], v[i], w.cum[i])
		}
		prev = cum[i]
	}
	s.checkOther(c, w)
}

// ---- adapters

type kllQ[T comparable] struct {
	o   *kobj[T]
	key map[T]int64
}

func (q *kllQ[T]) mk(x int64) T {
	v := q.o.t.mk(x)
	q.key[v] = x
	return v
}
func (q *kllQ[T]) mks(x []int64) []T {
	r := []T{}
	for _, y := range x {
		r = append(r, q.mk(y))
	}
	return r
}
func (q *kllQ[T]) keys(v []T) []int64 {
	var r []int64
	for _, y := range v {
		r = append(r, q.key[y])
	}
	return r
}
func (q *kllQ[T]) rank(x int64, i bool) (float64, error)      { return q.o.s.GetRank(q.mk(x), i) }
func (q *kllQ[T]) ranks(x []int64, i bool) ([]float64, error) { return q.o.s.GetRanks(q.mks(x), i) }
func (q *kllQ[T]) quantile(r float64, i bool) (int64, error) {
	v, err := q.o.s.GetQuantile(r, i)
	return q.key[v], err
}
func (q *kllQ[T]) quantiles(r []float64, i bool) ([]int64, error) {
	v, err := q.o.s.GetQuantiles(r, i)
	return q.keys(v), err
}
func (q *kllQ[T]) cdf(x []int64, i bool) ([]float64, error) { return q.o.s.GetCDF(q.mks(x), i) }
func (q *kllQ[T]) pmf(x []int64, i bool) ([]float64, error) { return q.o.s.GetPMF(q.mks(x), i) }
func (q *kllQ[T]) items() []wit[int64] {
	var r []wit[int64]
	for _, x := range q.o.retained() {
		r = append(r, wit[int64]{q.key[x.v], x.w})
	}
	return r
}
func (q *kllQ[T]) view() (a, b, d []int64, err error) {
	v, err := q.o.s.GetSortedView()
	if err != nil {
		return
	}
	it := v.Iterator()
	for it.Next() {
		a = append(a, q.key[it.GetQuantile()])
		b = append(b, it.GetNaturalRank(true))
		d = append(d, it.GetWeight())
		if it.GetNaturalRank(false) != it.GetNaturalRank(true)-it.GetWeight() {
			err = fmt.Errorf("iterator: exclusive rank %d, inclusive %d, weight %d", it.GetNaturalRank(false), it.GetNaturalRank(true), it.GetWeight())
			return
		}
		if it.GetNormalizedRank(true) != float64(it.GetNaturalRank(true))/float64(q.o.s.GetN()) {
			err = fmt.Errorf("iterator: normalized rank %v", it.GetNormalizedRank(true))
			return
		}
	}
	return
}
func (q *kllQ[T]) extremes() (int64, int64, error) {
	a, e1 := q.o.s.GetMinItem()
	b, e2 := q.o.s.GetMaxItem()
	if e1 == nil {
		e1 = e2
	}
	return q.key[a], q.key[b], e1
}
func (q *kllQ[T]) count() uint64 { return q.o.s.GetN() }
func (q *kllQ[T]) upd(x int64) error {
	q.o.s.Update(q.mk(x))
	return nil
}
func (q *kllQ[T]) name() string {
	q.o.n = q.o.s.GetN()
	return q.o.what()
}
func (q *kllQ[T]) queryView(w *wview) *wview { return w }
func (q *kllQ[T]) bounds(n int, incl bool) ([]int64, error) {
	b, err := q.o.s.GetPartitionBoundaries(n, incl)
	if err != nil {
		return nil, err
	}
	return q.keys(b.GetBoundaries()), nil
}
func (q *kllQ[T]) other(i int) string {
	if i == 0 {
		return ""
	}
	b, err := q.bounds(i, i%2 == 0)
	return fmt.Sprint(b, err)
}
func (q *kllQ[T]) checkOther(c *C, w *wview) {
	mn, mx, _ := q.extremes()
	// ends of the view replaced by the stream's extremes
	v := append([]int64{}, w.v...)
	v[0] = mn
	v[len(v)-1] = mx
	for _, n := range []int{1, 2, 3, 5, 10} {
		for _, incl := range []bool{true, false} {
			b, err := q.bounds(n, incl)
			if err != nil || len(b) != n+1 {
				c.Fail("boundaries", "%s: %d partitions: %v err %v", q.name(), n, b, err)
			}
			c.Assert(b[0] == mn && b[n] == mx, "boundaries", "%s: boundaries %v of %d partitions, range %d..%d", q.name(), b, n, mn, mx)
			for i := 1; i < n; i++ {
				c.Assert(b[i] >= b[i-1] && b[i] <= mx, "boundaries", "%s: boundaries %v not in order", q.name(), b)
				r := float64(i) / float64(n)
				ok := false
				for _, nr := range w.naturals(r, incl) {
					for j := range v {
						lo := int64(0)
						if j > 0 {
							lo = w.cum[j-1]
						}
						// the item whose weight covers the natural rank
						if incl && nr > lo && nr <= w.cum[j] || !incl && nr >= lo && nr < w.cum[j] {
							ok = ok || b[i] == v[j]
							if j == 0 && len(v) > 1 { // the minimum stands for a single item
								ok = ok || b[i] == v[1]
							}
						}
					}
				}
				c.Assert(ok, "boundaries", "%s: boundary %d of %d partitions (inclusive=%v) is %d: not the quantile of %v", q.name(), i, n, incl, b[i], r)
			}
		}
	}
	_, err := q.o.s.GetPartitionBoundaries(0, true)
	c.Assert(err != nil, "boundaries", "0 partitions accepted")
}

type reqQ struct{ s *req.Sketch }

func excl(i bool) []req.SearchCriteriaOptionFunc {
	if i {
		return nil
	}
	return []req.SearchCriteriaOptionFunc{req.WithExclusiveSearch()}
}
func f32s(x []int64) []float32 {
	r := []float32{}
	for _, y := range x {
		r = append(r, float32(y))
	}
	return r
}
func (q reqQ) rank(x int64, i bool) (float64, error)      { return q.s.Rank(float32(x), excl(i)...) }
func (q reqQ) ranks(x []int64, i bool) ([]float64, error) { return q.s.Ranks(f32s(x), excl(i)...) }
func (q reqQ) quantile(r float64, i bool) (int64, error) {
	v, err := q.s.Quantile(r, excl(i)...)
	return int64(v), err
}
func (q reqQ) quantiles(r []float64, i bool) ([]int64, error) {
	v, err := q.s.Quantiles(r, excl(i)...)
	var o []int64
	for _, x := range v {
		o = append(o, int64(x))
	}
	return o, err
}
func (q reqQ) cdf(x []int64, i bool) ([]float64, error) { return q.s.CDF(f32s(x), i) }
func (q reqQ) pmf(x []int64, i bool) ([]float64, error) { return q.s.PMF(f32s(x), excl(i)...) }
func (q reqQ) items() []wit[int64] {
	var r []wit[int64]
	for _, x := range q.s.All() {
		r = append(r, wit[int64]{int64(x.Quantile), x.Weight})
	}
	return r
}
func (q reqQ) view() (a, b, d []int64, err error) {
	v, err := q.s.SortedView()
	if err != nil {
		return
	}
	it := v.Iterator()
	for it.Next() {
		x, e1 := it.Quantile()
		nr, e2 := it.NaturalRank()
		w, e3 := it.Weight()
		ne, e4 := it.NaturalRankWithCriterion(false)
		nn, e5 := it.NormalizedRankWithCriterion(true)
		nx, e6 := it.NormalizedRankWithCriterion(false)
		nd, e7 := it.NormalizedRank()
		for _, e := range []error{e1, e2, e3, e4, e5, e6, e7} {
			if e != nil {
				err = e
				return
			}
		}
		n := float64(q.s.N())
		if ne != nr-w || nn != float64(nr)/n || nx != float64(ne)/n || nd != nn || it.N() != q.s.N() {
			err = fmt.Errorf("iterator: ranks %d %d weight %d normalized %v %v %v of %d", nr, ne, w, nn, nx, nd, it.N())
			return
		}
		a = append(a, int64(x))
		b = append(b, nr)
		d = append(d, w)
	}
	// the view's own accessors
	qs, cw := v.Quantiles(), v.CumulativeWeights()
	mn, e1 := v.MinItem()
	mx, e2 := v.MaxItem()
	if len(qs) != len(a) || len(cw) != len(a) || v.NumRetained() != len(a) || v.N() != q.s.N() || v.IsEmpty() || e1 != nil || e2 != nil || int64(mn) != a[0] || int64(mx) != a[len(a)-1] {
		err = fmt.Errorf("view accessors: %d %d %d n=%d", len(qs), len(cw), v.NumRetained(), v.N())
		return
	}
	for i := range a {
		if int64(qs[i]) != a[i] || cw[i] != b[i] {
			err = fmt.Errorf("view accessors: entry %d is %v,%d", i, qs[i], cw[i])
			return
		}
		qs[i], cw[i] = -1, -1 // copies
	}
	return
}
func (q reqQ) extremes() (int64, int64, error) {
	a, e1 := q.s.MinItem()
	b, e2 := q.s.MaxItem()
	if e1 == nil {
		e1 = e2
	}
	return int64(a), int64(b), e1
}
func (q reqQ) count() uint64     { return uint64(q.s.N()) }
func (q reqQ) upd(x int64) error { return q.s.Update(float32(x)) }
func (q reqQ) name() string {
	return fmt.Sprintf("REQ k=%d hra=%v n=%d", q.s.K(), q.s.IsHighRankAccuracyMode(), q.s.N())
}
func (q reqQ) queryView(w *wview) *wview {
	mn, mx, _ := q.extremes()
	return w.withExtremes(mn, mx)
}
func (q reqQ) other(i int) string {
	switch i {
	case 1:
		a, e := q.s.RankLowerBound(0.7)
		b, e2 := q.s.RankUpperBound(0.7, req.WithNumStdDev(1))
		return fmt.Sprint(a, e, b, e2)
	case 2:
		a, e := q.s.QuantileLowerBound(0.4)
		b, e2 := q.s.QuantileUpperBound(0.4)
		return fmt.Sprint(a, e, b, e2)
	case 3:
		return q.s.String()
	case 4:
		v, e := q.s.SortedView()
		if e != nil {
			return e.Error()
		}
		r := fmt.Sprint(v.Quantiles(), v.CumulativeWeights())
		a, e1 := v.Quantile(0.5, true)
		b, e2 := v.Rank(a, false)
		return fmt.Sprint(r, a, e1, b, e2)
	}
	return ""
}
func (q reqQ) checkOther(c *C, w *wview) {
	for _, r := range []float64{0, 0.001, 0.1, 0.3, 0.5, 0.7, 0.9, 0.999, 1} {
		prevL, prevU := r, r
		for sd := 1; sd <= 3; sd++ {
			lo, e1 := q.s.RankLowerBound(r, req.WithNumStdDev(sd))
			hi, e2 := q.s.RankUpperBound(r, req.WithNumStdDev(sd))
			c.Assert(e1 == nil && e2 == nil && lo >= 0 && lo <= prevL && hi >= prevU && hi <= 1, "rank-bounds", "%s: rank %v, %d std dev: bounds %v..%v errors %v %v", q.name(), r, sd, lo, hi, e1, e2)
			prevL, prevU = lo, hi
			if sd == 2 {
				l2, _ := q.s.RankLowerBound(r)
				h2, _ := q.s.RankUpperBound(r)
				c.Assert(l2 == lo && h2 == hi, "rank-bounds", "%s: default bounds %v..%v, 2 std dev %v..%v", q.name(), l2, h2, lo, hi)
			}
			ql, e1 := q.s.QuantileLowerBound(r, req.WithNumStdDev(sd))
			qh, e2 := q.s.QuantileUpperBound(r, req.WithNumStdDev(sd))
			qm, e3 := q.s.Quantile(r)
			c.Assert(e1 == nil && e2 == nil && e3 == nil && ql <= qm && qm <= qh, "quantile-bounds", "%s: rank %v, %d std dev: quantile %v bounds %v..%v errors %v %v %v", q.name(), r, sd, qm, ql, qh, e1, e2, e3)
			okl, okh := w.quantiles(lo, true), w.quantiles(hi, true)
			c.Assert(in64(int64(ql), okl) && in64(int64(qh), okh), "quantile-bounds", "%s: rank %v, %d std dev: quantile bounds %v..%v, quantiles of the rank bounds %v..%v", q.name(), r, sd, ql, qh, okl, okh)
			if !q.s.IsEstimationMode() {
				c.Assert(lo == r && hi == r, "exact-bounds", "%s: exact sketch has rank bounds %v..%v of %v", q.name(), lo, hi, r)
			}
		}
	}
}

// ---- scenarios

// qBuild builds sketch number kind of the given size class.
func qBuild(c *C, kind, cfg, shape, n int) qsk {
	kllCfg := [][2]int{{8, 8}, {8, 2}, {20, 4}, {200, 8}}[cfg%4]
	reqK := []int{4, 6, 12, 50}[cfg%4]
	feed := func(q qsk) qsk {
		for i := 0; i < n; i++ {
			c.NoErr(q.upd(10+streamVal(shape, i, n)), "update")
		}
		c.Steps(n)
		return q
	}
	switch kind {
	case 0:
		return feed(newKQ(c, kInt, kllCfg))
	case 1:
		return feed(newKQ(c, kRev, kllCfg))
	case 2:
		return feed(newKQ(c, kStr, kllCfg))
	case 3:
		return feed(newKQ(c, kFlt, kllCfg))
	case 4:
		return feed(newKQ(c, kDbl, kllCfg))
	case 5, 6:
		s, err := req.NewSketch(req.WithK(reqK), req.WithHighRankAccuracyMode(kind == 5))
		c.NoErr(err, "new")
		return feed(reqQ{s})
	case 7, 8: // KLL, merged from two / decoded
		a, b := newKQ(c, kInt, kllCfg), newKQ(c, kInt, kllCfg)
		for i := 0; i < n; i++ {
			q := a
			if i%3 == 1 {
				q = b
			}
			c.NoErr(q.upd(10+streamVal(shape, i, n)), "update")
		}
		c.Steps(n)
		if kind == 8 {
			by, err := a.o.s.ToSlice()
			c.NoErr(err, "toslice")
			s2, err := kll.NewKllItemsSketchFromSlice[int64](by, kInt.less, kInt.serde)
			c.NoErr(err, "fromslice")
			a.o.s = s2
		}
		a.o.s.Merge(b.o.s)
		for k, v := range b.key {
			a.key[k] = v
		}
		return a
	case 11:
		return feed(newKQ(c, kStrRev, kllCfg))
	case 12:
		return feed(newKQ(c, kFltRev, kllCfg))
	case 13:
		return feed(newKQ(c, kDblRev, kllCfg))
	default:
		mk := func() *req.Sketch {
			s, err := req.NewSketch(req.WithK(reqK), req.WithHighRankAccuracyMode(kind == 9))
			c.NoErr(err, "new")
			return s
		}
		a, b := mk(), mk()
		for i := 0; i < n; i++ {
			s := a
			if i%3 == 1 {
				s = b
			}
			c.NoErr(s.Update(float32(10+streamVal(shape, i, n))), "update")
		}
		c.Steps(n)
		c.NoErr(a.Merge(b), "merge")
		return reqQ{a}
	}
}

const qKinds = 14

// c17Orders: a sketch of two items knows their order, for every item type, in both directions.
func c17Orders() engine.Scenario {
	return engine.Scenario{
		Name:  "orders",
		Bound: "every ordered pair of awkward values of every item type (extreme integers, infinities, signed zero, subnormals, strings that differ late, contain zero bytes, invalid UTF-8 or prefixes of one another), both sort directions, both arrival orders: minimum, maximum, quantiles at 0 and 1, and ranks follow the type's order",
		Run: func(c *C) {
			rev := c.Choose(2, "reversed") == 1
			switch c.Choose(4, "type") {
			case 0:
				pairOrder(c, rev, common.ItemSketchLongComparator(rev), common.ItemSketchLongSerDe{}, []int64{math.MinInt64, math.MinInt64 + 1, -1 << 53, -1, 0, 1, 255, 256, 1<<32 - 1, 1 << 32, 1<<53 + 1, math.MaxInt64 - 1, math.MaxInt64})
			case 1:
				pairOrder(c, rev, common.ItemSketchDoubleComparator(rev), common.ItemSketchDoubleSerDe{}, []float64{math.Inf(-1), -math.MaxFloat64, -1.5, -1, -math.SmallestNonzeroFloat64, 0, math.SmallestNonzeroFloat64, 1, math.Nextafter(1, 2), 1.5, math.MaxFloat64, math.Inf(1)})
			case 2:
				inf := float32(math.Inf(1))
				pairOrder(c, rev, common.ItemSketchFloatComparator(rev), common.ItemSketchFloatSerDe{}, []float32{-inf, -math.MaxFloat32, -1.5, -1, -math.SmallestNonzeroFloat32, 0, math.SmallestNonzeroFloat32, 1, math.Nextafter32(1, 2), 1.5, math.MaxFloat32, inf})
			case 3:
				pairOrder(c, rev, common.ItemSketchStringComparator(rev), common.ItemSketchStringSerDe{}, []string{"", "\x00", "\x00\x00", "A", "B", "a", "a\x00", "aa", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab", "ab", "b", "é", "\xff"})
			}
		},
	}
}

// pairOrder: vals ascend strictly in the natural order.
func pairOrder[T comparable](c *C, rev bool, less common.CompareFn[T], serde common.ItemSketchSerde[T], vals []T) {
	i := c.Choose(len(vals), "low")
	j := c.Choose(len(vals), "high")
	first := c.Choose(2, "arrival")
	if i > j {
		return
	}
	lo, hi := vals[i], vals[j]
	if rev {
		lo, hi = hi, lo
	}
	s, err := kll.NewKllItemsSketch[T](8, 8, less, serde)
	c.NoErr(err, "new")
	if first == 0 {
		s.Update(lo)
		s.Update(hi)
	} else {
		s.Update(hi)
		s.Update(lo)
	}
	c.Steps(2)
	mn, e1 := s.GetMinItem()
	mx, e2 := s.GetMaxItem()
	c.Assert(e1 == nil && e2 == nil && mn == lo && mx == hi, "order", "of %v and %v (reversed=%v): minimum %v, maximum %v", lo, hi, rev, mn, mx)
	q0, e1 := s.GetQuantile(0, true)
	q1, e2 := s.GetQuantile(1, true)
	c.Assert(e1 == nil && e2 == nil && q0 == lo && q1 == hi, "order", "of %v and %v (reversed=%v): quantiles %v, %v", lo, hi, rev, q0, q1)
	r0, e1 := s.GetRank(lo, true)
	r1, e2 := s.GetRank(hi, false)
	want0, want1 := 0.5, 0.5
	if i == j {
		want0, want1 = 1, 0
	}
	c.Assert(e1 == nil && e2 == nil && r0 == want0 && r1 == want1, "order", "of %v and %v (reversed=%v): ranks %v, %v", lo, hi, rev, r0, r1)
}

func newKQ[T comparable](c *C, t ktype[T], km [2]int) *kllQ[T] {
	o := newK(c, t, uint16(km[0]), uint8(km[1]))
	return &kllQ[T]{o, map[T]int64{}}
}

func c17Answers(sizes []int) engine.Scenario {
	return engine.Scenario{
		Name:       "answers",
		ShardDepth: 4,
		Bound:      fmt.Sprintf("KLL (int64, string, float32, float64, each in both orders, merged, decoded) and REQ (both modes, plain and merged) x 4 sizes of k x %d input orders x counts %v x 3 coin policies: every query against its definition on the retained weighted items, at every retained item and its neighbours and at every natural rank and halfway between", nShapes, sizes),
		Run: func(c *C) {
			kind := c.Choose(qKinds, "kind")
			cfg := c.Choose(4, "config")
			shape := c.Choose(nShapes, "shape")
			n := sizes[c.Choose(len(sizes), "n")]
			c.RandPolicy([]int{2, 1, 5}[c.Choose(3, "policy")], 0)
			s := qBuild(c, kind, cfg, shape, n)
			if n == 0 {
				// every query on an empty sketch is an error
				_, e1 := s.rank(1, true)
				_, e2 := s.quantile(0.5, true)
				_, e3 := s.cdf([]int64{1}, true)
				_, e4 := s.pmf([]int64{1}, true)
				_, e5 := s.ranks([]int64{1}, true)
				_, e6 := s.quantiles([]float64{0.5}, true)
				_, _, _, e7 := s.view()
				_, _, e8 := s.extremes()
				for i, e := range []error{e1, e2, e3, e4, e5, e6, e7, e8} {
					c.Assert(e != nil, "empty-query", "%s: query %d of an empty sketch succeeded", s.name(), i)
				}
				return
			}
			checkQueries(c, s)
			c.State(engine.HAny(kind, cfg, shape, n))
		},
	}
}

// probe runs query number q and describes its answer.
const nProbes = 14

func probe(s qsk, q int) string {
	mn, mx, _ := s.extremes()
	mid := (mn + mx) / 2
	switch q {
	case 0:
		return fmt.Sprint(s.rank(mid, true))
	case 1:
		return fmt.Sprint(s.ranks([]int64{mn, mid, mx}, false))
	case 2:
		return fmt.Sprint(s.quantile(0.5, true))
	case 3:
		return fmt.Sprint(s.quantiles([]float64{0, 0.2, 1}, false))
	case 4:
		return fmt.Sprint(s.cdf([]int64{mn, mid, mx}, true))
	case 5:
		return fmt.Sprint(s.pmf([]int64{mn, mid, mx}, false))
	case 6:
		return fmt.Sprint(s.view())
	case 7:
		it := s.items()
		sort.Slice(it, func(i, j int) bool { return it[i].v < it[j].v || it[i].v == it[j].v && it[i].w < it[j].w })
		return fmt.Sprint(it)
	case 8:
		return fmt.Sprint(mn, mx, s.count())
	case 9:
		return fmt.Sprint(s.rank(mn, true))
	default:
		return s.other(q - 9)
	}
}

func c17Pure(sizes []int, depth int) engine.Scenario {
	return engine.Scenario{
		Name:       "side-effects",
		ShardDepth: 4,
		Bound:      fmt.Sprintf("the same kinds of sketch, counts %v: all sequences of %d of %d queries, each answer and all answers afterwards compared with an identical sketch that was asked nothing; then two updates and all answers again", sizes, depth, nProbes),
		Run: func(c *C) {
			kind := c.Choose(qKinds, "kind")
			cfg := c.Choose(2, "config")
			n := sizes[c.Choose(len(sizes), "n")]
			shape := 2
			c.RandPolicy(2, 0)
			s := qBuild(c, kind, cfg, shape, n)
			all := func(s qsk) []string {
				// each answer from its own untouched sketch
				var r []string
				for q := 0; q < nProbes; q++ {
					r = append(r, probe(s, q))
				}
				return r
			}
			fresh := func(extra int, q int) string {
				c.RandPolicy(2, 0)
				s := qBuild(c, kind, cfg, shape, n)
				for i := 0; i < extra; i++ {
					c.NoErr(s.upd(int64(3+i*1000)), "update")
				}
				return probe(s, q)
			}
			used := c.RandUsed
			_ = used
			want := make([]string, nProbes)
			want2 := make([]string, nProbes)
			for q := range want {
				want[q] = fresh(0, q)
				want2[q] = fresh(2, q)
			}
			c.RandPolicy(2, 0)
			s = qBuild(c, kind, cfg, shape, n)
			for d := 0; d < depth; d++ {
				q := c.Choose(nProbes, "query")
				a := probe(s, q)
				c.Assert(a == want[q], "answer-changed", "%s: query %d answers %s after other queries, %s on a fresh copy", s.name(), q, short(a), short(want[q]))
			}
			for q, a := range all(s) {
				c.Assert(a == want[q], "answer-changed", "%s: query %d answers %s after other queries, %s on a fresh copy", s.name(), q, short(a), short(want[q]))
			}
			for i := 0; i < 2; i++ {
				c.NoErr(s.upd(int64(3+i*1000)), "update")
			}
			for q, a := range all(s) {
				c.Assert(a == want2[q], "later-answer-changed", "%s: after two more updates query %d answers %s, %s on a sketch never queried", s.name(), q, short(a), short(want2[q]))
			}
			c.State(engine.HAny(kind, cfg, n, want))
		},
	}
}

// c17Interleave asks between updates, so that stale cached views show.
func c17Interleave(n int) engine.Scenario {
	return engine.Scenario{
		Name:       "interleaved",
		ShardDepth: 3,
		Bound:      fmt.Sprintf("the same kinds of sketch: all queries checked against the retained items after each of the first %d updates, after a merge and after reset", n),
		Run: func(c *C) {
			kind := c.Choose(7, "kind")
			cfg := c.Choose(2, "config")
			shape := c.Choose(nShapes, "shape")
			c.RandPolicy([]int{2, 0}[c.Choose(2, "policy")], 0)
			s := qBuild(c, kind, cfg, shape, 0)
			for i := 0; i < n; i++ {
				c.NoErr(s.upd(streamVal(shape, i, n)), "update")
				checkQueries(c, s)
			}
			switch q := s.(type) {
			case *kllQ[int64]:
				o := newKQ(c, q.o.t, [2]int{9, 8})
				for i := 0; i < 70; i++ {
					c.NoErr(o.upd(int64(500+i%40)), "update")
				}
				q.o.s.Merge(o.o.s)
				for k, v := range o.key {
					q.key[k] = v
				}
				checkQueries(c, s)
				q.o.s.Reset()
				c.NoErr(s.upd(4), "update")
				checkQueries(c, s)
			case reqQ:
				o, err := req.NewSketch(req.WithK(4), req.WithHighRankAccuracyMode(kind == 5))
				c.NoErr(err, "new")
				for i := 0; i < 70; i++ {
					c.NoErr(o.Update(float32(500+i%40)), "update")
				}
				c.NoErr(q.s.Merge(o), "merge")
				checkQueries(c, s)
				q.s.Reset()
				c.NoErr(s.upd(4), "update")
				checkQueries(c, s)
			}
		},
	}
}

func init() {
	engine.Register(engine.Property{
		ID: "C17",
		Scenarios: func(tier string) []engine.Scenario {
			var sizes []int
			for i := 0; i <= 40; i++ {
				sizes = append(sizes, i)
			}
			if tier == "thorough" {
				for i := 41; i < 130; i++ {
					sizes = append(sizes, i)
				}
				return []engine.Scenario{c17Orders(), c17Answers(append(sizes, 200, 333, 1000, 5000, 20000)), c17Pure([]int{1, 2, 9, 60, 200, 1000}, 3), c17Interleave(300)}
			}
			return []engine.Scenario{c17Orders(), c17Answers(append(sizes, 64, 100, 333, 1000)), c17Pure([]int{1, 2, 9, 60, 200}, 2), c17Interleave(70)}
		},
	})
}
