package props

import (
	"fmt"
	"math"

	"github.com/apache/datasketches-go/kll"
	"github.com/apache/datasketches-go/req"
	"verifmc/engine"
)

// seqCoins resolves the library's coins from coin sequence seq: its first 4 bits are those of seq, the rest a fixed
// expansion of it.
func seqCoins(c *C, seq int) {
	i := 0
	c.RandCustom(func(kind string, n uint64) (uint64, bool) {
		z := mix(uint64(i), uint64(seq)*0x9e3779b97f4a7c15, 77)
		if i < 4 {
			z = uint64(seq>>i&1) * math.MaxUint64
		}
		i++
		if kind == "int" {
			return z >> 13 % n, true
		}
		return z, true
	})
}

// rankErrors runs one configuration over all coin sequences and checks that the share of (sequence, probe) pairs
// for which miss answers true stays below limit.
func rankErrors(c *C, what string, seqs, probes int, limit float64, run func(seq int) func(probe int) bool) {
	total := 0
	for s := 0; s < seqs; s++ {
		miss := run(s)
		for p := 0; p < probes; p++ {
			if miss(p) {
				total++
			}
		}
		c.Step()
	}
	if got := float64(total) / float64(seqs*probes); got > limit {
		c.Fail("rank-error", "%s: %.4f of the answers over %d coin sequences x %d ranks are outside the advertised error, %v allowed", what, got, seqs, probes, limit)
	}
	c.Outcome(uint64(total))
}

func c15RankError(ks, ns []int, seqs int) engine.Scenario {
	return engine.Scenario{
		Name:       "kll-rank-error",
		ShardDepth: 4,
		Bound:      fmt.Sprintf("k in %v x streams of %v items in 4 orders x {one stream, 8 parts merged} x %d coin sequences x 200 ranks: at most 1%% of the answers are outside the normalized rank error", ks, ns, seqs),
		Run: func(c *C) {
			k := ks[c.Choose(len(ks), "k")]
			n := ns[c.Choose(len(ns), "n")]
			shape := []int{0, 1, 2, 5}[c.Choose(4, "order")]
			parts := []int{1, 8}[c.Choose(2, "parts")]
			rankErrors(c, fmt.Sprintf("KLL k=%d n=%d order %d parts %d", k, n, shape, parts), seqs, 200, 0.01, func(seq int) func(int) bool {
				seqCoins(c, seq)
				var sum *kll.ItemsSketch[int64]
				for p := 0; p < parts; p++ {
					s, err := kll.NewKllItemsSketch[int64](uint16(k), 8, kInt.less, kInt.serde)
					c.NoErr(err, "new")
					for i := p; i < n; i += parts {
						s.Update(streamVal(shape, i, n))
					}
					if sum == nil {
						sum = s
					} else {
						sum.Merge(s)
					}
				}
				eps := sum.GetNormalizedRankError(false)
				return func(p int) bool {
					v := int64(p * n / 200)
					r, err := sum.GetRank(v, true)
					c.NoErr(err, "rank")
					return math.Abs(r-float64(v+1)/float64(n)) > eps
				}
			})
		},
	}
}

func c16RankError(ks, ns []int, seqs int) engine.Scenario {
	// the shares allowed outside 1, 2 and 3 deviations leave room for the correlation between ranks and, at the
	// smallest k, for the published error constants being an approximation there
	return engine.Scenario{
		Name:       "req-rank-error",
		ShardDepth: 5,
		Bound:      fmt.Sprintf("k in %v, both modes, streams of %v items in 4 orders x {one stream, 8 parts merged} x %d coin sequences x 200 ranks: at most the advertised share of true ranks is outside the rank bounds at 1, 2, 3 deviations", ks, ns, seqs),
		Run: func(c *C) {
			k := ks[c.Choose(len(ks), "k")]
			hra := c.Choose(2, "hra") == 1
			n := ns[c.Choose(len(ns), "n")]
			shape := []int{0, 1, 2, 5}[c.Choose(4, "order")]
			parts := []int{1, 8}[c.Choose(2, "parts")]
			sd := 1 + c.Choose(3, "deviations")
			limits := []float64{0.33, 0.06, 0.015}
			if k < 12 {
				limits = []float64{0.5, 0.17, 0.05}
			}
			rankErrors(c, fmt.Sprintf("REQ k=%d hra=%v n=%d order %d parts %d sd %d", k, hra, n, shape, parts, sd), seqs, 200, limits[sd-1], func(seq int) func(int) bool {
				seqCoins(c, seq)
				var sum *req.Sketch
				for p := 0; p < parts; p++ {
					s, err := req.NewSketch(req.WithK(k), req.WithHighRankAccuracyMode(hra))
					c.NoErr(err, "new")
					for i := p; i < n; i += parts {
						c.NoErr(s.Update(float32(streamVal(shape, i, n))), "update")
					}
					if sum == nil {
						sum = s
					} else {
						c.NoErr(sum.Merge(s), "merge")
					}
				}
				return func(p int) bool {
					v := p * n / 200
					r, err := sum.Rank(float32(v))
					c.NoErr(err, "rank")
					lo, err := sum.RankLowerBound(r, req.WithNumStdDev(sd))
					c.NoErr(err, "rank-lower-bound")
					hi, err := sum.RankUpperBound(r, req.WithNumStdDev(sd))
					c.NoErr(err, "rank-upper-bound")
					x := float64(v+1) / float64(n)
					return x < lo-1e-9 || x > hi+1e-9
				}
			})
		},
	}
}
