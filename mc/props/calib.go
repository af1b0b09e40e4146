package props

import (
	"encoding/binary"
	"fmt"
	"math"

	"github.com/apache/datasketches-go/cpc"
	"github.com/apache/datasketches-go/hll"
	"github.com/apache/datasketches-go/sampling"
	"github.com/apache/datasketches-go/theta"
	"verifmc/engine"
)

// C32: estimators and confidence bounds against the exact laws they stand for. Every state of a grid (retained count x
// threshold, coupon count x precision, register histogram x precision) is built, asked, and compared with the
// answer computed here from first principles.

// stirlErr is lgamma(n+1) less Stirling's formula.
func stirlErr(n float64) float64 {
	if n < 16 {
		l, _ := math.Lgamma(n + 1)
		return l - (n+0.5)*math.Log(n) + n - math.Log(2*math.Pi)/2
	}
	n2 := n * n
	return (1.0/12 - (1.0/360-(1.0/1260-1.0/1680/n2)/n2)/n2) / n
}

// bd0 is x log(x/m) + m - x.
func bd0(x, m float64) float64 {
	if d := (x - m) / (x + m); math.Abs(d) < 0.1 {
		s, e, d2 := (x-m)*d, 2*x*d, d*d
		for j := 1.0; j < 100; j++ {
			e *= d2
			s += e / (2*j + 1)
		}
		return s
	}
	return x*math.Log(x/m) + m - x
}

// ibeta is the regularized incomplete beta function I_x(a,b), y = 1-x. Its leading factor is computed from
// Loader's deviances, without the cancellation that differences of lgamma suffer for large arguments.
func ibeta(a, b, x, y float64) float64 {
	if x <= 0 {
		return 0
	}
	if y <= 0 {
		return 1
	}
	n := a + b
	f := math.Exp(stirlErr(n)-stirlErr(a)-stirlErr(b)-bd0(a, n*x)-bd0(b, n*y)) * math.Sqrt(n/(2*math.Pi*a*b)) * a * b / n
	if x < (a+1)/(a+b+2) {
		return f * betacf(a, b, x) / a
	}
	return 1 - f*betacf(b, a, y)/b
}

func betacf(a, b, x float64) float64 {
	const tiny = 1e-300
	nz := func(v float64) float64 {
		if math.Abs(v) < tiny {
			return tiny
		}
		return v
	}
	c, d := 1.0, 1/nz(1-(a+b)*x/(a+1))
	h := d
	for m := 1.0; m < 100000; m++ {
		t := m * (b - m) * x / ((a + 2*m - 1) * (a + 2*m))
		d, c = 1/nz(1+t*d), nz(1+t/c)
		h *= d * c
		t = -(a + m) * (a + b + m) * x / ((a + 2*m) * (a + 2*m + 1))
		d, c = 1/nz(1+t*d), nz(1+t/c)
		h *= d * c
		if math.Abs(d*c-1) < 1e-14 {
			break
		}
	}
	return h
}

// binGE is P(Bin(N,p) >= n).
func binGE(N, n, p float64) float64 {
	if n <= 0 {
		return 1
	}
	if N < n {
		return 0
	}
	return ibeta(n, N-n+1, p, 1-p)
}

// binLE is P(Bin(N,p) <= n).
func binLE(N, n, p float64) float64 {
	if n >= N {
		return 1
	}
	return ibeta(N-n, n+1, 1-p, p)
}

func normTail(z float64) float64 { return math.Erfc(z/math.Sqrt2) / 2 }

// tailTol is the accuracy, as a ratio of tail probabilities, expected of a bound for n samples at rate p.
func tailTol(n, p float64, sd int) (lo, hi float64) {
	switch {
	case n <= 1 || p >= n/300 && n <= 120:
		return 0.994, 1.006
	case n <= 120 && p < n/36000:
		return 0.998, 1.002
	case n <= 120:
		return []float64{0.99, 0.96, 0.75}[sd-1], []float64{1.01, 1.04, 1.25}[sd-1]
	case p < 0.5:
		return []float64{0.95, 0.85, 0.6}[sd-1], []float64{1.05, 1.2, 1.7}[sd-1]
	}
	return []float64{0.95, 0.85, 0.12}[sd-1], []float64{1.05, 1.2, 4}[sd-1]
}

// spread returns n distinct hashes below theta, ascending.
func spread(n int, th uint64) []uint64 {
	out := make([]uint64, n)
	step := th / uint64(n+1)
	for i := range out {
		out[i] = step*uint64(i+1) - mix(uint64(i))%(step/2+1)
	}
	return out
}

func calibRates(n int) []float64 {
	var ps []float64
	for i := 1; i <= n; i++ {
		x := float64(i) / float64(n)
		ps = append(ps, math.Exp(-20*x*x))
	}
	for i := 1; i < 40; i++ {
		ps = append(ps, 1-math.Exp(-float64(i)/3))
	}
	return ps
}

// checkBinomBounds compares a sketch's bounds with the exact binomial tails: the lower bound is the largest count for
// which seeing n or more samples has at most the chance of a normal tail beyond sd deviations, the upper bound the
// smallest for which n or fewer has.
func checkBinomBounds(c *C, what string, n, p float64, lb, ub func(sd int) (float64, error)) {
	for sd := 1; sd <= 3; sd++ {
		d := normTail(float64(sd))
		lo, hi := tailTol(n, p, sd)
		l, err := lb(sd)
		c.NoErr(err, "lower-bound")
		u, err := ub(sd)
		c.NoErr(err, "upper-bound")
		if n > 0 {
			if l > n {
				if v := binGE(math.Floor(l), n, p) / d; !(v <= hi) {
					c.Fail("lower-too-high", "%s n=%v p=%v sd=%d: lower bound %v; that many items leave %v of the promised tail", what, n, p, sd, l, v)
				}
			}
			if v := binGE(math.Ceil(l)+1, n, p) / d; !(v >= lo) {
				c.Fail("lower-too-low", "%s n=%v p=%v sd=%d: lower bound %v; even more items leave only %v of the promised tail", what, n, p, sd, l, v)
			}
		} else {
			c.Assert(l == 0, "lower-empty", "%s: lower bound %v without samples", what, l)
		}
		if v := binLE(math.Ceil(u), n, p) / d; !(v <= hi) {
			c.Fail("upper-too-low", "%s n=%v p=%v sd=%d: upper bound %v; that many items leave %v of the promised tail", what, n, p, sd, u, v)
		}
		if v := binLE(math.Floor(u)-1, n, p) / d; u > n+1 && !(v >= lo) {
			c.Fail("upper-too-high", "%s n=%v p=%v sd=%d: upper bound %v; even fewer items leave only %v of the promised tail", what, n, p, sd, u, v)
		}
	}
}

func c32Binomial(ns []int, rates int) engine.Scenario {
	ps := calibRates(rates)
	return engine.Scenario{
		Name:  "theta-bounds",
		Bound: fmt.Sprintf("%d retained counts in 0..%d x %d sampling rates from 1 down to 2e-9 x 1, 2, 3 deviations, compact, wrapped and tuple sketches: tail probability at both bounds against the exact binomial law", len(ns), ns[len(ns)-1], len(ps)),
		Run: func(c *C) {
			n := pickInt(c, "retained", ns...)
			p := ps[c.Choose(len(ps), "rate")]
			th := uint64(p * float64(maxTheta))
			if th < uint64(4*n+4) || th >= maxTheta {
				return
			}
			p = float64(th) / float64(maxTheta)
			img := craftTheta(tref{theta: th, h: spread(n, th)}, true, theta.DefaultSeed)
			s, err := theta.Decode(img, theta.DefaultSeed)
			c.NoErr(err, "decode")
			c.Assert(int(s.NumRetained()) == n && near(s.Estimate(), float64(n)/p, 1e-12), "estimate", "estimate %v of %d samples at %v", s.Estimate(), n, p)
			bound := func(f func(uint8) (float64, error)) func(int) (float64, error) {
				return func(sd int) (float64, error) { return f(uint8(sd)) }
			}
			checkBinomBounds(c, "theta", float64(n), p, bound(s.LowerBound), bound(s.UpperBound))
			w, err := theta.WrapCompactSketch(img, theta.DefaultSeed)
			c.NoErr(err, "wrap")
			checkBinomBounds(c, "wrapped", float64(n), p, bound(w.LowerBound), bound(w.UpperBound))
			c.State(mix(uint64(n), th))
			c.Step()
		},
		ShardDepth: 1,
	}
}

// checkProportion compares an interval for an unknown fraction, k successes in n trials, with the exact Clopper-Pearson
// condition at z deviations.
func checkProportion(c *C, what string, n, k, z, lb, est, ub float64) {
	d := normTail(z)
	tol := 0.05 + 0.3/(1+min(k, n-k))
	c.Assert(near(est, k/n, 1e-9), "proportion", "%s: %v of %v estimated as %v", what, k, n, est)
	if k == 0 {
		c.Assert(lb == 0, "proportion-lower", "%s: lower bound %v without a match", what, lb)
	} else if v := binGE(n, k, lb) / d; math.Abs(v-1) > tol {
		c.Fail("proportion-lower", "%s: %v of %v, z=%v: lower bound %v leaves %v of the promised tail", what, k, n, z, lb, v)
	}
	if k == n {
		c.Assert(ub == 1, "proportion-upper", "%s: upper bound %v with all matching", what, ub)
	} else if v := binLE(n, k, ub) / d; math.Abs(v-1) > tol {
		c.Fail("proportion-upper", "%s: %v of %v, z=%v: upper bound %v leaves %v of the promised tail", what, k, n, z, ub, v)
	}
}

func calibSizes(maxN int) (ns []int) {
	for n := 1; n <= maxN; n++ {
		if n < 34 || n%16 < 2 {
			ns = append(ns, n)
		}
	}
	return
}

func c32Jaccard(maxN int) engine.Scenario {
	ns := calibSizes(maxN)
	rates := []float64{0.999, 0.9, 0.75, 0.5, 0.49, 0.25, 0.1, 1e-2, 1e-4, 1e-7}
	return engine.Scenario{
		Name:  "jaccard-bounds",
		Bound: fmt.Sprintf("%d union sizes up to %d x every intersection size x %d sampling rates x 2 ways to split the rest: both ends of the interval against the exact Clopper-Pearson tail at two deviations, corrected for the sampling rate", len(ns), maxN, len(rates)),
		Run: func(c *C) {
			n := pickInt(c, "union", ns...)
			p := pickF(c, "rate", rates...)
			th := uint64(p * float64(maxTheta))
			p = float64(th) / float64(maxTheta)
			h := spread(n, th)
			for k := 0; k < n; k++ { // A = B is answered exactly
				if n > 64 && k > 3 && k < n-3 && k%5 != 0 {
					continue
				}
				for split := 0; split < 2; split++ {
					a, b := tref{theta: th}, tref{theta: th}
					for i, x := range h {
						inA := i < k || split == 0 || i%2 == 0
						if inA {
							a.h = append(a.h, x)
						}
						if i < k || !inA {
							b.h = append(b.h, x)
						}
					}
					sa, err := theta.Decode(craftTheta(a, true, defaultSeed), defaultSeed)
					c.NoErr(err, "decode")
					sb, err := theta.Decode(craftTheta(b, true, defaultSeed), defaultSeed)
					c.NoErr(err, "decode")
					j, err := theta.Jaccard(sa, sb, defaultSeed)
					c.NoErr(err, "jaccard")
					z := 2 * math.Sqrt(1-p)
					if p > 0.5 {
						z += 2 * 0.01 * (p - 0.5) // published safety margin
					}
					checkProportion(c, fmt.Sprintf("jaccard at rate %v", p), float64(n), float64(k), z, j.LowerBound, j.Estimate, j.UpperBound)
					c.Step()
				}
			}
			c.State(mix(uint64(n), th))
		},
		ShardDepth: 2,
	}
}

func c32Subset(maxK int) engine.Scenario {
	ks := calibSizes(maxK)
	return engine.Scenario{
		Name:  "subset-bounds",
		Bound: fmt.Sprintf("reservoir and VarOpt, %d sample sizes up to %d x 5 stream lengths x {0, 2} heavy items x every number of matching samples: interval against the exact Clopper-Pearson tail at two deviations, corrected for the sampling rate", len(ks), maxK),
		Run: func(c *C) {
			k := pickInt(c, "k", ks...)
			n := []int{k + 1, k + k/8 + 2, 2*k + 1, 10*k + 3, 200*k + 7}[c.Choose(5, "n")]
			kind := c.Choose(3, "kind")
			c.RandPolicy(0, 0)
			var ask func(func(int) bool) (sampling.SampleSubsetSummary, error)
			heavy, r, total := 0, k, float64(n)
			if kind == 0 {
				if k < 2 {
					return
				}
				s, err := sampling.NewReservoirItemsSketch[int](k)
				c.NoErr(err, "new")
				for i := 0; i < n; i++ {
					s.Update(i)
				}
				ask = s.EstimateSubsetSum
			} else {
				heavy = 2 * (kind - 1)
				if r = k - heavy; r < 1 || n-heavy <= r {
					return
				}
				s, err := sampling.NewVarOptItemsSketch[int](uint(k))
				c.NoErr(err, "new")
				for i := 0; i < n; i++ {
					w := 1.0
					if i < heavy {
						w = 1 << 20
					}
					c.NoErr(s.Update(i, w), "update")
				}
				total = float64(n - heavy)
				ask = s.EstimateSubsetSum
			}
			rate := float64(r) / float64(n-heavy)
			for m := 0; m <= r; m++ {
				if k > 64 && m > 3 && m < r-3 && m%5 != 0 {
					continue
				}
				left := m
				s, err := ask(func(i int) bool {
					if i < heavy {
						return i == 0
					}
					left--
					return left >= 0
				})
				c.NoErr(err, "subset-sum")
				base := 0.0
				if heavy > 0 {
					base = 1 << 20
				}
				checkProportion(c, fmt.Sprintf("kind %d rate %v", kind, rate), float64(r), float64(m), 2*math.Sqrt(1-rate), (s.LowerBound-base)/total, (s.Estimate-base)/total, (s.UpperBound-base)/total)
				c.Step()
			}
			c.State(mix(uint64(k), uint64(n), uint64(kind)))
		},
		ShardDepth: 2,
	}
}

// cpcExpected is the expected number of coupons of n items at precision lgK.
func cpcExpected(lgK int, n float64) float64 {
	k, sum := math.Ldexp(1, lgK), 0.0
	for col := 1; col <= 64; col++ {
		sum -= math.Expm1(n * math.Log1p(-math.Ldexp(1, -min(col, 63))/k))
	}
	return k * sum
}

// solve finds x with f(x) = y for an increasing f.
func solve(f func(float64) float64, y float64) float64 {
	lo, hi := 0.0, 1.0
	for f(hi) < y {
		lo, hi = hi, 2*hi
	}
	for i := 0; i < 80; i++ {
		if m := (lo + hi) / 2; f(m) < y {
			lo = m
		} else {
			hi = m
		}
	}
	return (lo + hi) / 2
}

// checkWidth compares an interval's two ends with the published relative error: near sd*factor/sqrt(k), with
// a correction that vanishes as k grows.
func checkWidth(c *C, what string, lgK, sd int, factor, lb, est, ub, slack float64) {
	k := math.Sqrt(math.Ldexp(1, lgK))
	w := float64(sd) * factor / k
	lo, hi := est/lb-1, 1-est/ub
	t := slack / k
	if !(math.Abs(lo/w-1) <= t && math.Abs(hi/w-1) <= t) {
		c.Fail("width", "%s lgK=%d sd=%d: [%v, %v] around %v: relative errors %v and %v, published %v (ratios %v %v)", what, lgK, sd, lb, ub, est, lo, hi, w, lo/w, hi/w)
	}
}

// exactAbove: large precisions use the published constant itself.
func exactAbove(lgK, last int, f float64) float64 {
	if lgK > last {
		return f
	}
	return 1
}

func c32Cpc(lgKs []int) engine.Scenario {
	return engine.Scenario{
		Name:  "cpc-icon",
		Bound: fmt.Sprintf("lgK in %v x every coupon count (small precisions) or about 400 of them up to 10 per row, reached by streaming: estimate of the merged sketch against the item count whose expected number of coupons is the one stored; interval widths against the published error, also of the unmerged sketch", lgKs),
		Run: func(c *C) {
			lgK := pickInt(c, "lgK", lgKs...)
			s, err := cpc.NewCpcSketchWithDefault(lgK)
			c.NoErr(err, "new")
			last, k, next := -1, math.Ldexp(1, lgK), 0
			for i := uint64(0); ; i++ {
				c.NoErr(s.UpdateUint64(i), "update")
				if int(i) < next {
					continue
				}
				next = int(i) + 1
				if lgK > 6 {
					next = max(next, int(float64(i)*1.03))
				}
				u, err := cpc.NewCpcUnionSketchWithDefault(lgK)
				c.NoErr(err, "union")
				c.NoErr(u.Update(s), "union")
				r, err := u.GetResult()
				c.NoErr(err, "result")
				b, err := r.ToCompactSlice()
				c.NoErr(err, "serialize")
				h, ok := readCpcHdr(b)
				c.Assert(ok && h.n > 0, "header", "header %x", b[:8])
				if h.n == last {
					continue
				}
				last = h.n
				n := float64(h.n)
				want := solve(func(x float64) float64 { return cpcExpected(lgK, x) }, n)
				tol := 1e-5
				if n > 5.5*k {
					tol += 0.012 / k
				}
				got := r.GetEstimate()
				if n > 1 && !near(got, want, tol) {
					c.Fail("icon", "lgK=%d: %d coupons are expected of %v items, estimate %v", lgK, h.n, want, got)
				}
				c.Assert(n > 1 || got == 1, "icon", "one coupon estimated as %v", got)
				if n > 4*k && lgK > 6 || n > 6*k {
					for sd := 1; sd <= 3; sd++ {
						checkWidth(c, "CPC merged", lgK, sd, math.Ln2, r.GetLowerBound(sd), got, r.GetUpperBound(sd), []float64{1, 1.2, 1.5}[sd-1]*exactAbove(lgK, 14, 0.25))
						checkWidth(c, "CPC", lgK, sd, math.Sqrt(math.Ln2/2), s.GetLowerBound(sd), s.GetEstimate(), s.GetUpperBound(sd), []float64{1, 1.2, 1.5}[sd-1]*exactAbove(lgK, 14, 0.25))
					}
				}
				c.State(mix(uint64(lgK), uint64(h.n)))
				c.Step()
				if n > 10*k || lgK > 16 && n > 6*k {
					return
				}
			}
		},
	}
}

// hllMoments is mean and variance of the sum of 2^-register over a sketch of n items.
func hllMoments(lgK int, n float64) (mean, va float64) {
	k := math.Ldexp(1, lgK)
	var g [63]float64
	for v := range g {
		g[v] = math.Ldexp(1, -v)
	}
	p := func(x float64) float64 { return math.Exp(n * math.Log1p(-x/k)) } // no item in cells of total mass x
	var m, m2, cr float64
	var p0 [63]float64
	for a := range g {
		p0[a] = p(g[a])
	}
	for a := range g {
		q := p0[a]
		m += g[a] / 2 * q
		for b := range g { // the smaller level decides
			m2 += g[a] * g[b] / 4 * p0[min(a, b)]
		}
		for b := range g[:a+1] {
			w := g[a] * g[b] / 4
			if b < a {
				w *= 2
			}
			cr += w * p(g[a]+g[b])
		}
	}
	return k * m, k*m2 + k*(k-1)*cr - k*k*m*m
}

// hllImage writes an 8-bit image with these registers.
func hllImage(lgK int, regs []uint8, hip float64, ooo bool) []byte {
	b := make([]byte, 40+len(regs))
	b[0], b[1], b[2], b[3], b[7] = 10, 1, 7, byte(lgK), 2|2<<2
	b[5] = 8
	if ooo {
		b[5] |= 16
	}
	var kxq [2]float64
	zeros := 0
	for _, r := range regs {
		kxq[r>>5] += math.Ldexp(1, -int(r))
		if r == 0 {
			zeros++
		}
	}
	binary.LittleEndian.PutUint64(b[8:], math.Float64bits(hip))
	binary.LittleEndian.PutUint64(b[16:], math.Float64bits(kxq[0]))
	binary.LittleEndian.PutUint64(b[24:], math.Float64bits(kxq[1]))
	binary.LittleEndian.PutUint32(b[32:], uint32(zeros))
	copy(b[40:], regs)
	return b
}

// hllExpectedRegs is a register array whose histogram is the expected one for n items.
func hllExpectedRegs(lgK int, n float64) []uint8 {
	k := 1 << lgK
	regs := make([]uint8, k)
	p := func(v int) float64 { return math.Exp(n * math.Log1p(-math.Ldexp(1, -v)/float64(k))) }
	v := 0
	for i := range regs {
		for v < 62 && p(v) <= (float64(i)+0.5)/float64(k) {
			v++
		}
		regs[i] = uint8(v)
	}
	return regs
}

var hllRawMemo = map[[2]float64]float64{}

// hllRaw is the item count whose expected raw estimate belongs to this sum of 2^-register.
func hllRaw(lgK int, sum float64) float64 {
	key := [2]float64{float64(lgK), sum}
	r, ok := hllRawMemo[key]
	if !ok {
		r = solve(func(n float64) float64 {
			m, v := hllMoments(lgK, n)
			return (1 + v/(m*m)) / m
		}, 1/sum)
		hllRawMemo[key] = r
	}
	return r
}

// checkComposite compares the order-independent estimate for these registers with its definition: the number of
// items expected to leave this many empty registers while few items have been seen, else the number whose
// expected raw estimate is the one observed.
func checkComposite(c *C, lgK int, regs []uint8, what string) float64 {
	img := hllImage(lgK, regs, 0, true)
	s, err := hll.NewHllSketchFromSlice(img, true)
	c.NoErr(err, "decode")
	got, err := s.GetCompositeEstimate()
	c.NoErr(err, "composite")
	est, err := s.GetEstimate()
	c.NoErr(err, "estimate")
	c.Assert(est == got, "ooo-estimate", "estimate %v composite %v", est, got)
	k, sum, zeros := math.Ldexp(1, lgK), 0.0, 0
	for _, r := range regs {
		sum += math.Ldexp(1, -int(r))
		if r == 0 {
			zeros++
		}
	}
	lin := 0.0
	for i := zeros + 1; i <= len(regs); i++ {
		lin += k / float64(i)
	}
	raw := hllRaw(lgK, sum)
	tol := 5e-5 + 1.5/(k*k) // accuracy of the tables
	okLin := zeros > 0 && near(got, lin, 1e-9)
	okRaw := near(got, raw, tol) || math.Abs(got-raw) < tol*k
	switch {
	case lin < 0.55*k && raw < 0.55*k:
		if !okLin {
			c.Fail("composite-small", "%s lgK=%d, %d empty registers: estimate %v, expected %v", what, lgK, zeros, got, lin)
		}
	case raw > 1.2*k && (zeros == 0 || lin > 1.2*k):
		if !okRaw {
			c.Fail("composite-large", "%s lgK=%d, sum %v: estimate %v, expected %v (%v)", what, lgK, sum, got, raw, got/raw-1)
		}
	default:
		if !okLin && !okRaw {
			c.Fail("composite-middle", "%s lgK=%d, %d empty registers, sum %v: estimate %v, expected %v or %v", what, lgK, zeros, sum, got, lin, raw)
		}
	}
	return got
}

func c32Hll(lgKs []int, steps int) engine.Scenario {
	return engine.Scenario{
		Name:  "hll-composite",
		Bound: fmt.Sprintf("lgK in %v x %d item counts from k/50 to 100k, the register histogram expected of each: composite estimate against its definition; widths of the intervals, in order and out of order, against the published error", lgKs, steps),
		Run: func(c *C) {
			lgK := pickInt(c, "lgK", lgKs...)
			k := math.Ldexp(1, lgK)
			i := c.Choose(steps, "count")
			n := k / 50 * math.Pow(5000, float64(i)/float64(steps-1))
			regs := hllExpectedRegs(lgK, n)
			got := checkComposite(c, lgK, regs, "expected histogram")
			if n > 5*k {
				for ooo := 0; ooo < 2; ooo++ {
					s, err := hll.NewHllSketchFromSlice(hllImage(lgK, regs, 7*got, ooo == 1), true)
					c.NoErr(err, "decode")
					est, err := s.GetEstimate()
					c.NoErr(err, "estimate")
					f := []float64{math.Sqrt(math.Ln2), math.Sqrt(3*math.Ln2 - 1)}[ooo]
					c.Assert(ooo == 1 || est == 7*got, "hip", "estimate %v, accumulator %v", est, 7*got)
					for sd := 1; sd <= 3; sd++ {
						l, e1 := s.GetLowerBound(sd)
						u, e2 := s.GetUpperBound(sd)
						c.Assert(e1 == nil && e2 == nil, "bounds", "%v %v", e1, e2)
						checkWidth(c, []string{"HLL", "HLL out of order"}[ooo], lgK, sd, f, l, est, u, []float64{0.5, 1.4, 2.8}[sd-1]*exactAbove(lgK, 12, 0.02))
					}
				}
			}
			c.State(engine.HAny(regs))
			c.Step()
		},
		ShardDepth: 2,
	}
}

// c32HllAll: every register histogram of the smallest sketch.
func c32HllAll(maxReg int) engine.Scenario {
	return engine.Scenario{
		Name:  "hll-histograms",
		Bound: fmt.Sprintf("every multiset of 16 registers with values 0..%d: composite estimate against its definition", maxReg),
		Run: func(c *C) {
			regs := make([]uint8, 16)
			for i := range regs {
				lo := 0
				if i > 0 {
					lo = int(regs[i-1])
				}
				if i < 3 {
					regs[i] = uint8(lo + c.Choose(maxReg+1-lo, "register"))
				} else {
					regs[i] = uint8(lo)
				}
			}
			if regs[15] == 0 {
				return
			}
			first := append([]uint8{}, regs[:3]...)
			for {
				checkComposite(c, 4, regs, "all histograms")
				c.Step()
				i := 15
				for i >= 3 && int(regs[i]) == maxReg {
					i--
				}
				if i < 3 {
					break
				}
				v := regs[i] + 1
				for ; i < 16; i++ {
					regs[i] = v
				}
			}
			c.State(engine.HAny(first))
		},
		ShardDepth: 3,
	}
}

func init() {
	engine.Register(engine.Property{
		ID: "C32",
		Scenarios: func(tier string) []engine.Scenario {
			ns := []int{}
			for i := 0; i <= 130; i++ {
				ns = append(ns, i)
			}
			ns = append(ns, 200, 500, 1000, 4096, 20000)
			if tier == "thorough" {
				for i := 131; i <= 400; i++ {
					ns = append(ns, i)
				}
				return []engine.Scenario{
					c32Binomial(append(ns, 700, 3000, 65536, 200000), 1500),
					c32Jaccard(600),
					c32Subset(600),
					c32Cpc([]int{4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22}),
					c32Hll([]int{4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21}, 800),
					c32HllAll(9),
				}
			}
			return []engine.Scenario{
				c32Binomial(ns, 300),
				c32Jaccard(200),
				c32Subset(200),
				c32Cpc([]int{4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20}),
				c32Hll([]int{4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21}, 200),
				c32HllAll(7),
			}
		},
	})
}
