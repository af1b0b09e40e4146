package props

import (
	"fmt"
	"math"
	"strings"

	"github.com/apache/datasketches-go/common"
	"github.com/apache/datasketches-go/frequencies"
	"verifmc/engine"
)

// C21 (frequent items bounds) and C22 (their serialization).

type fqRow struct {
	key          int
	est, ub, lb  int64
	foreign      bool // not one of the keys
	foreignValue string
}

// fqSk is a frequent-items sketch over keys 0..nKeys-1 of an alphabet.
type fqSk interface {
	update(key int, w int64) error
	update1(key int) error
	merge(o fqSk) error
	reset() error
	bounds(key int) (est, lb, ub int64, err error)
	rows(th int64, useTh bool, noFN bool) ([]fqRow, error)
	weight() int64
	maxErr() int64
	active() int
	maxCap() int
	curCap() int
	empty() bool
	bytes() ([]byte, error)
	decode(b []byte) (fqSk, error)
	str() (string, error)
	decodeStr(s string) (fqSk, bool, error)
}

// fqFam makes sketches of one key type.
type fqFam struct {
	name  string
	mk    func(lgMax, lgCur int) (fqSk, error)
	mkMax func(size int) (fqSk, error)
	keys  func(kind, n int) // choose the alphabet
	slot  func(key int) uint64
}

type fqLong struct {
	s    *frequencies.LongsSketch
	keys *[]int64
}

func (f fqLong) update(k int, w int64) error { return f.s.UpdateMany((*f.keys)[k], w) }
func (f fqLong) update1(k int) error         { return f.s.Update((*f.keys)[k]) }
func (f fqLong) merge(o fqSk) error {
	r, err := f.s.Merge(o.(fqLong).s)
	if err == nil && r != f.s {
		return fmt.Errorf("Merge returned another sketch")
	}
	return err
}
func (f fqLong) reset() error { f.s.Reset(); return nil }
func (f fqLong) bounds(k int) (e, l, u int64, err error) {
	x := (*f.keys)[k]
	if e, err = f.s.GetEstimate(x); err != nil {
		return
	}
	if l, err = f.s.GetLowerBound(x); err != nil {
		return
	}
	u, err = f.s.GetUpperBound(x)
	return
}
func (f fqLong) rows(th int64, useTh, noFN bool) ([]fqRow, error) {
	et := frequencies.ErrorTypeEnum.NoFalsePositives
	if noFN {
		et = frequencies.ErrorTypeEnum.NoFalseNegatives
	}
	rs, err := f.s.GetFrequentItems(et)
	if useTh {
		rs, err = f.s.GetFrequentItemsWithThreshold(th, et)
	}
	var out []fqRow
	idx := fqIndex(*f.keys)
	for _, r := range rs {
		out = append(out, fqRowOf(idx, r.GetItem(), r.GetEstimate(), r.GetUpperBound(), r.GetLowerBound()))
	}
	return out, err
}
func (f fqLong) weight() int64 { return f.s.GetStreamLength() }
func (f fqLong) maxErr() int64 { return f.s.GetMaximumError() }
func (f fqLong) active() int   { return f.s.GetNumActiveItems() }
func (f fqLong) maxCap() int   { return f.s.GetMaximumMapCapacity() }
func (f fqLong) curCap() int   { return f.s.GetCurrentMapCapacity() }
func (f fqLong) empty() bool   { return f.s.IsEmpty() }
func (f fqLong) bytes() ([]byte, error) {
	b := f.s.ToSlice()
	if n := f.s.GetStorageBytes(); n != len(b) {
		return nil, fmt.Errorf("GetStorageBytes %d, image has %d bytes", n, len(b))
	}
	return b, nil
}
func (f fqLong) decode(b []byte) (fqSk, error) {
	s, err := frequencies.NewLongsSketchFromSlice(b)
	return fqLong{s, f.keys}, err
}
func (f fqLong) str() (string, error) { return f.s.ToString() }
func (f fqLong) decodeStr(str string) (fqSk, bool, error) {
	s, err := frequencies.NewLongsSketchFromString(str)
	return fqLong{s, f.keys}, true, err
}

type fqItem[T comparable] struct {
	s    *frequencies.ItemsSketch[T]
	keys *[]T
	h    common.ItemSketchHasher[T]
	d    common.ItemSketchSerde[T]
}

func fqIndex[T comparable](keys []T) map[T]int {
	m := make(map[T]int, len(keys))
	for i, k := range keys {
		m[k] = i
	}
	return m
}

func fqRowOf[T comparable](idx map[T]int, x T, est, ub, lb int64) fqRow {
	if i, ok := idx[x]; ok {
		return fqRow{key: i, est: est, ub: ub, lb: lb}
	}
	return fqRow{foreign: true, foreignValue: fmt.Sprint(x)}
}

func (f fqItem[T]) update(k int, w int64) error { return f.s.UpdateMany((*f.keys)[k], w) }
func (f fqItem[T]) update1(k int) error         { return f.s.Update((*f.keys)[k]) }
func (f fqItem[T]) merge(o fqSk) error {
	r, err := f.s.Merge(o.(fqItem[T]).s)
	if err == nil && r != f.s {
		return fmt.Errorf("Merge returned another sketch")
	}
	return err
}
func (f fqItem[T]) reset() error { return f.s.Reset() }
func (f fqItem[T]) bounds(k int) (e, l, u int64, err error) {
	x := (*f.keys)[k]
	if e, err = f.s.GetEstimate(x); err != nil {
		return
	}
	if l, err = f.s.GetLowerBound(x); err != nil {
		return
	}
	u, err = f.s.GetUpperBound(x)
	return
}
func (f fqItem[T]) rows(th int64, useTh, noFN bool) ([]fqRow, error) {
	et := frequencies.ErrorTypeEnum.NoFalsePositives
	if noFN {
		et = frequencies.ErrorTypeEnum.NoFalseNegatives
	}
	rs, err := f.s.GetFrequentItems(et)
	if useTh {
		rs, err = f.s.GetFrequentItemsWithThreshold(th, et)
	}
	var out []fqRow
	idx := fqIndex(*f.keys)
	for _, r := range rs {
		out = append(out, fqRowOf(idx, r.GetItem(), r.GetEstimate(), r.GetUpperBound(), r.GetLowerBound()))
	}
	return out, err
}
func (f fqItem[T]) weight() int64          { return f.s.GetStreamLength() }
func (f fqItem[T]) maxErr() int64          { return f.s.GetMaximumError() }
func (f fqItem[T]) active() int            { return f.s.GetNumActiveItems() }
func (f fqItem[T]) maxCap() int            { return f.s.GetMaximumMapCapacity() }
func (f fqItem[T]) curCap() int            { return f.s.GetCurrentMapCapacity() }
func (f fqItem[T]) empty() bool            { return f.s.IsEmpty() }
func (f fqItem[T]) bytes() ([]byte, error) { return f.s.ToSlice() }
func (f fqItem[T]) decode(b []byte) (fqSk, error) {
	s, err := frequencies.NewFrequencyItemsSketchFromSlice[T](b, f.h, f.d)
	return fqItem[T]{s, f.keys, f.h, f.d}, err
}
func (f fqItem[T]) str() (string, error)                 { return f.s.ToString() }
func (f fqItem[T]) decodeStr(string) (fqSk, bool, error) { return nil, false, nil }

// fqMixHash is the published long hash (murmur3 finalizer).
func fqMixHash(v int64) uint64 {
	k := uint64(v)
	k ^= k >> 33
	k *= 0xff51afd7ed558ccd
	k ^= k >> 33
	k *= 0xc4ceb9fe1a85ec53
	k ^= k >> 33
	return k
}

// fqAlphabet chooses n keys from candidates by the table cell they hash to:
// kind 0 as they come, 1 all in the last two cells of a table of 8 (wrapping around),
// 2 all in one cell of a table of 64, 100+homes base-8 digits: the cell of each key.
func fqAlphabet[T comparable](cand func(i int) T, hash func(T) uint64, kind, n int) []T {
	var out []T
	seen := map[T]bool{}
	var pools [8][]T
	if kind >= 100 {
		homes := kind - 100
		for j := 0; j < n; j++ {
			h := homes & 7
			homes >>= 3
			k := 0
			for i := 0; ; i++ {
				x := cand(i)
				if hash(x)&7 == uint64(h) && !seen[x] {
					k = i
					break
				}
			}
			x := cand(k)
			seen[x] = true
			out = append(out, x)
		}
		_ = pools
		return out
	}
	for i := 0; len(out) < n; i++ {
		x := cand(i)
		h := hash(x)
		if seen[x] || kind == 1 && h&7 < 6 || kind == 2 && h&63 != 62 {
			continue
		}
		seen[x] = true
		out = append(out, x)
	}
	return out
}

var fqLongSpecial = []int64{0, -1, 1, math.MinInt64, math.MaxInt64, -7, 42, math.MinInt64 + 1}

func fqLongCand(i int) int64 {
	if i < len(fqLongSpecial) {
		return fqLongSpecial[i]
	}
	v := int64(i) * 1000003
	if i%3 == 1 {
		v = -v
	}
	return v
}

type fqHomes[T comparable] struct {
	pool [8][]T
}

// fqFamilies returns the key types with their alphabets.
func fqFamilies() []*fqFam {
	var fams []*fqFam
	{
		keys := new([]int64)
		var pool fqHomes[int64]
		fams = append(fams, &fqFam{name: "longs",
			mk: func(a, b int) (fqSk, error) {
				s, err := frequencies.NewLongsSketch(a, b)
				return fqLong{s, keys}, err
			},
			mkMax: func(n int) (fqSk, error) {
				s, err := frequencies.NewLongsSketchWithMaxMapSize(n)
				return fqLong{s, keys}, err
			},
			keys: func(kind, n int) { *keys = fqPick(&pool, fqLongCand, fqMixHash, kind, n) },
			slot: func(k int) uint64 { return fqMixHash((*keys)[k]) },
		})
	}
	fams = append(fams,
		fqItemFam[int64]("items-int64", fqLongCand, common.ItemSketchLongHasher{}, common.ItemSketchLongSerDe{}),
		fqItemFam[string]("items-string", func(i int) string {
			switch i {
			case 0:
				return ""
			case 1:
				return "a,b"
			case 2:
				return "日本"
			case 3:
				return strings.Repeat("long ", 60)
			}
			return fmt.Sprintf("item-%d", i*7919)[4+i%2:]
		}, common.ItemSketchStringHasher{}, common.ItemSketchStringSerDe{}),
		fqItemFam[float64]("items-float64", func(i int) float64 {
			switch i {
			case 0:
				return 0
			case 1:
				return math.Inf(-1)
			case 2:
				return math.MaxFloat64
			case 3:
				return -1.5
			}
			return float64(i) * 0.37
		}, common.ItemSketchDoubleHasher{}, common.ItemSketchDoubleSerDe{}))
	return fams
}

func fqPick[T comparable](p *fqHomes[T], cand func(int) T, hash func(T) uint64, kind, n int) []T {
	if kind < 100 {
		return fqAlphabet(cand, hash, kind, n)
	}
	if p.pool[0] == nil {
		seen := map[T]bool{}
		full := 0
		for i := 0; full < 8; i++ {
			x := cand(i)
			h := hash(x) & 7
			if seen[x] || len(p.pool[h]) == 16 {
				continue
			}
			seen[x] = true
			p.pool[h] = append(p.pool[h], x)
			if len(p.pool[h]) == 16 {
				full++
			}
		}
	}
	var used [8]int
	var out []T
	homes := kind - 100
	for j := 0; j < n; j++ {
		h := homes & 7
		homes >>= 3
		out = append(out, p.pool[h][used[h]])
		used[h]++
	}
	return out
}

func fqItemFam[T comparable](name string, cand func(int) T, h common.ItemSketchHasher[T], d common.ItemSketchSerde[T]) *fqFam {
	keys := new([]T)
	var pool fqHomes[T]
	return &fqFam{name: name,
		mk: func(a, b int) (fqSk, error) {
			s, err := frequencies.NewFrequencyItemsSketch[T](a, b, h, d)
			return fqItem[T]{s, keys, h, d}, err
		},
		mkMax: func(n int) (fqSk, error) {
			s, err := frequencies.NewFrequencyItemsSketchWithMaxMapSize[T](n, h, d)
			return fqItem[T]{s, keys, h, d}, err
		},
		keys: func(kind, n int) { *keys = fqPick(&pool, cand, h.Hash, kind, n) },
		slot: func(k int) uint64 { return h.Hash((*keys)[k]) },
	}
}

// fqRef is the true weights.
type fqRef struct {
	w     []int64
	total int64
	lossy bool // something was, or had to be, evicted somewhere in the history
}

func newFqRef(n int) *fqRef { return &fqRef{w: make([]int64, n)} }

func (r *fqRef) distinct() int {
	d := 0
	for _, w := range r.w {
		if w > 0 {
			d++
		}
	}
	return d
}

func (r *fqRef) add(k int, w int64) {
	r.w[k] += w
	r.total += w
}

func (r *fqRef) merge(o *fqRef) {
	for i, w := range o.w {
		r.w[i] += w
	}
	r.total += o.total
	r.lossy = r.lossy || o.lossy
}

func (r *fqRef) clone() *fqRef {
	return &fqRef{append([]int64{}, r.w...), r.total, r.lossy}
}

// note records whether evictions can have happened by now.
func (r *fqRef) note(s fqSk) {
	if r.distinct() > s.maxCap() {
		r.lossy = true
	}
}

func fqCheck(c *C, s fqSk, ref *fqRef, rows bool) {
	c.Assert(s.weight() == ref.total, "stream-weight", "stream weight %d, want %d", s.weight(), ref.total)
	me := s.maxErr()
	c.Assert(me >= 0 && me <= ref.total, "max-error", "maximum error %d of total weight %d", me, ref.total)
	c.Assert(ref.lossy || me == 0, "exact", "maximum error %d although nothing had to be evicted (%d distinct keys, capacity %d)", me, ref.distinct(), s.maxCap())
	c.Assert(s.active() <= s.maxCap(), "capacity", "%d active items, capacity %d", s.active(), s.maxCap())
	c.Assert(!s.empty() || ref.total == 0 || s.active() == 0, "isempty", "IsEmpty with %d active items", s.active())
	c.Assert(ref.total > 0 || s.empty(), "isempty", "a sketch of nothing is not empty")
	act := 0
	for k, w := range ref.w {
		e, l, u, err := s.bounds(k)
		c.NoErr(err, "bounds")
		if l < 0 || l > w || u < w || e < l || e > u || u-l > me {
			c.Fail("bounds", "key %d: true weight %d, lower bound %d, estimate %d, upper bound %d, maximum error %d", k, w, l, e, u, me)
		}
		if l > 0 {
			act++
		}
	}
	c.Assert(act == s.active(), "active", "%d active items, but %d keys have a positive lower bound", s.active(), act)
	if !rows {
		return
	}
	ths := []int64{0, 1, me, me + 1, 2*me + 1, ref.total / 2, ref.total, ref.total + 1, -5}
	for i := -1; i < len(ths); i++ {
		th, use := me, i >= 0
		if use {
			th = ths[i]
		}
		eff := max(th, me)
		for _, noFN := range []bool{true, false} {
			rs, err := s.rows(th, use, noFN)
			c.NoErr(err, "rows")
			seen := map[int]bool{}
			for j, r := range rs {
				c.Assert(!r.foreign, "row-foreign", "result row of item %s that was never added", r.foreignValue)
				c.Assert(!seen[r.key], "row-twice", "two result rows of key %d", r.key)
				seen[r.key] = true
				e, l, u, err := s.bounds(r.key)
				c.NoErr(err, "bounds")
				c.Assert(r.est == e && r.lb == l && r.ub == u, "row-bounds", "row of key %d: estimate %d [%d,%d], the sketch says %d [%d,%d]", r.key, r.est, r.lb, r.ub, e, l, u)
				c.Assert(j == 0 || rs[j-1].est >= r.est, "row-order", "rows not by descending estimate: %d then %d", rs[max(j-1, 0)].est, r.est)
				if !noFN {
					c.Assert(ref.w[r.key] >= eff, "false-positive", "key %d of true weight %d in the no-false-positives result for threshold %d", r.key, ref.w[r.key], eff)
				} else {
					c.Assert(u >= eff, "row-hopeless", "key %d of upper bound %d in the no-false-negatives result for threshold %d", r.key, u, eff)
				}
			}
			for k, w := range ref.w {
				if noFN && w > eff {
					c.Assert(seen[k], "false-negative", "key %d of true weight %d missing from the no-false-negatives result for threshold %d", k, w, eff)
				}
				if !noFN {
					_, l, _, _ := s.bounds(k)
					c.Assert(l <= eff || seen[k], "row-missing", "key %d of lower bound %d missing from the no-false-positives result for threshold %d", k, l, eff)
				}
			}
		}
	}
	c.Checked()
}

func fqState(c *C, s fqSk) uint64 {
	b, err := s.bytes()
	c.NoErr(err, "bytes")
	return mix(engine.HAny(b), uint64(s.maxErr()), uint64(s.weight()))
}

// fqScale multiplies every weight of an execution: small weights, or some beyond 32 bits, or beyond a float's mantissa.
var fqScale int64 = 1

// fqUpdate keeps sketch and reference in step.
func fqUpdate(c *C, s fqSk, ref *fqRef, k int, w int64) {
	w *= fqScale
	if w == 1 {
		c.NoErr(s.update1(k), "update")
	} else {
		c.NoErr(s.update(k, w), "update")
	}
	ref.add(k, w)
	ref.note(s)
}

// fqMerge merges o into s and checks o is unchanged.
func fqMerge(c *C, s, o fqSk, ref, oref *fqRef) {
	before, err := o.bytes()
	c.NoErr(err, "bytes")
	c.NoErr(s.merge(o), "merge")
	after, err := o.bytes()
	c.NoErr(err, "bytes")
	c.Assert(eqBytes(before, after), "merge-operand", "Merge changed its argument")
	ref.merge(oref)
	ref.note(s)
}

// fqOther builds a sketch to merge in: 0 empty, 1 one key, 2 purged to nothing, 3 half full,
// 4 larger table full, 5 purged and refilled.
func fqOther(c *C, f *fqFam, kind, nKeys int) (fqSk, *fqRef) {
	lg := 3
	if kind == 4 {
		lg = 5
	}
	o, err := f.mk(lg, 3)
	c.NoErr(err, "new")
	r := newFqRef(nKeys)
	switch kind {
	case 1:
		fqUpdate(c, o, r, 2, 3)
	case 2:
		for k := 0; k < 7; k++ {
			fqUpdate(c, o, r, nKeys-1-k, 1)
		}
	case 3:
		for k := 0; k < 4; k++ {
			fqUpdate(c, o, r, k*2+1, int64(k+1))
		}
	case 4:
		for k := 0; k < nKeys; k++ {
			fqUpdate(c, o, r, k, int64(1+k%3))
		}
	case 5:
		for i := 0; i < 3*nKeys; i++ {
			fqUpdate(c, o, r, i*5%nKeys, int64(1+i%4))
		}
	}
	return o, r
}

const fqOthers = 6

// fqPurge: every cell assignment of seven keys in a table of eight, every light/heavy pattern.
func fqPurge(homesAlphabet []int, nWeights int) func(c *C) {
	fams := fqFamilies()
	ws := [][]int64{{1, 3}, {1, 3, 2}}[nWeights-2]
	return func(c *C) {
		f := fams[c.Choose(2, "family")*2] // longs, items-string
		fqScale = 1
		homes := 0
		for j := 0; j < 7; j++ {
			homes |= homesAlphabet[c.Choose(len(homesAlphabet), "home")] << (3 * j)
		}
		f.keys(100+homes, 8)
		pat := make([]int64, 7)
		n := 1
		for range pat {
			n *= len(ws)
		}
		for p := 0; p < n; p++ {
			q := p
			for j := range pat {
				pat[j] = ws[q%len(ws)]
				q /= len(ws)
			}
			s, err := f.mk(3, 3)
			c.NoErr(err, "new")
			ref := newFqRef(8)
			for j, w := range pat {
				fqUpdate(c, s, ref, j, w)
			}
			c.Step()
			if s.active() >= 7 {
				c.Fail("no-purge", "%s homes %o weights %v: %d active items after the purge", f.name, homes, pat, s.active())
			}
			fqCheckAt(c, s, ref, func() string { return fmt.Sprintf("%s homes %o weights %v, after the purge", f.name, homes, pat) })
			for j := 0; j < 8; j++ {
				fqUpdate(c, s, ref, (j*3+p)%8, 2)
			}
			fqCheckAt(c, s, ref, func() string { return fmt.Sprintf("%s homes %o weights %v, refilled", f.name, homes, pat) })
		}
		c.State(uint64(homes))
	}
}

func fqCheckAt(c *C, s fqSk, ref *fqRef, where func() string) {
	if c.Tracing() {
		c.Logf("%s", where())
	}
	fqCheck(c, s, ref, false)
}

// fqHistory: all histories over six preloaded weights and depth further operations.
func fqHistory(famIdx []int, depth int, maxLg []int) func(c *C) {
	fams := fqFamilies()
	const nKeys = 12
	return func(c *C) {
		f := fams[famIdx[c.Choose(len(famIdx), "family")]]
		kind := c.Choose(3, "alphabet")
		f.keys(kind, nKeys)
		lg := maxLg[c.Choose(len(maxLg), "lgMax")]
		s, err := f.mk(lg, 3)
		c.NoErr(err, "new")
		ref := newFqRef(nKeys)
		pre := c.Choose(5, "preload")
		if fqScale = 1; (kind+pre)%3 == 0 {
			fqScale = 1<<53 + 1
		}
		c.Logf("%s alphabet %d lgMax %d preload %d", f.name, kind, lg, pre)
		for k := 0; k < 6 && pre > 0; k++ {
			fqUpdate(c, s, ref, k, []int64{1, 2, int64(k + 1), int64(7*(k&1)) + 1}[pre-1])
		}
		fqCheck(c, s, ref, true)
		for i := 0; i < depth; i++ {
			// updates: keys {0,3,6,7,8} x weights {1,2,9}; merges; reset; self merge
			op := c.Choose(15+fqOthers+2, "op")
			switch {
			case op < 15:
				k, w := []int{0, 3, 6, 7, 8}[op/3], []int64{1, 2, 9}[op%3]
				c.Logf("update key %d weight %d", k, w)
				fqUpdate(c, s, ref, k, w)
			case op < 15+fqOthers:
				o, r := fqOther(c, f, op-15, nKeys)
				c.Logf("merge other %d", op-15)
				fqMerge(c, s, o, ref, r)
				fqCheck(c, o, r, true)
			case op == 15+fqOthers:
				c.Logf("reset")
				c.NoErr(s.reset(), "reset")
				ref = newFqRef(nKeys)
			default:
				c.Logf("no-op updates")
				c.NoErr(s.update(5, 0), "update")
				c.Assert(s.update(5, -1) != nil, "negative-weight", "a negative weight was accepted")
				c.Assert(s.update(0, math.MinInt64) != nil, "negative-weight", "a negative weight was accepted")
			}
			c.Step()
			c.State(fqState(c, s))
			fqCheck(c, s, ref, true)
			c.PruneIfSeen(mix(fqState(c, s), uint64(i), uint64(lg), uint64(kind), uint64(fqScale), engine.HAny([]byte(f.name)), engine.HAny(fmt.Sprint(ref.w))))
		}
	}
}

// fqStream: item i of a skewed stream over nKeys keys.
func fqStreamItem(shape, i, nKeys int) (int, int64) {
	switch shape {
	case 0: // round robin
		return i % nKeys, 1
	case 1: // skewed: key j every 2^j items
		j := 0
		for (i+1)%(1<<(j+1)) == 0 && j+1 < nKeys {
			j++
		}
		if j > 4 {
			return (4 + i/32) % nKeys, 1
		}
		return j, 1
	case 2: // all distinct with rising weights
		return i % nKeys, int64(i%97 + 1)
	case 3: // heavy first, then a flood of light ones
		if i < nKeys/4 {
			return i, 1000
		}
		return i % nKeys, 1
	case 4: // light first, then heavy
		return (i * 7) % nKeys, int64(1 + i/50)
	default: // few heavy ones inside a flood
		if i%10 == 0 {
			return i / 10 % 3, 5
		}
		return i * 31 % nKeys, 1
	}
}

func fqStreams(sizes []int, n, nKeys int) func(c *C) {
	fams := fqFamilies()
	return func(c *C) {
		f := fams[c.Choose(len(fams), "family")]
		size := sizes[c.Choose(len(sizes), "size")]
		shape := c.Choose(6, "shape")
		f.keys(0, nKeys)
		fqScale = []int64{1, 1<<33 + 1}[c.Choose(2, "scale")]
		s, err := f.mkMax(size)
		c.NoErr(err, "new")
		c.Assert(s.maxCap() == max(size, 8)*3/4, "max-capacity", "capacity %d with map size %d", s.maxCap(), size)
		c.Logf("%s size %d shape %d", f.name, size, shape)
		ref := newFqRef(nKeys)
		lim := float64(3.5) / float64(max(size, 8))
		for i := 0; i < n; i++ {
			k, w := fqStreamItem(shape, i, nKeys)
			fqUpdate(c, s, ref, k, w)
			if i < 50 || i%211 == 0 || i == n-1 {
				fqCheck(c, s, ref, i%422 == 0 || i == n-1)
				c.Step()
			}
		}
		c.Assert(float64(s.maxErr()) <= lim*float64(ref.total), "a-priori", "maximum error %d above the a priori error %v", s.maxErr(), lim*float64(ref.total))
		c.State(fqState(c, s))
	}
}

// fqMergeTree merges sketches of different sizes in every order.
func fqMergeTree(n int) func(c *C) {
	fams := fqFamilies()
	const nKeys = 60
	return func(c *C) {
		f := fams[c.Choose(len(fams), "family")]
		kind := c.Choose(3, "alphabet")
		f.keys(kind, nKeys)
		fqScale = []int64{1, 1<<31 - 1, 1}[kind]
		var ss []fqSk
		var rs []*fqRef
		for p := 0; p < 3; p++ {
			lg := []int{3, 4, 6}[c.Choose(3, "lgMax")]
			shape := []int{0, 1, 4}[c.Choose(3, "shape")]
			s, err := f.mk(lg, 3)
			c.NoErr(err, "new")
			r := newFqRef(nKeys)
			for i := 0; i < n; i++ {
				k, w := fqStreamItem(shape, i*(p+1), nKeys-p*13)
				fqUpdate(c, s, r, k, w)
			}
			ss, rs = append(ss, s), append(rs, r)
		}
		for len(ss) > 1 {
			a := c.Choose(len(ss), "a")
			b := c.Choose(len(ss)-1, "b")
			if b >= a {
				b++
			}
			fqMerge(c, ss[a], ss[b], rs[a], rs[b])
			fqCheck(c, ss[a], rs[a], true)
			fqUpdate(c, ss[a], rs[a], 5, 3)
			ss = append(ss[:b:b], ss[b+1:]...)
			rs = append(rs[:b:b], rs[b+1:]...)
			c.Step()
		}
		c.State(fqState(c, ss[0]))
	}
}

// fqConfigs: every legal pair of sizes, small stream.
func fqConfigs(c *C) {
	fams := fqFamilies()
	f := fams[c.Choose(len(fams), "family")]
	fqScale = 1
	lgMax := c.Choose(13, "lgMax")
	lgCur := c.Choose(max(lgMax, 3)+1, "lgCur")
	const nKeys = 7000
	f.keys(0, nKeys)
	var s fqSk
	var err error
	if lgCur == 3 && c.Choose(2, "constructor") == 1 {
		s, err = f.mkMax(1 << lgMax)
	} else {
		s, err = f.mk(lgMax, lgCur)
	}
	c.NoErr(err, "new")
	c.Logf("%s lgMax %d lgCur %d", f.name, lgMax, lgCur)
	c.Assert(s.maxCap() == 3*(1<<max(lgMax, 3))/4, "max-capacity", "capacity %d with lgMax %d", s.maxCap(), lgMax)
	ref := newFqRef(nKeys)
	n := min(3<<max(lgMax, 3), nKeys)
	for i := 0; i < n; i++ {
		fqUpdate(c, s, ref, i, int64(1+i%3))
		if i < 20 || i == n-1 || i&(i-1) == 0 {
			fqCheck(c, s, ref, i < 20 && i%4 == 0 || i == n-1)
		}
	}
	c.Assert(ref.lossy == (s.maxErr() > 0), "exact", "maximum error %d after %d keys, capacity %d", s.maxErr(), n, s.maxCap())
	for _, bad := range []int{0, 3, 12, -8, 1<<20 + 1} {
		_, err := f.mkMax(bad)
		c.Assert(err != nil, "map-size", "map size %d accepted", bad)
	}
	for size := 1; size <= 1<<20; size <<= 1 {
		e1, err1 := frequencies.GetEpsilonLongsSketch(size)
		e2, err2 := frequencies.GetEpsilonFrequencyItemsSketch(size)
		a1, err3 := frequencies.GetAprioriErrorLongsSketch(size, 1000)
		a2, err4 := frequencies.GetAprioriErrorFrequencyItemsSketch(size, 1000)
		w := 3.5 / float64(size)
		c.Assert(err1 == nil && err2 == nil && err3 == nil && err4 == nil && e1 == w && e2 == w && near(a1, w*1000, 1e-12) && near(a2, w*1000, 1e-12), "epsilon", "size %d: epsilon %v %v, a priori error %v %v", size, e1, e2, a1, a2)
	}
	c.State(fqState(c, s))
	c.Step()
}

// fqZero: a float key and its negative zero are the same item of a Go map, and so here.
func fqZero(c *C) {
	neg := math.Copysign(0, -1)
	s, err := frequencies.NewFrequencyItemsSketch[float64](3, 3, common.ItemSketchDoubleHasher{}, common.ItemSketchDoubleSerDe{})
	c.NoErr(err, "new")
	var total int64
	for i := 0; i < 6; i++ {
		x := 0.0
		if c.Choose(2, "sign") == 1 {
			x = neg
		}
		c.NoErr(s.UpdateMany(x, int64(i+1)), "update")
		c.NoErr(s.UpdateMany(float64(i+1)*1.25, 1), "update")
		total += int64(i + 1)
		for _, q := range []float64{0, neg} {
			l, _ := s.GetLowerBound(q)
			u, _ := s.GetUpperBound(q)
			c.Assert(l <= total && u >= total, "zero-sign", "zero was added with weight %d, bounds [%d,%d]", total, l, u)
		}
	}
}

func init() {
	engine.Register(engine.Property{
		ID: "C21",
		Assumptions: []string{
			"starting table no larger than the maximum table, total weight within int64, keys other than NaN",
			"hash functions spread keys well enough that probe sequences stay below 1024 cells",
		},
		Scenarios: func(tier string) []engine.Scenario {
			th := tier == "thorough"
			homes, nw := []int{0, 1, 6, 7}, 2
			d, n, nm := 3, 20000, 150
			sizes := []int{1, 8, 16, 64, 512}
			if th {
				homes, nw = []int{0, 1, 2, 5, 6, 7}, 3
				d, n, nm = 4, 100000, 800
				sizes = []int{1, 2, 4, 8, 16, 32, 64, 128, 512, 2048}
			}
			return []engine.Scenario{
				{Name: "configs", Bound: "4 key types x every starting and maximum table size up to 2^12", Run: fqConfigs, ShardDepth: 2},
				{Name: "zero", Bound: "both float zeros in every order", Run: fqZero},
				{Name: "purge", Bound: fmt.Sprintf("seven keys in every assignment to cells %v of a table of 8 x all weight patterns", homes), Run: fqPurge(homes, nw), ShardDepth: 4},
				{Name: "history", Bound: "5 preloads x 3 alphabets x all histories of the given depth", Run: fqHistory([]int{0}, d, []int{3, 4}), ShardDepth: 5},
				{Name: "history-types", Bound: "all histories of a smaller depth, other key types", Run: fqHistory([]int{1, 2, 3}, d-1, []int{3, 4}), ShardDepth: 4},
				{Name: "streams", Bound: "6 skewed streams x table sizes x 4 key types", Run: fqStreams(sizes, n, 300), ShardDepth: 3},
				{Name: "merge-tree", Bound: "3 sketches of 3 sizes merged in every order", Run: fqMergeTree(nm), ShardDepth: 4},
			}
		},
	})
}
