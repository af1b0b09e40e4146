package props

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/bits"
	"sort"

	"github.com/apache/datasketches-go/cpc"

	"verifmc/engine"
)

// cc is a CPC coupon.
type cc struct{ row, col int }

// item returns a 16-byte item that hashes to the coupon for any lgK up to 26 with row < 2^lgK.
func (x cc) item(seed uint64) []byte {
	h0 := uint64(x.row) | uint64(x.col*31+7)<<40
	h1 := uint64(1)
	if x.col < 63 {
		h1 = 1<<uint(63-x.col) | (uint64(x.row)*0x9e3779b97f4a7c15)>>uint(x.col+1)
	}
	return itemFor(h0, h1, seed)
}

// cref is the reference: the coupon set of the distinct items and the HIP accumulator.
type cref struct {
	lgK int
	m   []uint64
	n   int
	cnt [64]int // coupons per column
	hip float64
	tol float64
}

func newCref(lgK int) *cref {
	return &cref{lgK: lgK, m: make([]uint64, 1<<lgK)}
}

// kxp is the expected chance, times k, that the next new item brings a new coupon: the sum of 2^-(col+1) over missing coupons.
func (r *cref) kxp() float64 {
	s := math.Ldexp(float64(int(1)<<r.lgK), -64)
	for c := 63; c >= 0; c-- {
		s += math.Ldexp(float64(1<<r.lgK-r.cnt[c]), -c-1)
	}
	return s
}

func (r *cref) add(x cc) bool {
	row := x.row & (1<<r.lgK - 1)
	if r.m[row]>>uint(x.col)&1 == 1 {
		return false
	}
	r.m[row] |= 1 << uint(x.col)
	r.n++
	k, kxp := float64(int(1)<<r.lgK), r.kxp()
	r.hip += k / kxp
	r.tol = max(r.tol, 1e-10+k*math.Ldexp(float64(min(r.n, 16<<r.lgK)), -52)/kxp) // rounding of a running sum that started at k
	r.cnt[x.col]++
	return true
}

func (r *cref) addHash(h0, h1 uint64) bool {
	col := bits.LeadingZeros64(h1)
	if col > 63 {
		col = 63
	}
	return r.add(cc{int(h0 & (1<<r.lgK - 1)), col})
}

func (r *cref) clone() *cref {
	d := *r
	d.m = append([]uint64{}, r.m...)
	return &d
}

// fold returns the coupon set at a smaller precision.
func (r *cref) fold(lgK int) *cref {
	d := newCref(lgK)
	for i, w := range r.m {
		d.m[i&(1<<lgK-1)] |= w
	}
	for _, w := range d.m {
		d.n += bits.OnesCount64(w)
	}
	return d
}

func (r *cref) or(o *cref) {
	r.n = 0
	for i := range r.m {
		r.m[i] |= o.m[i]
		r.n += bits.OnesCount64(r.m[i])
	}
}

func (r *cref) offset() int { return refOffset(r.lgK, r.n) }

func refOffset(lgK, n int) int {
	t := 8*n - 19<<lgK
	if t < 0 {
		return 0
	}
	return t >> (lgK + 3)
}

// overflowing says that the window would have to start after column 56, which takes more than 59 coupons per row.
func (r *cref) overflowing() bool { return 8*r.n >= (27+8*56)<<r.lgK }

func (r *cref) flavor() int {
	switch k := 1 << r.lgK; {
	case r.n == 0:
		return 0
	case 32*r.n < 3*k:
		return 1
	case 2*r.n < k:
		return 2
	case 8*r.n < 27*k:
		return 3
	}
	return 4
}

var cpcFlavors = []string{"empty", "sparse", "hybrid", "pinned", "sliding"}

func (r *cref) h() uint64 { return mix(u64s(r.m), uint64(r.lgK)) }

func (r *cref) String() string {
	return fmt.Sprintf("lgK=%d %d coupons (%s)", r.lgK, r.n, cpcFlavors[r.flavor()])
}

// cpcHdr is the part of an image that can be read without the compression tables.
type cpcHdr struct {
	lgK, fiCol, format int
	n                  int
	hip                float64
	tol                float64
}

func readCpcHdr(b []byte) (h cpcHdr, ok bool) {
	if len(b) < 8 || b[1] != 1 || b[2] != 16 {
		return h, false
	}
	h.lgK, h.fiCol, h.format = int(b[3]), int(b[4]), int(b[5]>>2&7)
	pre := []int{2, 2, 4, 8, 4, 8, 6, 10}[h.format]
	if int(b[0]) != pre || len(b) < 4*pre {
		return h, false
	}
	if h.format >= 2 {
		h.n = int(binary.LittleEndian.Uint32(b[8:]))
	}
	return h, true
}

// cpcMatrix reads the coupon set of a sketch by putting it into a fresh union of the same precision.
func cpcMatrix(c *C, s *cpc.CpcSketch, seed uint64, what string) []uint64 {
	u, err := cpc.NewCpcUnionSketch(s.GetLgK(), seed)
	c.NoErr(err, "union")
	if err := u.Update(s); err != nil {
		c.Fail("union-update", "%s: %v", what, err)
	}
	m, err := u.GetBitMatrix()
	if err != nil {
		c.Fail("bit-matrix", "%s: %v", what, err)
	}
	return m
}

func cpcMerged(c *C, s *cpc.CpcSketch, seed uint64, what string) []byte {
	u, err := cpc.NewCpcUnionSketch(s.GetLgK(), seed)
	c.NoErr(err, "union")
	if err := u.Update(s); err != nil {
		c.Fail("union-update", "%s: %v", what, err)
	}
	r, err := u.GetResult()
	if err != nil {
		c.Fail("union-result", "%s: %v", what, err)
	}
	b, err := r.ToCompactSlice()
	if err != nil {
		c.Fail("serialize", "%s merged: %v", what, err)
	}
	return b
}

func cpcBytes(c *C, s *cpc.CpcSketch, what string) []byte {
	b, err := s.ToCompactSlice()
	if err != nil {
		c.Fail("serialize", "%s: %v", what, err)
	}
	return b
}

func diffMatrix(a, b []uint64) string {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return fmt.Sprintf("row %d is %064b, should be %064b", i, a[i], b[i])
		}
	}
	return fmt.Sprintf("%d rows, should be %d", len(a), len(b))
}

// checkCpc compares a live (unmerged) sketch with the reference.
func checkCpc(c *C, s *cpc.CpcSketch, r *cref, seed uint64, what string) []byte {
	m := cpcMatrix(c, s, seed, what)
	if !eqU64(m, r.m) {
		c.Fail("coupons", "%s %v: %s", what, r, diffMatrix(m, r.m))
	}
	b := cpcBytes(c, s, what)
	h, ok := readCpcHdr(b)
	c.Assert(ok && h.lgK == r.lgK && h.n == r.n, "header", "%s: image header %x says %+v, want lgK %d and %d coupons", what, b[:min(len(b), 24)], h, r.lgK, r.n)
	wantWin := r.flavor() >= 3
	c.Assert((h.format&4 != 0) == wantWin, "flavor", "%s: image of a %s sketch has format %d", what, cpcFlavors[r.flavor()], h.format)
	if h.format&1 == 1 {
		e := s.GetEstimate()
		c.Assert(near(e, r.hip, r.tol), "estimate", "%s: estimate %v, want %v", what, e, r.hip)
		lb, ub := s.GetLowerBound(2), s.GetUpperBound(2)
		c.Assert(lb <= e && e <= ub, "bounds", "%s: bounds %v %v of estimate %v", what, lb, ub, e)
	}
	return b
}

// canonical feeds the coupons of r to a new sketch in column order.
func canonical(c *C, r0 *cref, seed uint64) *cpc.CpcSketch {
	r := newCref(r0.lgK)
	s, err := cpc.NewCpcSketch(r.lgK, seed)
	c.NoErr(err, "new")
	for col := 0; col < 64; col++ {
		for row := range r0.m {
			if r0.m[row]>>uint(col)&1 == 1 {
				c.NoErr(s.UpdateByteSlice(cc{row, col}.item(seed)), "update")
				r.add(cc{row, col})
			}
		}
	}
	checkCpc(c, s, r, seed, "column order")
	return s
}

// cbase is a way to reach a state: the coupons in the order they arrive.
type cbase struct {
	name string
	lgK  int
	f    func() []cc
}

func (b cbase) String() string { return fmt.Sprintf("%s lgK=%d", b.name, b.lgK) }

func naturalCoupons(lgK, n int) []cc {
	r := newCref(lgK)
	var out []cc
	for i := int64(1); r.n < n; i++ {
		h0, h1 := hashI64(i*7919, defaultSeed)
		x := cc{int(h0 & (1<<lgK - 1)), min(63, bits.LeadingZeros64(h1))}
		if r.add(x) {
			out = append(out, x)
		}
		if i > int64(n)<<14 { // columns beyond what hashes reach: continue deterministically
			for col := 0; r.n < n; col++ {
				for row := 0; row < 1<<lgK && r.n < n; row++ {
					if r.add(cc{row, col}) {
						out = append(out, cc{row, col})
					}
				}
			}
		}
	}
	return out
}

func orderedCoupons(kind string, lgK, n int) []cc {
	k := 1 << lgK
	var out []cc
	for i := 0; i < n; i++ {
		switch kind {
		case "columns": // no surprises at all
			out = append(out, cc{i % k, i / k})
		case "rows": // a few rows full, the others empty
			out = append(out, cc{i / 64, i % 64})
		case "high": // from the last column down
			out = append(out, cc{i % k, 63 - i/k})
		case "stride": // every column within few steps, rows out of phase
			out = append(out, cc{(i + i/64) % k, (i * 37) % 64})
		case "holes": // every fourth coupon of the low columns is missing
			j := i + i/3
			out = append(out, cc{(j * 5) % k, j / k})
		}
	}
	// the generators may repeat: keep what is distinct, then pad by columns
	r := newCref(lgK)
	var d []cc
	for _, x := range out {
		if x.col < 64 && x.row < k && r.add(x) {
			d = append(d, x)
		}
	}
	for i := 0; len(d) < n; i++ {
		if x := (cc{i % k, i / k % 64}); r.add(x) {
			d = append(d, x)
		}
	}
	return d
}

var cpcKinds = []string{"natural", "columns", "rows", "high", "stride", "holes"}

func cpcCounts(lgK int, full bool) []int {
	k := 1 << lgK
	b := []int{0, 1, 2, (3*k+31)/32 - 1, (3*k + 31) / 32, k/2 - 1, k / 2, 27*k/8 - 1, 27 * k / 8, 27*k/8 + 1, 27*k/8 + k - 1, 27*k/8 + k}
	if full {
		b = append(b, 27*k/8+2*k, 27*k/8+7*k-1, 27*k/8+8*k, 20*k+k/3, 27*k/8+55*k, 27*k/8+56*k-4)
	}
	sort.Ints(b)
	var d []int
	for i, v := range b {
		if v >= 0 && (i == 0 || v != b[i-1]) {
			d = append(d, v)
		}
	}
	return d
}

func cpcBases(lgKs []int, full bool, kinds ...string) []cbase {
	var out []cbase
	for _, lgK := range lgKs {
		for _, kind := range kinds {
			for _, n := range cpcCounts(lgK, full) {
				if kind == "natural" && n > 18<<lgK {
					continue
				}
				if (kind == "rows" || kind == "high") && n > 20<<lgK && lgK > 5 {
					continue
				}
				if (kind == "rows" || kind == "high" || kind == "stride") && n > 2<<lgK && lgK > 8 {
					continue // tens of thousands of surprising values: quadratic in the pair table
				}
				kind, n, lgK := kind, n, lgK
				out = append(out, cbase{fmt.Sprintf("%s-%d", kind, n), lgK, func() []cc {
					if kind == "natural" {
						return naturalCoupons(lgK, n)
					}
					return orderedCoupons(kind, lgK, n)
				}})
			}
		}
	}
	return out
}

var cbaseCache = map[string][]cc{}

func (b cbase) coupons() []cc {
	k := b.String()
	if engine.Thread() == 0 {
		if x, ok := cbaseCache[k]; ok {
			return x
		}
	}
	x := b.f()
	if engine.Thread() == 0 {
		cbaseCache[k] = x
	}
	return x
}

func (b cbase) build(c *C, seed uint64) (*cpc.CpcSketch, *cref) {
	s, err := cpc.NewCpcSketch(b.lgK, seed)
	c.NoErr(err, "new")
	r := newCref(b.lgK)
	for _, x := range b.coupons() {
		if err := s.UpdateByteSlice(x.item(seed)); err != nil {
			c.Fail("update", "%v at %v: %v", b, x, err)
		}
		r.add(x)
	}
	return s, r
}

// couponAlphabet: coupons around the window of the state r.
func couponAlphabet(r *cref, wide bool) []cc {
	k, o := 1<<r.lgK, r.offset()
	a := []cc{{0, 0}, {k - 1, 63}, {3, o + 7}, {k / 2, min(o+8, 63)}, {1, max(o-1, 0)}, {5, min(o+1, 63)}}
	if wide {
		a = append(a, cc{2, o}, cc{k - 1, 1}, cc{7, min(o+12, 63)}, cc{0, 62})
	}
	// one that is already there
	for i := range r.m {
		if r.m[(i*5)%k] != 0 {
			w := r.m[(i*5)%k]
			a = append(a, cc{(i * 5) % k, 63 - bits.LeadingZeros64(w)})
			break
		}
	}
	// the first missing coupon: a surprising zero below the window if there is one
	for col := 0; col < 64; col++ {
		for row := k - 1; row >= 0; row-- {
			if r.m[row]>>uint(col)&1 == 0 {
				return append(a, cc{row, col})
			}
		}
	}
	return a
}

func c12Seq(lgKs []int, depth int, wide, full bool) engine.Scenario {
	bases := cpcBases(lgKs, full, cpcKinds...)
	return engine.Scenario{
		Name: fmt.Sprintf("cpc-sequences-lgK%v-depth%d", lgKs, depth), ShardDepth: 2,
		Bound: fmt.Sprintf("lgK %v; %d base states (arrival patterns %v x counts at every flavor change and window shift) x every sequence of %d coupons from an alphabet of up to %d around the window; after each: coupon set, header, HIP accumulator, repeated item changes no byte; at the end: equality with the same coupons in column order, copy independence", lgKs, len(bases), cpcKinds, depth, map[bool]int{false: 8, true: 12}[wide]),
		Run: func(c *C) {
			b := bases[c.Choose(len(bases), "base")]
			s, r := b.build(c, defaultSeed)
			c.Logf("base %v: %v", b, r)
			al := couponAlphabet(r, wide)
			if r.n > 0 {
				last := b.coupons()[r.n-1]
				b0 := checkCpc(c, s, r, defaultSeed, b.String())
				c.NoErr(s.UpdateByteSlice(last.item(defaultSeed)), "update")
				if !eqBytes(b0, cpcBytes(c, s, b.String())) {
					c.Fail("duplicate", "%v: repeating the last item changed the image", b)
				}
			}
			for i := 0; i < depth; i++ {
				x := al[c.Choose(len(al), "coupon")]
				if r2 := r.clone(); r2.add(x) && r2.overflowing() {
					return
				}
				c.Logf("coupon row %d col %d", x.row, x.col)
				c.Step()
				cp, err := s.Copy()
				c.NoErr(err, "copy")
				before := cpcBytes(c, s, "before")
				if err := s.UpdateByteSlice(x.item(defaultSeed)); err != nil {
					c.Fail("update", "%v + %v: %v", b, x, err)
				}
				novel := r.add(x)
				after := checkCpc(c, s, r, defaultSeed, fmt.Sprintf("%v + %d coupons", b, i+1))
				if !novel && !eqBytes(before, after) {
					c.Fail("duplicate", "%v: repeated coupon %v changed the image", b, x)
				}
				// the copy is what the sketch was, and catches up identically
				if !eqBytes(before, cpcBytes(c, cp, "copy")) {
					c.Fail("copy", "%v: the copy changed when the original was updated", b)
				}
				c.NoErr(cp.UpdateByteSlice(x.item(defaultSeed)), "copy-update")
				if !eqBytes(after, cpcBytes(c, cp, "copy")) || !eqBytes(after, cpcBytes(c, s, "original")) || cp.GetEstimate() != s.GetEstimate() {
					c.Fail("copy", "%v: the copy develops differently", b)
				}
				c.State(r.h())
			}
			o := canonical(c, r, defaultSeed)
			if !eqBytes(cpcMerged(c, s, defaultSeed, "history"), cpcMerged(c, o, defaultSeed, "column order")) {
				c.Fail("order", "%v: merged image differs from the one of the same coupons in column order", b)
			}
			c.Outcome(mix(uint64(r.flavor()), uint64(r.offset())))
		},
	}
}

// c12Stream compares a sketch with the reference at every prefix of long streams.
func c12Stream(lgKs []int, perK int) engine.Scenario {
	return engine.Scenario{
		Name: "cpc-streams", ShardDepth: 2,
		Bound: fmt.Sprintf("lgK %v x 6 arrival patterns (3 above lgK 6; integers 1..%d*k; four coupon patterns through all window positions; all 64*k.. up to the last legal count), each checked after every update for lgK <= 5 and at every flavor change, window shift and geometric step above", lgKs, perK),
		Run: func(c *C) {
			lgK := lgKs[c.Choose(len(lgKs), "lgK")]
			kind := cpcKinds[c.Choose(len(cpcKinds), "kind")]
			if lgK > 6 && kind != "natural" && kind != "columns" && kind != "holes" {
				return // tens of thousands of surprising values: quadratic in the pair table
			}
			s, err := cpc.NewCpcSketch(lgK, defaultSeed)
			c.NoErr(err, "new")
			r := newCref(lgK)
			var list []cc
			N := perK << lgK
			if kind != "natural" {
				N = min(N, (27+8*56)<<lgK/8-1)
				list = orderedCoupons(kind, lgK, N)
			}
			prevOff, prevFl, next := 0, 0, 0
			for i := 0; i < N; i++ {
				if kind == "natural" {
					c.NoErr(s.UpdateInt64(int64(i)+1), "update")
					r.addHash(hashI64(int64(i)+1, defaultSeed))
				} else {
					c.NoErr(s.UpdateByteSlice(list[i].item(defaultSeed)), "update")
					r.add(list[i])
				}
				c.Step()
				o, f := r.offset(), r.flavor()
				if lgK <= 5 || o != prevOff || f != prevFl || i >= next {
					checkCpc(c, s, r, defaultSeed, fmt.Sprintf("%s lgK=%d after %d", kind, lgK, i+1))
					c.State(r.h())
					if i >= next {
						next = i + i/8 + 1
					}
				}
				prevOff, prevFl = o, f
			}
			o := canonical(c, r, defaultSeed)
			if !eqBytes(cpcMerged(c, s, defaultSeed, "history"), cpcMerged(c, o, defaultSeed, "column order")) {
				c.Fail("order", "%s lgK=%d: merged image differs from the one of the same coupons in column order", kind, lgK)
			}
		},
	}
}

// c12Keys: every update entry point hashes its value the documented way.
func c12Keys() engine.Scenario {
	ints := []int64{0, 1, -1, 255, 256, -256, 1 << 31, -(1 << 31), math.MaxInt64, math.MinInt64, 0x0102030405060708}
	fl := []float64{0, math.Copysign(0, -1), 1, -1, 0.5, math.NaN(), math.Float64frombits(0x7ff8000000000001), math.Float64frombits(0xfff8000000000000), math.Inf(1), math.Inf(-1), math.MaxFloat64, 5e-324}
	strs := []string{"", "a", "ab", "\x00", "0123456789abcdef", "0123456789abcdefg", "é"}
	i64 := [][]int64{{}, nil, {0}, {1, 2}, {-1}, {1, 2, 3}}
	i32 := [][]int32{{}, nil, {0}, {1, 2}, {-1}, {1, 2, 3, 4, 5}}
	n := len(ints)*2 + len(fl) + 2*len(strs) + len(i64) + len(i32)
	seeds := []uint64{defaultSeed, 1, 1 << 40, math.MaxUint64}
	return engine.Scenario{
		Name: "cpc-keys", ShardDepth: 1,
		Bound: fmt.Sprintf("%d values over all 7 update entry points x lgK 4, 11 x %d seeds, ordered pairs: coupon set equals the one of the documented hash; empty values are ignored; every permitted and refused lgK", n, len(seeds)),
		Run: func(c *C) {
			seed := seeds[c.Choose(len(seeds), "seed")]
			lgK := pickInt(c, "lgK", 4, 11)
			s, err := cpc.NewCpcSketch(lgK, seed)
			c.NoErr(err, "new")
			r := newCref(lgK)
			for step := 0; step < 2; step++ {
				i := c.Choose(n, "value")
				var b []byte
				var e error
				switch {
				case i < len(ints):
					b, e = le64(uint64(ints[i])), s.UpdateInt64(ints[i])
				case i < 2*len(ints):
					b, e = le64(uint64(ints[i-len(ints)])), s.UpdateUint64(uint64(ints[i-len(ints)]))
				case i < 2*len(ints)+len(fl):
					v := fl[i-2*len(ints)]
					e = s.UpdateFloat64(v)
					if v == 0 {
						v = 0
					}
					w := math.Float64bits(v)
					if v != v {
						w = 0x7ff8000000000000
					}
					b = le64(w)
					if v == 0 {
						b = le64(0)
					}
				case i < 2*len(ints)+len(fl)+len(strs):
					v := strs[i-2*len(ints)-len(fl)]
					b, e = []byte(v), s.UpdateString(v)
				case i < 2*len(ints)+len(fl)+2*len(strs):
					v := strs[i-2*len(ints)-len(fl)-len(strs)]
					b, e = []byte(v), s.UpdateByteSlice([]byte(v))
				case i < n-len(i32):
					v := i64[i-2*len(ints)-len(fl)-2*len(strs)]
					for _, x := range v {
						b = append(b, le64(uint64(x))...)
					}
					e = s.UpdateInt64Slice(v)
				default:
					v := i32[i-(n-len(i32))]
					for _, x := range v {
						b = binary.LittleEndian.AppendUint32(b, uint32(x))
					}
					if len(v)%2 == 1 && v[len(v)-1] < 0 { // an odd last int is sign-extended
						e = s.UpdateInt32Slice(v)
						c.NoErr(e, "update")
						return
					}
					e = s.UpdateInt32Slice(v)
				}
				c.NoErr(e, "update")
				c.Logf("value bytes %x", b)
				if len(b) > 0 {
					r.addHash(hash128(b, seed))
				}
				c.Step()
				checkCpc(c, s, r, seed, fmt.Sprintf("value %x", b))
			}
			for k := -1; k <= 40; k++ {
				s, err := cpc.NewCpcSketch(k, seed)
				c.Assert((err == nil) == (k >= 4 && k <= 26), "lgk", "NewCpcSketch(%d): %v", k, err)
				if err == nil && k <= 12 {
					d, err := cpc.NewCpcSketchWithDefault(k)
					c.NoErr(err, "new")
					c.Assert(s.GetLgK() == k && d.GetLgK() == k && s.GetEstimate() == 0, "lgk", "GetLgK %d", s.GetLgK())
				}
			}
			c.State(r.h())
		},
	}
}

// c12Perm: all arrival orders of the same items.
func c12Perm(lgK, n int) engine.Scenario {
	return engine.Scenario{
		Name: fmt.Sprintf("cpc-permutations-lgK%d", lgK), ShardDepth: 3,
		Bound: fmt.Sprintf("lgK %d, 4 base states around flavor changes, all %d! orders of %d further coupons (window, early and late zone): one coupon set, one merged image", lgK, n, n),
		Run: func(c *C) {
			k := 1 << lgK
			starts := []int{0, k/2 - 2, 27*k/8 - 2, 27*k/8 + k - 2}
			b := cbase{fmt.Sprintf("perm%d", c.Choose(len(starts), "base")), lgK, nil}
			base := starts[int(b.name[4]-'0')]
			b.f = func() []cc { return orderedCoupons("holes", lgK, base) }
			s, r := b.build(c, defaultSeed)
			o := r.offset()
			all := []cc{{3, 0}, {3, o + 8}, {k - 1, 40}, {2, o + 7}, {6, o + 1}, {9, o + 9}, {1, o + 3}, {k - 1, 0}, {12, 8}}[:n]
			rest := append([]cc{}, all...)
			for len(rest) > 0 {
				i := c.Choose(len(rest), "next")
				c.NoErr(s.UpdateByteSlice(rest[i].item(defaultSeed)), "update")
				r.add(rest[i])
				rest = append(append([]cc{}, rest[:i]...), rest[i+1:]...)
				c.Step()
			}
			checkCpc(c, s, r, defaultSeed, "permutation")
			if !eqBytes(cpcMerged(c, s, defaultSeed, "permutation"), cpcMerged(c, canonical(c, r, defaultSeed), defaultSeed, "column order")) {
				c.Fail("order", "merged image depends on the order")
			}
			c.State(r.h())
		},
	}
}

func init() {
	engine.Register(engine.Property{ID: "C12", Assumptions: []string{
		"coupon sets are read by feeding the sketch to a fresh union of the same precision and reading its bit matrix; C13 decides the union itself",
		"items with a wanted hash are found by inverting MurmurHash3 on 16-byte inputs; the inversion is re-checked on every item",
		"histories stop before 59.375 coupons per row, where no window position exists (unreachable with fewer than 2^56 items)",
	}, Scenarios: func(tier string) []engine.Scenario {
		if tier == "thorough" {
			return []engine.Scenario{
				c12Keys(), c12Perm(4, 8), c12Perm(5, 8),
				c12Seq([]int{4}, 4, true, true), c12Seq([]int{5, 6}, 3, true, true), c12Seq([]int{4, 5, 7, 8}, 3, false, true), c12Seq([]int{10, 12}, 2, false, false),
				c12Stream([]int{4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17}, 60),
			}
		}
		return []engine.Scenario{
			c12Keys(), c12Perm(4, 7),
			c12Seq([]int{4}, 3, false, true), c12Seq([]int{5}, 2, true, true), c12Seq([]int{6, 8, 10}, 1, false, false),
			c12Stream([]int{4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 15}, 60),
		}
	}})
}
