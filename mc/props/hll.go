package props

import (
	"encoding/binary"
	"fmt"
	"math"
	"sort"

	"github.com/apache/datasketches-go/hll"

	"verifmc/engine"
)

// An HLL coupon: 26 address bits and a value 1..63.
type coup struct {
	addr uint32
	val  uint8
}

func (k coup) packed() uint32 { return uint32(k.val)<<26 | k.addr }

// item is a 16-byte item with exactly this coupon.
func (k coup) item() []byte {
	h1 := uint64(k.addr) | 0x1234567<<26
	var h2 uint64
	if k.val < 63 {
		h2 = 1<<63>>(k.val-1) | 0x155
	}
	if k.val > 50 {
		h2 &^= 0x155
		if k.val < 63 {
			h2 |= 1 << 63 >> (k.val - 1)
		}
	}
	return itemFor(h1, h2, defaultSeed)
}

var hllTypes = []hll.TgtHllType{hll.TgtHllTypeHll4, hll.TgtHllTypeHll6, hll.TgtHllTypeHll8}
var hllTypeNames = []string{"HLL_4", "HLL_6", "HLL_8"}

// href is the reference content: the distinct coupons since the last reset.
type href struct {
	lgK   int
	set   map[uint32]bool
	list  []uint32 // in order of arrival
	regs  []uint8  // per-slot maxima
	hip   float64  // increments since promotion
	base  float64  // distinct coupons at promotion
	isHll bool
	big   bool    // forget the coupons after promotion
	kx    float64 // with big: the register sum
}

func newHref(lgK int) *href {
	return &href{lgK: lgK, set: map[uint32]bool{}, regs: make([]uint8, 1<<lgK)}
}

func (r *href) kxq() float64 {
	s := 0.0
	for _, v := range r.regs {
		s += math.Ldexp(1, -int(v))
	}
	return s
}

// promotes tells whether n distinct coupons are stored as a full array at this precision.
func promotes(lgK, n int) bool {
	if lgK < 8 {
		return n >= 8
	}
	return 4*n > 3<<(lgK-3)
}

func (r *href) add(k coup) {
	p := k.packed()
	if !(r.big && r.isHll) && r.set[p] {
		return
	}
	slot := k.addr & (1<<r.lgK - 1)
	if r.big && r.isHll {
		if k.val > r.regs[slot] {
			r.hip += float64(uint64(1)<<r.lgK) / r.kx
			r.kx += math.Ldexp(1, -int(k.val)) - math.Ldexp(1, -int(r.regs[slot]))
			r.regs[slot] = k.val
		}
		return
	}
	if r.isHll && k.val > r.regs[slot] {
		r.hip += float64(uint64(1)<<r.lgK) / r.kxq()
	}
	r.set[p] = true
	r.list = append(r.list, p)
	r.regs[slot] = max(r.regs[slot], k.val)
	if !r.isHll && promotes(r.lgK, len(r.list)) {
		r.isHll = true
		r.base = float64(len(r.list))
		if r.big {
			r.kx = r.kxq()
		}
	}
}

func (r *href) sortedCoupons() []uint32 {
	b := append([]uint32{}, r.list...)
	sort.Slice(b, func(i, j int) bool { return b[i] < b[j] })
	return b
}

func (r *href) fp() uint64 {
	h := uint64(r.lgK)
	if r.isHll {
		for i, v := range r.regs {
			if v != 0 {
				h = mix(h, uint64(i), uint64(v))
			}
		}
		return mix(h, math.Float64bits(r.hip))
	}
	for _, p := range r.sortedCoupons() {
		h = mix(h, uint64(p))
	}
	return h
}

// himg is an independently decoded HLL image.
type himg struct {
	mode, typ, lgK int
	coupons        []uint32 // sorted; modes 0 and 1
	regs           []uint8  // mode 2
	hip, kxq       float64
	curMin         int
	numAtCurMin    int
	ooo            bool
	empty          bool
	rebuild        bool
}

// decodeHll decodes an image according to the documented layout; it complains about anything inconsistent.
func decodeHll(b []byte, compact bool) (h himg, err error) {
	bad := func(f string, a ...any) (himg, error) { return h, fmt.Errorf(f, a...) }
	if len(b) < 8 {
		return bad("%d bytes", len(b))
	}
	h.mode, h.typ, h.lgK = int(b[7]&3), int(b[7]>>2&3), int(b[3])
	if b[1] != 1 || b[2] != 7 {
		return bad("serial version %d family %d", b[1], b[2])
	}
	if want := []byte{2, 3, 10, 0}[h.mode]; b[0] != want {
		return bad("preamble ints %d in mode %d", b[0], h.mode)
	}
	fl := b[5]
	h.empty, h.ooo, h.rebuild = fl&4 != 0, fl&16 != 0, fl&32 != 0
	if (fl&8 != 0) != compact && (h.mode != 2 || h.typ == 0) { // the larger array forms have one layout for both
		return bad("compact flag %v", fl&8 != 0)
	}
	u32 := func(o int) uint32 { return binary.LittleEndian.Uint32(b[o:]) }
	switch h.mode {
	case 0, 1:
		n, start, arr := int(b[6]), 8, 8
		if h.mode == 1 {
			if len(b) < 12 {
				return bad("%d bytes in set mode", len(b))
			}
			n, start, arr = int(u32(8)), 12, 1<<b[4]
		}
		if h.mode == 0 && b[4] != 3 {
			return bad("lgArr %d of a list", b[4])
		}
		size := start + 4*n
		if !compact {
			size = start + 4*arr
		}
		if len(b) != size {
			return bad("%d bytes, expected %d", len(b), size)
		}
		for o := start; o < len(b); o += 4 {
			if p := u32(o); p != 0 {
				h.coupons = append(h.coupons, p)
			}
		}
		if len(h.coupons) != n {
			return bad("count %d but %d coupons", n, len(h.coupons))
		}
		sort.Slice(h.coupons, func(i, j int) bool { return h.coupons[i] < h.coupons[j] })
		if h.empty != (n == 0) {
			return bad("empty flag %v with %d coupons", h.empty, n)
		}
		return h, nil
	case 2:
		if len(b) < 40 {
			return bad("%d bytes in HLL mode", len(b))
		}
		f64 := func(o int) float64 { return math.Float64frombits(binary.LittleEndian.Uint64(b[o:])) }
		h.curMin = int(b[6])
		h.hip, h.kxq, h.numAtCurMin = f64(8), f64(16)+f64(24), int(u32(32))
		aux := int(u32(36))
		k := 1 << h.lgK
		h.regs = make([]uint8, k)
		d := b[40:]
		switch h.typ {
		case 0:
			na := aux
			if !compact {
				if aux > 0 {
					na = 1 << b[4]
				} else {
					na = 4 << []int{0, 2, 2, 2, 2, 2, 2, 3, 3, 3, 4, 4, 5, 5, 6, 7, 8, 9, 10, 11, 12, 13}[h.lgK] >> 2
				}
			}
			if len(d) != k/2+4*na {
				return bad("%d data bytes, expected %d", len(d), k/2+4*na)
			}
			exc := map[uint32]uint8{}
			for i := 0; i < na; i++ {
				p := binary.LittleEndian.Uint32(d[k/2+4*i:])
				if p != 0 {
					s := p & uint32(k-1)
					if _, dup := exc[s]; dup {
						return bad("slot %d twice in the exception table", s)
					}
					exc[s] = uint8(p >> 26)
				}
			}
			if len(exc) != aux {
				return bad("exception count %d but %d exceptions", aux, len(exc))
			}
			for i := range h.regs {
				n := d[i/2] >> (4 * uint(i&1)) & 15
				v := n + uint8(h.curMin)
				if n == 15 {
					e, ok := exc[uint32(i)]
					if !ok || int(e) < h.curMin+15 {
						return bad("slot %d: exception token, exception %d (%v) curMin %d", i, e, ok, h.curMin)
					}
					v = e
					delete(exc, uint32(i))
				}
				h.regs[i] = v
			}
			if len(exc) != 0 {
				return bad("exceptions without a token: %v", exc)
			}
		case 1:
			if len(d) != k*3/4+1 {
				return bad("%d data bytes, expected %d", len(d), k*3/4+1)
			}
			for i := range h.regs {
				bit := 6 * i
				w := uint16(d[bit/8]) | uint16(d[bit/8+1])<<8
				h.regs[i] = uint8(w >> (bit & 7) & 63)
			}
		case 2:
			if len(d) != k {
				return bad("%d data bytes, expected %d", len(d), k)
			}
			copy(h.regs, d)
		default:
			return bad("type %d", h.typ)
		}
		if h.empty {
			return bad("empty flag in HLL mode")
		}
		return h, nil
	}
	return bad("mode %d", h.mode)
}

// hregs checks the redundant fields of a full-array image against its registers.
func (h himg) consistent() error {
	if h.mode != 2 || h.rebuild {
		return nil
	}
	s, mn, nmn, zeros := 0.0, 64, 0, 0
	for _, v := range h.regs {
		s += math.Ldexp(1, -int(v))
		if int(v) < mn {
			mn, nmn = int(v), 0
		}
		if int(v) == mn {
			nmn++
		}
		if v == 0 {
			zeros++
		}
	}
	if !near(s, h.kxq, 1e-12) {
		return fmt.Errorf("sum of 2^-register is %v, stored %v", s, h.kxq)
	}
	if h.typ == 0 && (h.curMin != mn || h.numAtCurMin != nmn) {
		return fmt.Errorf("minimum register %d (%d times), stored %d (%d times)", mn, nmn, h.curMin, h.numAtCurMin)
	}
	if h.typ != 0 && h.curMin == 0 && h.numAtCurMin != zeros {
		return fmt.Errorf("%d zero registers, stored %d", zeros, h.numAtCurMin)
	}
	if h.typ != 0 && h.curMin != 0 && zeros != 0 {
		return fmt.Errorf("%d zero registers, stored minimum %d", zeros, h.curMin)
	}
	return nil
}

// himage is the decoded updatable image of a sketch.
func himage(c *C, s hllSer, what string) himg {
	b, err := s.ToUpdatableSlice()
	c.NoErr(err, "to-updatable")
	h, err := decodeHll(b, false)
	if err != nil {
		c.Fail("image", "%s: updatable image: %v", what, err)
	}
	c.Assert(s.GetUpdatableSerializationBytes() == len(b), "image-size", "%s: GetUpdatableSerializationBytes %d, image has %d", what, s.GetUpdatableSerializationBytes(), len(b))
	if err := h.consistent(); err != nil {
		c.Fail("image", "%s: %v", what, err)
	}
	return h
}

func himageC(c *C, s hllSer, what string) himg {
	b, err := s.ToCompactSlice()
	c.NoErr(err, "to-compact")
	h, err := decodeHll(b, true)
	if err != nil {
		c.Fail("image", "%s: compact image: %v", what, err)
	}
	if err := h.consistent(); err != nil {
		c.Fail("image", "%s: compact: %v", what, err)
	}
	return h
}

type hllSer interface {
	ToCompactSlice() ([]byte, error)
	ToUpdatableSlice() ([]byte, error)
	GetUpdatableSerializationBytes() int
}

func (h himg) sameContent(g himg) bool {
	return (h.mode == 2) == (g.mode == 2) && h.lgK == g.lgK && string(h.regs) == string(g.regs) && eqU32(h.coupons, g.coupons)
}

func eqU32(a, b []uint32) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// matches compares an image with the reference.
func (h himg) matches(r *href) error {
	if h.lgK != r.lgK {
		return fmt.Errorf("lgK %d, expected %d", h.lgK, r.lgK)
	}
	if h.empty != (len(r.list) == 0) {
		return fmt.Errorf("empty flag %v with %d items", h.empty, len(r.list))
	}
	if h.mode == 2 {
		if len(r.list) == 0 {
			return fmt.Errorf("a full array holding nothing")
		}
		for i, v := range r.regs {
			if h.regs[i] != v {
				return fmt.Errorf("register %d is %d, the items seen give %d", i, h.regs[i], v)
			}
		}
		return nil
	}
	if !eqU32(h.coupons, r.sortedCoupons()) {
		return fmt.Errorf("coupons %x, the items seen give %x", h.coupons, r.sortedCoupons())
	}
	return nil
}

type hEst struct{ est, comp float64 }

func hllEst(c *C, s hll.HllSketch) hEst {
	e, err := s.GetEstimate()
	c.NoErr(err, "estimate")
	k, err := s.GetCompositeEstimate()
	c.NoErr(err, "composite")
	return hEst{e, k}
}

// hllFrom builds a fresh sketch from coupons.
func hllFrom(c *C, lgK int, typ hll.TgtHllType, coupons []uint32) hll.HllSketch {
	s, err := hll.NewHllSketch(lgK, typ)
	c.NoErr(err, "new")
	for _, p := range coupons {
		c.NoErr(s.UpdateSlice(coup{p & (1<<26 - 1), uint8(p >> 26)}.item()), "update")
	}
	return s
}

var hllCompMemo = map[uint64]float64{}

// refComposite is the composite estimate of a fresh 8-bit sketch fed the reference's items in sorted order.
func refComposite(c *C, r *href) float64 {
	h := mix(uint64(r.lgK), uint64(len(r.list)))
	cs := r.sortedCoupons()
	for _, p := range cs {
		h = mix(h, uint64(p))
	}
	if v, ok := hllCompMemo[h]; ok {
		return v
	}
	v := hllEst(c, hllFrom(c, r.lgK, hll.TgtHllTypeHll8, cs)).comp
	if len(hllCompMemo) < 1<<18 {
		hllCompMemo[h] = v
	}
	return v
}

// trio is the same history in the 4-, 6- and 8-bit forms with the reference.
type trio struct {
	s [3]hll.HllSketch
	r *href
}

func newTrio(c *C, lgK int) *trio {
	t := &trio{r: newHref(lgK)}
	for i, ty := range hllTypes {
		s, err := hll.NewHllSketch(lgK, ty)
		c.NoErr(err, "new")
		t.s[i] = s
	}
	return t
}

func (t *trio) add(c *C, k coup) {
	it := k.item()
	for _, s := range t.s {
		c.NoErr(s.UpdateSlice(it), "update")
		c.Step()
	}
	t.r.add(k)
}

func (t *trio) check(c *C, full bool) {
	var e [3]hEst
	for i, s := range t.s {
		h := himage(c, s, hllTypeNames[i])
		if err := h.matches(t.r); err != nil {
			c.Fail("content", "%s lgK=%d: %v", hllTypeNames[i], t.r.lgK, err)
		}
		c.Assert(h.typ == i && s.GetTgtHllType() == hllTypes[i], "type", "%s became type %d", hllTypeNames[i], h.typ)
		c.Assert(s.IsEmpty() == (len(t.r.list) == 0), "empty", "%s: IsEmpty %v after %d distinct items", hllTypeNames[i], s.IsEmpty(), len(t.r.list))
		c.Assert(s.GetLgConfigK() == t.r.lgK, "lgk", "%s: lgK %d", hllTypeNames[i], s.GetLgConfigK())
		e[i] = hllEst(c, s)
		if full {
			g := himageC(c, s, hllTypeNames[i])
			c.Assert(g.sameContent(h) && g.typ == i, "image-forms", "%s: compact and updatable images differ in content", hllTypeNames[i])
		}
		if i > 0 {
			if !sameF(e[i].est, e[0].est) {
				c.Fail("hip-types", "lgK=%d: estimate %v in %s, %v in HLL_4", t.r.lgK, e[i].est, hllTypeNames[i], e[0].est)
			}
			if !sameF(e[i].comp, e[0].comp) {
				c.Fail("composite-types", "lgK=%d: composite estimate %v in %s, %v in HLL_4", t.r.lgK, e[i].comp, hllTypeNames[i], e[0].comp)
			}
			for sd := 1; sd <= 3; sd++ {
				l0, _ := t.s[0].GetLowerBound(sd)
				u0, _ := t.s[0].GetUpperBound(sd)
				l, e1 := s.GetLowerBound(sd)
				u, e2 := s.GetUpperBound(sd)
				c.Assert(e1 == nil && e2 == nil && l == l0 && u == u0, "bounds-types", "bounds differ between forms: %v %v, %v %v", l0, u0, l, u)
			}
		}
	}
	n := float64(len(t.r.list))
	switch {
	case n == 0:
		c.Assert(e[0].est == 0 && e[0].comp == 0, "empty-estimate", "estimates %v of an empty sketch", e[0])
	case t.s[0].GetCurMode() != t.s[2].GetCurMode():
		c.Fail("mode", "forms are in different modes")
	case himage(c, t.s[2], "HLL_8").mode != 2:
		c.Assert(e[0].est == e[0].comp && math.Abs(e[0].est-n) <= 0.5, "coupon-estimate", "estimates %v of %v stored items", e[0], n)
	default:
		if t.r.isHll && math.Abs(e[0].est-(t.r.base+t.r.hip)) > 0.5+1e-9*e[0].est {
			c.Fail("hip", "lgK=%d: estimate %v, the history gives %v", t.r.lgK, e[0].est, t.r.base+t.r.hip)
		}
		if full {
			if rc := refComposite(c, t.r); !near(rc, e[0].comp, 1e-12) {
				c.Fail("composite-order", "lgK=%d: composite estimate %v, %v for the same items in another order", t.r.lgK, e[0].comp, rc)
			}
		}
	}
	c.State(t.r.fp())
}

// convert checks every copy and conversion of every form, then grows the copies and looks at the source.
func (t *trio) convert(c *C, more []coup) {
	for i, s := range t.s {
		before, err := s.ToUpdatableSlice()
		c.NoErr(err, "to-updatable")
		eb := hllEst(c, s)
		hb := himage(c, s, "source")
		for j := -1; j < 3; j++ {
			var d hll.HllSketch
			var err error
			want := i
			if j < 0 {
				d, err = s.Copy()
			} else {
				d, err = s.CopyAs(hllTypes[j])
				want = j
			}
			c.NoErr(err, "copy")
			c.Step()
			what := fmt.Sprintf("%s copied as %s", hllTypeNames[i], hllTypeNames[want])
			h := himage(c, d, what)
			c.Assert(h.typ == want, "copy-type", "%s has type %d", what, h.typ)
			if err := h.matches(t.r); err != nil {
				c.Fail("copy-content", "%s lgK=%d: %v", what, t.r.lgK, err)
			}
			c.Assert(h.mode == hb.mode && h.ooo == hb.ooo, "copy-mode", "%s: mode %d -> %d, out-of-order %v -> %v", what, hb.mode, h.mode, hb.ooo, h.ooo)
			ed := hllEst(c, d)
			c.Assert(sameF(ed.est, eb.est) && near(ed.comp, eb.comp, 1e-12), "copy-estimate", "%s: estimates %v -> %v", what, eb, ed)
			r2 := newHref(t.r.lgK)
			for _, p := range t.r.list {
				r2.add(coup{p & (1<<26 - 1), uint8(p >> 26)})
			}
			for _, k := range more {
				r2.add(k)
				c.NoErr(d.UpdateSlice(k.item()), "update")
			}
			if err := himage(c, d, what).matches(r2); err != nil {
				c.Fail("copy-grown", "%s lgK=%d, then updated: %v", what, t.r.lgK, err)
			}
			after, _ := s.ToUpdatableSlice()
			c.Assert(eqBytes(before, after) && hllEst(c, s) == eb, "copy-source", "%s: the source changed", what)
		}
	}
}

// --- C08 -------------------------------------------------------------------------------------

// hllBase brings a sketch to an interesting region; cnt coupons with values below 15.
type hllBase struct {
	name string
	lgK  int
	f    func() []coup
}

func seqCoups(n int, addr func(i int) uint32, val func(i int) uint8) []coup {
	r := make([]coup, n)
	for i := range r {
		r[i] = coup{addr(i) & (1<<26 - 1), val(i)}
	}
	return r
}

func hllBases(lgK int) []hllBase {
	k := 1 << lgK
	b := []hllBase{{"empty", lgK, func() []coup { return nil }}}
	add := func(name string, n int, addr func(i int) uint32, val func(i int) uint8) {
		b = append(b, hllBase{name, lgK, func() []coup { return seqCoups(n, addr, val) }})
	}
	one := func(int) uint8 { return 1 }
	add("list-almost-full", 6, func(i int) uint32 { return uint32(i*7 + 3) }, one)
	if lgK >= 8 {
		lim := 3 << (lgK - 3) / 4
		add("set-almost-full", lim-1, func(i int) uint32 { return uint32(i * 5) }, one)
		add("set-colliding", lim-1, func(i int) uint32 { return uint32(i) << 12 }, func(i int) uint8 { return uint8(1 + i%3) })
		add("set-one-slot", lim-1, func(i int) uint32 { return uint32(i)<<uint(lgK) | 3 }, func(i int) uint8 { return uint8(1 + i%20) })
		if lgK > 8 {
			add("set-before-growth", 23, func(i int) uint32 { return uint32(i*32 + 1) }, func(i int) uint8 { return uint8(1 + i) })
		}
	}
	all := func(v func(i int) uint8, skip int) func() []coup {
		return func() []coup {
			var r []coup
			for i := 0; i < k; i++ {
				if i != skip {
					r = append(r, coup{uint32(i), v(i)})
				}
			}
			// make sure that the array form is reached even for few slots: same slots, other addresses
			for j := 1; !promotes(lgK, len(r)); j++ {
				r = append(r, coup{uint32(j<<lgK) | uint32((skip+1)&(k-1)), 1})
			}
			return r
		}
	}
	b = append(b,
		hllBase{"array-one-slot-left", lgK, all(func(int) uint8 { return 1 }, 2)},
		hllBase{"array-all-2-but-one", lgK, func() []coup {
			r := all(func(int) uint8 { return 2 }, -1)()
			return append([]coup{{5 & uint32(k-1), 1}}, r...)
		}},
		hllBase{"array-mixed", lgK, all(func(i int) uint8 { return uint8(1 + i%14) }, 2)},
		hllBase{"array-exceptions", lgK, all(func(i int) uint8 { return uint8(1 + i%3*15) }, 2)},
		hllBase{"array-many-exceptions", lgK, all(func(i int) uint8 { return uint8(1 + (i*2/3+1)%2*(15+i%40)) }, 2)},
		hllBase{"array-high", lgK, all(func(i int) uint8 { return uint8(30 + i%4) }, 2)},
	)
	return b
}

func trioFrom(c *C, b hllBase) *trio {
	t := newTrio(c, b.lgK)
	for _, k := range b.f() {
		t.add(c, k)
	}
	return t
}

func c08Seq(lgKs []int, slots []uint32, vals []uint8, depth int) engine.Scenario {
	return engine.Scenario{
		Name: "hll-sequences", ShardDepth: 3,
		Bound: fmt.Sprintf("lgK %v x every base region (empty, list/set/growth/promotion edges, arrays one step from a minimum shift, exception tables, high registers) x every sequence of up to %d operations from {update slot %v x value %v, reset, replace every form by its copy, rotate the forms by conversion}; the three forms run in lock step against the register reference", lgKs, depth, slots, vals),
		Run: func(c *C) {
			lgK := lgKs[c.Choose(len(lgKs), "lgK")]
			bs := hllBases(lgK)
			bi := c.Choose(len(bs), "base")
			c.Logf("lgK=%d base=%s", lgK, bs[bi].name)
			t := trioFrom(c, bs[bi])
			t.check(c, true)
			nu := len(slots) * len(vals)
			for d := 0; d < depth; d++ {
				op := c.Choose(nu+4, "op")
				if op == nu+3 {
					break
				}
				switch {
				case op < nu:
					k := coup{slots[op%len(slots)], vals[op/len(slots)]}
					c.Logf("update slot %d value %d", k.addr, k.val)
					t.add(c, k)
				case op == nu:
					c.Logf("reset")
					for _, s := range t.s {
						c.NoErr(s.Reset(), "reset")
					}
					t.r = newHref(lgK)
				case op == nu+1:
					c.Logf("copy")
					for i, s := range t.s {
						x, err := s.Copy()
						c.NoErr(err, "copy")
						t.s[i] = x
					}
				case op == nu+2:
					c.Logf("convert 4->6->8->4")
					var n [3]hll.HllSketch
					for i, s := range t.s {
						x, err := s.CopyAs(hllTypes[(i+1)%3])
						c.NoErr(err, "copy-as")
						n[(i+1)%3] = x
					}
					t.s = n
				}
				t.check(c, d == depth-1)
			}
		},
	}
}

func c08Copies(lgKs []int) engine.Scenario {
	more := []coup{{0, 3}, {1, 17}, {2, 1}, {2, 40}, {3, 63}, {1 << 20, 2}, {5 << 18, 1}}
	return engine.Scenario{
		Name: "hll-copies", ShardDepth: 2,
		Bound: fmt.Sprintf("lgK %v x every base region x every prefix of 3 further updates: Copy and CopyAs between every pair of forms keep registers, mode, flags and estimates, can be grown on, and leave the source byte-identical", lgKs),
		Run: func(c *C) {
			lgK := lgKs[c.Choose(len(lgKs), "lgK")]
			bs := hllBases(lgK)
			b := bs[c.Choose(len(bs), "base")]
			n := c.Choose(4, "more")
			t := trioFrom(c, b)
			for _, k := range more[:n] {
				t.add(c, k)
			}
			t.check(c, true)
			t.convert(c, more[n:])
		},
	}
}

// c08Growth: streams long enough to pass every growth step, with a bounded number of irregularities.
func c08Growth(lgKs []int, dev int, past int) engine.Scenario {
	pats := []struct {
		name string
		f    func(i int) coup
	}{
		{"spread", func(i int) coup { h := mix(uint64(i), 7); return coup{uint32(h) & (1<<26 - 1), uint8(1 + h>>32%30)} }},
		{"colliding", func(i int) coup { return coup{uint32(i) << 13 & (1<<26 - 1), uint8(1 + i%2)} }},
		{"one-address", func(i int) coup { return coup{uint32(i/60*4 + 1), uint8(1 + i%60)} }},
		{"descending", func(i int) coup { return coup{uint32(1<<26 - 1 - i*3), uint8(1 + i%5)} }},
	}
	return engine.Scenario{
		Name: "hll-growth", ShardDepth: 2,
		Bound: fmt.Sprintf("lgK %v x 4 address patterns (spread, probe collisions, many values of one address, descending), streamed to %d items past promotion with up to %d irregularities (repeat an old item, repeat the last, copy all forms) at every position; checked at every item around each growth and promotion", lgKs, past, dev),
		Run: func(c *C) {
			lgK := lgKs[c.Choose(len(lgKs), "lgK")]
			p := pats[c.Choose(len(pats), "pattern")]
			lim := 8
			if lgK >= 8 {
				lim = 3<<(lgK-3)/4 + 1
			}
			n := lim + past
			t := newTrio(c, lgK)
			left := dev
			for i := 0; i < n; i++ {
				t.add(c, p.f(i))
				pos := lim <= 60 || i < 8 || i > lim-4 || i%24 == 0 || i%48 == 1
				if left > 0 && pos {
					switch c.Choose(4, "") {
					case 1:
						left--
						c.Logf("after %d: repeat the first", i)
						t.add(c, p.f(0))
					case 2:
						left--
						c.Logf("after %d: repeat the last and the middle", i)
						t.add(c, p.f(i))
						t.add(c, p.f(i/2))
					case 3:
						left--
						c.Logf("after %d: continue on copies", i)
						for j, s := range t.s {
							x, err := s.Copy()
							c.NoErr(err, "copy")
							t.s[j] = x
						}
					}
				}
				if pos {
					t.check(c, i == n-1)
				}
			}
			t.check(c, true)
		},
	}
}

var (
	hllVals = []uint64{0, 1, 2, 255, 1 << 31, 1 << 32, 1<<63 - 1, 1 << 63, math.MaxUint64, 0x0102030405060708}
	hllStrs = []string{"", "a", "ab", "abcdefgh", "abcdefghijklmno", "abcdefghijklmnop", "abcdefghijklmnopq", "\x00", "\xff\xfe"}
)

type hllUpd interface {
	UpdateUInt64(uint64) error
	UpdateInt64(int64) error
	UpdateSlice([]byte) error
	UpdateString(string) error
}

// hllInput presents input i with method m; it returns the bytes that are hashed.
func hllInput(s hllUpd, i, m int) ([]byte, error) {
	if i < len(hllVals) {
		v := hllVals[i]
		b := le64(v)
		switch m {
		case 0:
			return b, s.UpdateUInt64(v)
		case 1:
			return b, s.UpdateInt64(int64(v))
		}
		return b, s.UpdateSlice(b)
	}
	x := hllStrs[i-len(hllVals)]
	b := []byte(x)
	switch m {
	case 0:
		return b, s.UpdateString(x)
	case 1:
		return b, s.UpdateSlice(b)
	}
	if len(b) == 0 {
		b = nil
	}
	return b, s.UpdateSlice(b)
}

// c10Inputs: direct updates of a union through every method.
func c10Inputs() engine.Scenario {
	return engine.Scenario{
		Name: "hll-union-inputs", ShardDepth: 1,
		Bound: fmt.Sprintf("lgMaxK 4..21, unions of 0, 3, 20 and 2000 items, %d integers and %d strings through every update method, each twice: registers of the result as for a single sketch", len(hllVals), len(hllStrs)),
		Run: func(c *C) {
			lgK := 4 + c.Choose(18, "lgK")
			n := []int{0, 3, 20, 2000}[c.Choose(4, "items")]
			for i := 0; i < len(hllVals)+len(hllStrs); i++ {
				for m := 0; m < 3; m++ {
					if lgK > 14 && n == 2000 && (i+m)%7 > 0 {
						continue
					}
					u, err := hll.NewUnion(lgK)
					c.NoErr(err, "new")
					r := newHref(lgK)
					for j := 0; j < n; j++ {
						b := le64(uint64(j)*77 + 1000)
						c.NoErr(u.UpdateSlice(b), "update")
						r.add(hllCoupon(b))
					}
					for rep := 0; rep < 2; rep++ {
						b, err := hllInput(u, i, m)
						c.NoErr(err, "update")
						c.Step()
						if len(b) > 0 {
							r.add(hllCoupon(b))
						}
					}
					if err := himage(c, u, "union").matches(r); err != nil {
						c.Fail("input", "lgMaxK=%d %d items, input %d method %d: %v", lgK, n, i, m, err)
					}
					s, err := u.GetResult(hllTypes[(i+m)%3])
					c.NoErr(err, "result")
					if err := himage(c, s, "result").matches(r); err != nil {
						c.Fail("input", "lgMaxK=%d %d items, input %d method %d: result %v", lgK, n, i, m, err)
					}
					c.Assert(u.IsEmpty() == (n == 0 && i == len(hllVals)) && u.GetTgtHllType() == hll.TgtHllTypeHll8 && u.GetLgConfigK() == lgK, "accessors", "IsEmpty=%v type=%v lgK=%d", u.IsEmpty(), u.GetTgtHllType(), u.GetLgConfigK())
				}
			}
			c.State(mix(uint64(lgK), uint64(n)))
			c.Checked()
		},
	}
}

func c08Inputs() engine.Scenario {
	vals, strs := hllVals, hllStrs
	return engine.Scenario{
		Name: "hll-inputs", ShardDepth: 1,
		Bound: fmt.Sprintf("lgK 4..21 x 3 forms x all pairs of %d integers and %d strings through every update method: the coupon is that of the 128-bit hash of the bytes; empty input is ignored", len(vals), len(strs)),
		Run: func(c *C) {
			lgK := 4 + c.Choose(18, "lgK")
			ty := c.Choose(3, "type")
			for i := 0; i < len(vals)+len(strs); i++ {
				for m := 0; m < 3; m++ {
					s, err := hll.NewHllSketch(lgK, hllTypes[ty])
					c.NoErr(err, "new")
					r := newHref(lgK)
					for rep := 0; rep < 2; rep++ {
						b, err := hllInput(s, i, m)
						c.NoErr(err, "update")
						c.Step()
						if len(b) > 0 {
							r.add(hllCoupon(b))
						}
					}
					if err := himage(c, s, "input").matches(r); err != nil {
						c.Fail("input", "lgK=%d %s input %d method %d: %v", lgK, hllTypeNames[ty], i, m, err)
					}
				}
			}
			c.State(mix(uint64(lgK), uint64(ty)))
		},
	}
}

// hllCoupon is the coupon of an input.
func hllCoupon(b []byte) coup {
	h1, h2 := hash128(b, defaultSeed)
	lz := 0
	for lz < 62 && h2&(1<<63>>lz) == 0 {
		lz++
	}
	return coup{uint32(h1 & (1<<26 - 1)), uint8(lz + 1)}
}

func init() {
	engine.Register(engine.Property{
		ID:          "C08",
		Assumptions: []string{"items with a wanted hash are found by inverting MurmurHash3 on 16-byte inputs; the inversion is re-checked on every item"},
		Scenarios: func(tier string) []engine.Scenario {
			if tier == "thorough" {
				return []engine.Scenario{
					c08Inputs(),
					c08Copies([]int{4, 5, 6, 7, 8, 9, 10, 11}),
					c08Growth([]int{4, 5, 6, 7, 8, 9}, 2, 20),
					c08Growth([]int{10, 11, 12, 13}, 1, 40),
					c08Large([]int{10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21}),
					c08Seq([]int{4, 5, 8, 9}, []uint32{0, 2, 1<<20 | 2}, []uint8{1, 2, 15, 16, 17, 18, 31, 32, 33, 62, 63}, 3),
					c08Seq([]int{4}, []uint32{0, 2, 5}, []uint8{1, 3, 16, 17, 32, 63}, 5),
				}
			}
			return []engine.Scenario{
				c08Inputs(),
				c08Copies([]int{4, 5, 7, 8, 9, 10}),
				c08Growth([]int{4, 7, 8, 9}, 1, 12),
				c08Growth([]int{10, 11}, 1, 12),
				c08Large([]int{10, 12, 13, 15, 16}),
				c08Seq([]int{4, 5, 8}, []uint32{0, 2, 1<<20 | 2}, []uint8{1, 2, 16, 17, 32, 63}, 2),
				c08Seq([]int{4}, []uint32{0, 2}, []uint8{1, 3, 16, 17, 33}, 4),
			}
		},
	})
}
