package props

import (
	"bytes"
	"compress/zlib"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"math/bits"
	"strings"

	"github.com/apache/datasketches-go/cpc"
	"verifmc/engine"
)

// An independent reader of the CPC image format, written from its published layout; only the code tables are copied.

type cpcCodes struct {
	Unary [65]uint16
	Byt   [22][256]uint16
	Perm  [16][56]byte // column -> code
}

var cpcCode = func() (t cpcCodes) {
	z, err := base64.StdEncoding.DecodeString(strings.Map(func(r rune) rune {
		if r == '\n' {
			return -1
		}
		return r
	}, cpcTables))
	if err != nil {
		panic(err)
	}
	r, err := zlib.NewReader(bytes.NewReader(z))
	if err != nil {
		panic(err)
	}
	b, err := io.ReadAll(r)
	if err != nil || binary.Read(bytes.NewReader(b), binary.LittleEndian, &t) != nil {
		panic("cpc tables")
	}
	return
}()

// bitStream reads bits from the least significant end of each byte.
type bitStream struct {
	b   []byte
	pos int
	bad bool
}

func (s *bitStream) bit() int {
	if s.pos >= 8*len(s.b) {
		s.bad = true
		s.pos++
		return 0
	}
	v := int(s.b[s.pos>>3]>>(s.pos&7)) & 1
	s.pos++
	return v
}

func (s *bitStream) bits(n int) (v int) {
	for i := 0; i < n; i++ {
		v |= s.bit() << i
	}
	return
}

// sym reads one prefix code: entries are length<<12 | bits, the first bit lowest.
func (s *bitStream) sym(table []uint16) int {
	v := 0
	for l := 1; l <= 12; l++ {
		v |= s.bit() << (l - 1)
		for i, e := range table {
			if int(e>>12) == l && int(e&0xfff) == v {
				return i
			}
		}
	}
	s.bad = true
	return 0
}

// done says that what is left is the stated padding, zero, up to a whole 32-bit word.
func (s *bitStream) done(padding int) bool {
	if s.bad || len(s.b) != (s.pos+padding+31)/32*4 {
		return false
	}
	for s.pos < 8*len(s.b) {
		if s.bit() != 0 {
			return false
		}
	}
	return true
}

type cpcPair struct{ row, col int }

func cpcReadPairs(b []byte, k, n int) ([]cpcPair, bool) {
	q := k / n // rows per pair, rounded down
	base := 0
	if q > 0 {
		base = bits.Len(uint(q)) - 1
	}
	s := &bitStream{b: b}
	var out []cpcPair
	row, col := 0, 0
	for i := 0; i < n && !s.bad; i++ {
		dx := s.sym(cpcCode.Unary[:])
		hi := 0
		for s.bit() == 0 && !s.bad {
			hi++
		}
		dy := hi<<base | s.bits(base)
		if dy > 0 {
			row, col = row+dy, 0
		}
		col += dx
		out = append(out, cpcPair{row, col})
		col++
	}
	return out, s.done(max(0, 10-base))
}

// cpcRead reads an image into coupons and checks everything else it states against them.
func cpcRead(c *C, b []byte, r *cref, seed uint64, hip bool, what string) {
	le := binary.LittleEndian
	if len(b) < 8 {
		c.Fail("cpc-layout", "%s: image of %d bytes", what, len(b))
	}
	k := 1 << r.lgK
	format := int(b[5] >> 2)
	wantFmt := []int{0, 2, 2, 4, 4}[r.flavor()]
	hasWin := wantFmt == 4
	sh := seedHash16(seed)
	if hip {
		wantFmt |= 1
	}
	hasTab := r.n > 0 && (!hasWin || format&2 != 0)
	if hasTab {
		wantFmt |= 2
	}
	if b[1] != 1 || b[2] != 16 || int(b[3]) != r.lgK || b[5]&3 != 2 || format != wantFmt || le.Uint16(b[6:]) != sh {
		c.Fail("cpc-layout", "%s: preamble %x: want version 1, family 16, lgK %d, format %d, seed hash %04x", what, b[:8], r.lgK, wantFmt, sh)
	}
	pre := []int{2, 2, 4, 8, 4, 8, 6, 10}[format]
	if int(b[0]) != pre || len(b) < 4*pre {
		c.Fail("cpc-layout", "%s: preamble of %d ints in format %d, %d bytes", what, b[0], format, len(b))
	}
	fi := int(b[4])
	for _, w := range r.m {
		if fi > 63 || w&(1<<fi-1) != 1<<fi-1 {
			c.Fail("cpc-layout", "%s: first interesting column %d is not the first", what, fi)
		}
	}
	if r.n == 0 {
		c.Assert(len(b) == 8, "cpc-layout", "%s: empty image of %d bytes", what, len(b))
		return
	}
	if int(le.Uint32(b[8:])) != r.n {
		c.Fail("cpc-layout", "%s: image says %d coupons, want %d", what, le.Uint32(b[8:]), r.n)
	}
	nsv, svLen, wLen, kx := 0, 0, 0, 16
	switch format &^ 1 {
	case 2:
		nsv, svLen = r.n, int(le.Uint32(b[12:]))
	case 4:
		wLen = int(le.Uint32(b[12:]))
	case 6:
		nsv = int(le.Uint32(b[12:]))
		at := 16
		if hip {
			at = 32
		}
		svLen, wLen = int(le.Uint32(b[at:])), int(le.Uint32(b[at+4:]))
	}
	if hip {
		kxp, acc := math.Float64frombits(le.Uint64(b[kx:])), math.Float64frombits(le.Uint64(b[kx+8:]))
		if !near(acc, r.hip, r.tol) {
			c.Fail("cpc-layout", "%s: image says HIP %v, want %v", what, acc, r.hip)
		}
		if math.Abs(kxp-r.kxp()) > 1e-9*float64(k) {
			c.Fail("cpc-layout", "%s: image says kxp %v, want %v", what, kxp, r.kxp())
		}
	}
	if len(b) != 4*(pre+svLen+wLen) || (hasWin && wLen == 0) || (hasTab && (svLen == 0 || nsv == 0)) {
		c.Fail("cpc-layout", "%s: image of %d bytes with %d preamble, %d table and %d window words", what, len(b), pre, svLen, wLen)
	}
	m := make([]uint64, k)
	off := 0
	phase := 0
	if hasWin {
		off = max(0, (8*r.n-19*k)/(8*k))
		phase = cpcPhase(r.lgK, r.n)
		s := &bitStream{b: b[4*pre : 4*(pre+wLen)]}
		for i := range m {
			m[i] = uint64(s.sym(cpcCode.Byt[phase][:]))<<off | (1<<off - 1)
		}
		if !s.done(11) {
			c.Fail("cpc-window", "%s: the %d window words are not %d bytes in the code of phase %d", what, wLen, k, phase)
		}
	}
	if hasTab {
		pairs, ok := cpcReadPairs(b[4*(pre+wLen):], k, nsv)
		if !ok {
			c.Fail("cpc-pairs", "%s: the %d table words are not %d pairs", what, svLen, nsv)
		}
		for _, p := range pairs {
			col := p.col
			switch {
			case off > 0:
				if col >= 56 {
					c.Fail("cpc-pairs", "%s: code column %d", what, col)
				}
				for x, y := range cpcCode.Perm[phase] {
					if int(y) == col {
						col = (x + off + 8) & 63
						break
					}
				}
			case hasWin:
				col += 8
			}
			if p.row >= k || col > 63 {
				c.Fail("cpc-pairs", "%s: pair (%d,%d) with lgK %d", what, p.row, col, r.lgK)
			}
			m[p.row] ^= 1 << col
		}
	}
	if !eqU64(m, r.m) {
		c.Fail("cpc-content", "%s: the image (format %d, offset %d, phase %d, %d table pairs), read by its published layout, is another sketch: %s", what, format, off, phase, nsv, diffMatrix(m, r.m))
	}
	c.Checked()
}

// cpcPhase is the code that the window of n coupons is written in.
func cpcPhase(lgK, n int) int {
	k := 1 << lgK
	if 1000*n >= 2375*k {
		return n >> (lgK - 4) & 15
	}
	for i, lim := range [][2]int{{3, 4}, {11, 10}, {132, 100}, {5, 3}, {1965, 1000}, {2275, 1000}} {
		if lim[1]*n < lim[0]*k {
			return 16 + i
		}
	}
	return 6
}

// cpcBoth reads the image of the sketch itself and of what a union makes of it.
func cpcBoth(c *C, s *cpc.CpcSketch, r *cref, seed uint64, what string) {
	cpcRead(c, cpcBytes(c, s, what), r, seed, true, what)
	if r.n > 0 {
		cpcRead(c, cpcMerged(c, s, seed, what), r, seed, false, what+" merged")
	}
}

func c34Cpc(lgKs []int, full bool) engine.Scenario {
	bases := cpcBases(lgKs, full, cpcKinds...)
	seeds := []uint64{defaultSeed, 12345}
	return engine.Scenario{
		Name: "cpc", ShardDepth: 1,
		Bound: fmt.Sprintf("lgK %v: %d sketches in every flavor, and each after every coupon of an alphabet, streamed and merged, 2 seeds: preamble, streams and padding read bit by bit", lgKs, len(bases)),
		Run: func(c *C) {
			b := bases[c.Choose(len(bases), "base")]
			seed := seeds[c.Choose(2, "seed")]
			s, r := b.build(c, seed)
			c.Logf("%v %v", b, r)
			cpcBoth(c, s, r, seed, b.String())
			for i, x := range couponAlphabet(r, full) {
				if t := r.clone(); t.add(x) && t.overflowing() {
					break
				}
				c.NoErr(s.UpdateByteSlice(x.item(seed)), "update")
				r.add(x)
				cpcBoth(c, s, r, seed, fmt.Sprintf("%v and %d more", b, i+1))
				c.Step()
			}
			c.State(r.h())
			c.Outcome(mix(uint64(r.flavor())))
		},
	}
}

func c34CpcWindow(lgKs []int, offsets []int) engine.Scenario {
	return engine.Scenario{
		Name: "cpc-window", ShardDepth: 3,
		Bound: fmt.Sprintf("lgK %v x 22 codes (pinned: 6 and the steady code before its phase; sliding at offsets %v: 16 each) x 2 arrangements, all 256 byte values and every column outside the window", lgKs, offsets),
		Run: func(c *C) {
			lgK := lgKs[c.Choose(len(lgKs), "lgK")]
			ph := c.Choose(9+16*len(offsets), "phase")
			arr := c.Choose(2, "arrangement")
			off, r, list := cpcWindow(lgK, ph, arr, offsets)
			s, err := cpc.NewCpcSketch(lgK, defaultSeed)
			c.NoErr(err, "new")
			for _, x := range list {
				c.NoErr(s.UpdateByteSlice(x.item(defaultSeed)), "update")
			}
			c.Steps(len(list))
			what := fmt.Sprintf("lgK=%d phase %d offset %d %v", lgK, ph, off, r)
			c.Logf("%s", what)
			cpcBoth(c, s, r, defaultSeed, what)
			c.State(r.h())
			c.Outcome(mix(uint64(ph)))
		},
	}
}

// c34CpcPairs: sparse images at every precision, with the longest row gaps.
func c34CpcPairs(n int) engine.Scenario {
	return engine.Scenario{
		Name: "cpc-pairs", ShardDepth: 3,
		Bound: fmt.Sprintf("lgK 7..26; every choice of up to %d coupons with rows from 0, 1, 2^(lgK-1), 2^lgK-1 and columns 0, 1, 7, 8, 31, 62, 63: the pairs read bit by bit", n),
		Run: func(c *C) {
			lgK := 7 + c.Choose(20, "lgK")
			k := 1 << lgK
			rows := []int{0, 1, k / 2, k - 1}
			cols := []int{0, 1, 7, 8, 31, 62, 63}
			s, err := cpc.NewCpcSketch(lgK, defaultSeed)
			c.NoErr(err, "new")
			want := map[cpcPair]bool{}
			last := -1
			for i := 0; i < n; i++ {
				j := c.Choose(len(rows)*len(cols)+1, "coupon")
				if j == 0 {
					break
				}
				if j <= last {
					return
				}
				last = j
				x := cc{rows[(j-1)%4], cols[(j-1)/4]}
				c.NoErr(s.UpdateByteSlice(x.item(defaultSeed)), "update")
				want[cpcPair{x.row, x.col}] = true
				c.Step()
			}
			if len(want) == 0 {
				return
			}
			b := cpcBytes(c, s, "pairs")
			le := binary.LittleEndian
			what := fmt.Sprintf("lgK=%d %v", lgK, want)
			if len(b) < 36 || !bytes.Equal(b[:6], []byte{8, 1, 16, byte(lgK), 0, 2 | 3<<2}) || le.Uint16(b[6:]) != seedHash16(defaultSeed) || int(le.Uint32(b[8:])) != len(want) || len(b) != 32+4*int(le.Uint32(b[12:])) {
				c.Fail("cpc-layout", "%s: header %x of %d bytes", what, b[:min(len(b), 16)], len(b))
			}
			got, ok := cpcReadPairs(b[32:], k, len(want))
			for i, p := range got {
				ok = ok && want[p] && (i == 0 || got[i-1].row < p.row || got[i-1].row == p.row && got[i-1].col < p.col)
			}
			if !ok || len(got) != len(want) {
				c.Fail("cpc-pairs", "%s: the table words hold %v", what, got)
			}
			c.Checked()
			c.State(engine.H64(b))
		},
	}
}
