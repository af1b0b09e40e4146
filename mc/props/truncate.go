package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"runtime/metrics"
	"strings"
	"testing/iotest"

	"github.com/apache/datasketches-go/common"
	"github.com/apache/datasketches-go/count"
	"github.com/apache/datasketches-go/cpc"
	"github.com/apache/datasketches-go/filters"
	"github.com/apache/datasketches-go/frequencies"
	"github.com/apache/datasketches-go/hll"
	"github.com/apache/datasketches-go/kll"
	"github.com/apache/datasketches-go/sampling"
	"github.com/apache/datasketches-go/tdigest"
	"github.com/apache/datasketches-go/theta"
	"github.com/apache/datasketches-go/tuple"

	"verifmc/engine"
)

// C29 (truncated images are refused).

// trDec decodes an image one way.
type trDec struct {
	name string
	f    func(b []byte) error
}

// trImg is one kind of image with its decoders; make(big) may return a larger variant.
type trImg struct {
	name string
	make func(c *C) []byte
	decs []trDec
}

func trHow[T any](name string, f func(b []byte) (T, error)) trDec {
	return trDec{name, func(b []byte) error { _, err := f(b); return err }}
}

// trReader feeds the bytes through readers of different habits.
func trReaders(name string, f func(r io.Reader) error) []trDec {
	return []trDec{
		{name, func(b []byte) error { return f(bytes.NewReader(b)) }},
		{name + "/one-byte", func(b []byte) error { return f(iotest.OneByteReader(bytes.NewReader(b))) }},
		{name + "/data-with-eof", func(b []byte) error { return f(iotest.DataErrReader(bytes.NewReader(b))) }},
		{name + "/half", func(b []byte) error { return f(iotest.HalfReader(bytes.NewReader(b))) }},
	}
}

func trTheta(big bool) (r []trImg) {
	decs := append([]trDec{
		trHow("decode", func(b []byte) (*theta.CompactSketch, error) { return theta.Decode(b, defaultSeed) }),
		trHow("wrap", func(b []byte) (*theta.WrappedCompactSketch, error) { return theta.WrapCompactSketch(b, defaultSeed) }),
	}, trReaders("decoder", func(rd io.Reader) error {
		d := theta.NewDecoder(defaultSeed)
		_, err := d.Decode(rd)
		return err
	})...)
	specs := []thetaSpec{{lgK: 5, hi: 0, p: 1}, {lgK: 5, hi: 1, p: 1}, {lgK: 5, hi: 2, p: 1}, {lgK: 5, hi: 9, p: 1}, {lgK: 5, hi: 31, p: 1}, {lgK: 5, hi: 300, p: 1}, {lgK: 5, hi: 1, p: 0.01}, {lgK: 8, hi: 20, p: 0.1}}
	if big {
		specs = []thetaSpec{{lgK: 18, hi: 200000, p: 1}, {lgK: 17, hi: 800000, p: 1}}
	}
	for _, sp := range specs {
		for form := 0; form < 3; form++ {
			r = append(r, trImg{fmt.Sprintf("theta %+v form %d", sp, form), func(c *C) []byte {
				u := sp.build(c, defaultSeed)
				return encodeTheta(c, u.Compact(form > 0), form == 2)
			}, decs})
		}
		for ver := 1; ver <= 2; ver++ {
			r = append(r, trImg{fmt.Sprintf("theta %+v version %d", sp, ver), func(c *C) []byte {
				return thetaLegacy(observe(c, sp.build(c, defaultSeed).Compact(true), "x"), ver, 0)
			}, decs})
		}
	}
	return r
}

// thetaLegacy writes a version 1 or 2 image; pre forces longer preambles in version 2.
func thetaLegacy(r tref, ver, pre int) []byte {
	if ver == 1 {
		pre = 3
	}
	need := 2
	if r.theta < maxTheta {
		need = 3
	}
	if r.empty {
		need = 1
	}
	pre = max(pre, need)
	b := make([]byte, 8*pre+8*len(r.h))
	b[0], b[1], b[2], b[5] = byte(pre), byte(ver), 3, 1<<1|1<<3|1<<4
	if r.empty {
		b[5] |= 1 << 2
	}
	if ver == 2 {
		binary.LittleEndian.PutUint16(b[6:], seedHash16(defaultSeed))
	}
	if pre > 1 {
		binary.LittleEndian.PutUint32(b[8:], uint32(len(r.h)))
	}
	if pre > 2 {
		binary.LittleEndian.PutUint64(b[16:], r.theta)
	}
	for i, x := range r.h {
		binary.LittleEndian.PutUint64(b[8*(pre+i):], x)
	}
	return b
}

func trTuple(big bool) (r []trImg) {
	specs := []thetaSpec{{lgK: 5, hi: 0, p: 1}, {lgK: 5, hi: 1, p: 1}, {lgK: 5, hi: 3, p: 1}, {lgK: 5, hi: 300, p: 1}, {lgK: 5, hi: 1, p: 0.01}}
	if big {
		specs = []thetaSpec{{lgK: 17, hi: 100000, p: 1}, {lgK: 16, hi: 300000, p: 1}}
	}
	for _, sp := range specs {
		for _, f := range []tfam{famPtr, famI64} {
			f := f
			var decs []trDec
			decs = append(decs, trDec{"decode", func(b []byte) error { _, err := f.decode(b, defaultSeed); return err }})
			if f == tfam(famI64) {
				decs = append(decs, trReaders("decoder", func(rd io.Reader) error {
					d := tuple.NewArrayOfNumbersSketchDecoderDecoder[int64](defaultSeed)
					_, err := d.Decode(rd)
					return err
				})...)
			} else {
				decs = append(decs, trReaders("decoder", func(rd io.Reader) error {
					d := tuple.NewDecoder[valSum](defaultSeed, func(r io.Reader) (valSum, error) {
						var v int64
						err := binary.Read(r, binary.LittleEndian, &v)
						return valSum{}, err
					})
					_, err := d.Decode(rd)
					return err
				})...)
			}
			for _, legacy := range []bool{false, true} {
				if legacy && f != tfam(famPtr) {
					continue
				}
				r = append(r, trImg{fmt.Sprintf("tuple %s %+v legacy=%v", f.nm(), sp, legacy), func(c *C) []byte {
					u := f.newUpd(c, sp.lgK, 3, sp.p, defaultSeed)
					for k := 0; k < sp.hi; k++ {
						_ = u.update(int64(k), k%5)
					}
					b := f.encode(c, u.compact(c, true))
					if legacy {
						b[1], b[3] = 1, 5
					}
					return b
				}, decs})
			}
		}
		// strings
		sdec := append([]trDec{
			trHow("decode", func(b []byte) (*tuple.CompactSketch[*tuple.ArrayOfStringsSummary], error) {
				return tuple.Decode[*tuple.ArrayOfStringsSummary](b, defaultSeed, tuple.ArrayOfStringsSummaryReader)
			}),
			trHow("decode-inline", func(b []byte) (*tuple.CompactSketch[tuple.ArrayOfStringsInlineSummary], error) {
				return tuple.Decode[tuple.ArrayOfStringsInlineSummary](b, defaultSeed, tuple.ArrayOfStringsInlineSummaryReader)
			}),
		}, trReaders("decoder", func(rd io.Reader) error {
			d := tuple.NewDecoder[*tuple.ArrayOfStringsSummary](defaultSeed, tuple.ArrayOfStringsSummaryReader)
			_, err := d.Decode(rd)
			return err
		})...)
		r = append(r, trImg{fmt.Sprintf("tuple strings %+v", sp), func(c *C) []byte {
			u, err := tuple.NewUpdateSketch[*tuple.ArrayOfStringsSummary, []string](tuple.NewArrayOfStringsSummaryFunc, tuple.WithUpdateSketchLgK(uint8(sp.lgK)), tuple.WithUpdateSketchP(sp.p))
			c.NoErr(err, "new")
			vals := [][]string{{"a"}, {}, {"b", "c"}, {"", "x"}, {"longer string value"}}
			for k := 0; k < sp.hi; k++ {
				_ = u.UpdateInt64(int64(k), vals[k%5])
			}
			cs, err := u.Compact(true)
			c.NoErr(err, "compact")
			var b bytes.Buffer
			e := tuple.NewEncoder[*tuple.ArrayOfStringsSummary](&b, tuple.ArrayOfStringsSummaryWriter)
			c.NoErr(e.Encode(cs), "encode")
			return b.Bytes()
		}, sdec})
	}
	return r
}

func trHll(big bool) (r []trImg) {
	decs := []trDec{
		trHow("sketch", func(b []byte) (hll.HllSketch, error) { return hll.NewHllSketchFromSlice(b, true) }),
		trHow("sketch-no-rebuild", func(b []byte) (hll.HllSketch, error) { return hll.NewHllSketchFromSlice(b, false) }),
		trHow("union", func(b []byte) (hll.Union, error) { return hll.NewUnionFromSlice(b) }),
	}
	ks := []int{4, 8}
	if big {
		ks = []int{20}
	}
	add := func(sp hspec) {
		for _, compact := range []bool{true, false} {
			r = append(r, trImg{fmt.Sprintf("hll %v compact=%v", sp, compact), func(c *C) []byte {
				s, _ := sp.build(c)
				b, err := hllBytes(s, compact)
				c.NoErr(err, "serialize")
				return b
			}, decs})
		}
	}
	if big {
		for t := range hllTypes {
			add(hspec{"array-natural", 20, t, func() []coup {
				return seqCoups(200000, func(i int) uint32 { return uint32(i * 5 & (1<<20 - 1)) }, func(i int) uint8 { return uint8(1 + i%3*15) })
			}, false})
			add(hspec{"set-natural", 21, t, func() []coup {
				return seqCoups(180000, func(i int) uint32 { return uint32(i * 11) }, func(i int) uint8 { return uint8(1 + i%30) })
			}, false})
		}
		return r
	}
	for _, sp := range hllSpecs(ks, []int{0, 1, 2}) {
		add(sp)
	}
	return r
}

func trCpc(big bool) (r []trImg) {
	decs := []trDec{
		trHow("sketch", func(b []byte) (*cpc.CpcSketch, error) { return cpc.NewCpcSketchFromSlice(b, defaultSeed) }),
		trHow("sketch-default", func(b []byte) (*cpc.CpcSketch, error) { return cpc.NewCpcSketchFromSliceWithDefault(b) }),
		trHow("wrapper", func(b []byte) (*cpc.CpcWrapper, error) { return cpc.NewCpcWrapperFromBytes(b) }),
	}
	var bases []cbase
	if big {
		for _, n := range []int{40000, 150000, 1200000} {
			bases = append(bases, cbase{fmt.Sprint("scattered-", n), 18, func() []cc { return orderedCoupons("columns", 18, n) }})
		}
	} else {
		bases = cpcBases([]int{4, 6}, true, "natural", "high", "stride")
		bases = append(bases, cpcBases([]int{10}, false, "columns")...)
	}
	for _, b := range bases {
		for _, merged := range []bool{false, true} {
			r = append(r, trImg{fmt.Sprintf("cpc %v merged=%v", b, merged), func(c *C) []byte {
				s, _ := b.build(c, defaultSeed)
				if merged {
					return cpcMerged(c, s, defaultSeed, "merged")
				}
				return cpcBytes(c, s, "sketch")
			}, decs})
		}
	}
	return r
}

func trKllOf[T comparable](t ktype[T], big bool) (r []trImg) {
	decs := []trDec{trHow("slice", func(b []byte) (*kll.ItemsSketch[T], error) {
		return kll.NewKllItemsSketchFromSlice[T](b, t.less, t.serde)
	})}
	type cf struct{ k, m, n int }
	cfs := []cf{{8, 8, 0}, {8, 8, 1}, {8, 8, 2}, {8, 8, 8}, {8, 2, 60}, {20, 4, 500}, {200, 8, 199}, {200, 8, 3000}}
	if big {
		cfs = []cf{{60000, 8, 59000}, {60000, 8, 900000}}
	}
	for _, f := range cfs {
		r = append(r, trImg{fmt.Sprintf("kll %s %+v", t.name, f), func(c *C) []byte {
			c.RandPolicy(2, 0)
			s, err := kll.NewKllItemsSketch[T](uint16(f.k), uint8(f.m), t.less, t.serde)
			c.NoErr(err, "new")
			for i := 0; i < f.n; i++ {
				s.Update(t.mk(int64(i * 7 % max(f.n, 1))))
			}
			b, err := s.ToSlice()
			c.NoErr(err, "serialize")
			return b
		}, decs})
	}
	return r
}

func trTd(big bool) (r []trImg) {
	decs := append([]trDec{trHow("slice", tdigest.DecodeDouble)}, trReaders("decoder", func(rd io.Reader) error {
		d := tdigest.NewDoubleDecoder()
		_, err := d.Decode(rd)
		return err
	})...)
	type cf struct{ k, n int }
	cfs := []cf{{10, 0}, {10, 1}, {10, 2}, {10, 300}, {100, 99}, {100, 5000}}
	if big {
		cfs = []cf{{60000, 200000}}
	}
	for _, f := range cfs {
		for _, wb := range []bool{true, false} {
			r = append(r, trImg{fmt.Sprintf("tdigest %+v buffer=%v", f, wb), func(c *C) []byte {
				d := tdNew(c, f.k)
				for i := 0; i < f.n; i++ {
					c.NoErr(d.Update(float64(i*7%1009)), "update")
				}
				b, err := tdigest.EncodeDouble(d, wb)
				c.NoErr(err, "encode")
				return b
			}, decs})
		}
	}
	ns := []int{1, 2, 5}
	if big {
		ns = []int{60000}
	}
	for _, n := range ns {
		var m []float64
		var w []uint64
		for i := 0; i < n; i++ {
			m, w = append(m, float64(i)), append(w, uint64(1+i%3))
		}
		for _, dbl := range []bool{true, false} {
			r = append(r, trImg{fmt.Sprintf("tdigest compat double=%v %d centroids", dbl, n), func(c *C) []byte {
				return tdBuildCompat(dbl, 100, m[0], m[n-1], m, w)
			}, decs})
		}
		r = append(r, trImg{fmt.Sprintf("tdigest built %d centroids and buffered", n), func(c *C) []byte {
			return tdBuild(100, 0, m[0], m[n-1], m, w, m)
		}, decs})
	}
	return r
}

func trFreqItems[T comparable](name string, key func(i int) T, h common.ItemSketchHasher[T], d common.ItemSketchSerde[T], big bool) (r []trImg) {
	decs := []trDec{trHow("slice", func(b []byte) (*frequencies.ItemsSketch[T], error) {
		return frequencies.NewFrequencyItemsSketchFromSlice[T](b, h, d)
	})}
	for _, n := range trSizes(big) {
		if n > 15000 {
			n = 15000 // ToSlice takes quadratic time
		}
		r = append(r, trImg{fmt.Sprintf("frequencies %s %d", name, n), func(c *C) []byte {
			s, err := frequencies.NewFrequencyItemsSketch[T](18, 3, h, d)
			c.NoErr(err, "new")
			for i := 0; i < n; i++ {
				c.NoErr(s.UpdateMany(key(i), int64(1+i%4)), "update")
			}
			b, err := s.ToSlice()
			c.NoErr(err, "serialize")
			return b
		}, decs})
	}
	return r
}

func trSizes(big bool) []int {
	if big {
		return []int{150000}
	}
	return []int{0, 1, 2, 6, 40}
}

func trFreq(big bool) (r []trImg) {
	decs := []trDec{trHow("slice", frequencies.NewLongsSketchFromSlice)}
	for _, n := range trSizes(big) {
		r = append(r, trImg{fmt.Sprintf("frequencies longs %d", n), func(c *C) []byte {
			s, err := frequencies.NewLongsSketch(18, 3)
			c.NoErr(err, "new")
			for i := 0; i < n; i++ {
				c.NoErr(s.UpdateMany(int64(i), int64(1+i%4)), "update")
			}
			return s.ToSlice()
		}, decs})
	}
	r = append(r, trFreqItems("int64", func(i int) int64 { return int64(i) }, common.ItemSketchLongHasher{}, common.ItemSketchLongSerDe{}, big)...)
	r = append(r, trFreqItems("string", func(i int) string { return svStr(i) + strings.Repeat("x", i%50) }, common.ItemSketchStringHasher{}, common.ItemSketchStringSerDe{}, big)...)
	r = append(r, trFreqItems("float64", func(i int) float64 { return float64(i) / 3 }, common.ItemSketchDoubleHasher{}, common.ItemSketchDoubleSerDe{}, big)...)
	return r
}

func trCount(big bool) (r []trImg) {
	decs := []trDec{{"deserialize", func(b []byte) error {
		var recv count.CountMinSketch
		_, err := recv.Deserialize(b, int64(defaultSeed))
		return err
	}}}
	cfgs := []cmCfg{{1, 3, int64(defaultSeed)}, {3, 7, int64(defaultSeed)}}
	if big {
		cfgs = []cmCfg{{2, 150000, int64(defaultSeed)}}
	}
	for _, g := range cfgs {
		for _, n := range []int{0, 5} {
			r = append(r, trImg{fmt.Sprintf("count-min %+v %d", g, n), func(c *C) []byte {
				s := g.mk(c)
				for i := 0; i < n; i++ {
					c.NoErr(s.UpdateUint64(uint64(i), 3), "update")
				}
				return cmSer(c, s).raw
			}, decs})
		}
	}
	return r
}

func trBloom(big bool) (r []trImg) {
	decs := []trDec{trHow("slice", filters.NewBloomFilterFromSlice)}
	szs := []uint64{64, 130, 1000}
	if big {
		szs = []uint64{20000000}
	}
	for _, sz := range szs {
		for _, n := range []int{0, 1, 20} {
			r = append(r, trImg{fmt.Sprintf("bloom %d bits %d items", sz, n), func(c *C) []byte {
				f := bfCfg{sz, 3, 9001}.mk(c)
				for i := 0; i < n; i++ {
					c.NoErr(f.UpdateInt64(int64(i)), "update")
				}
				b, err := f.ToCompactSlice()
				c.NoErr(err, "serialize")
				return b
			}, decs})
		}
	}
	return r
}

func trSampling[T comparable](name string, key func(i int) T, serde common.ItemSketchSerde[T], big bool) (r []trImg) {
	kn := [][2]int{{5, 0}, {5, 1}, {5, 4}, {5, 5}, {5, 6}, {5, 40}, {40, 17}}
	if big {
		kn = [][2]int{{200000, 190000}, {150000, 200000}}
	}
	voDec := []trDec{trHow("decode", func(b []byte) (*sampling.VarOptItemsSketch[T], error) {
		return sampling.DecodeVarOptItemsSketch[T](b, serde)
	})}
	voUDec := []trDec{trHow("decode-union", func(b []byte) (*sampling.VarOptItemsUnion[T], error) {
		return sampling.DecodeVarOptItemsUnion[T](b, serde)
	})}
	rDec := []trDec{trHow("slice", func(b []byte) (*sampling.ReservoirItemsSketch[T], error) {
		return sampling.NewReservoirItemsSketchFromSlice[T](b, serde)
	})}
	rUDec := []trDec{trHow("union-slice", func(b []byte) (*sampling.ReservoirItemsUnion[T], error) {
		return sampling.NewReservoirItemsUnionFromSlice[T](b, serde)
	})}
	for _, x := range kn {
		k, n := x[0], x[1]
		heavy := func(c *C) *sampling.VarOptItemsSketch[T] {
			c.RandPolicy(2, 0)
			s, err := sampling.NewVarOptItemsSketch[T](uint(k))
			c.NoErr(err, "new")
			for i := 0; i < n; i++ {
				w := 1.0
				if i%(n/4+1) == 1 {
					w = 1e6 * float64(i+1)
				}
				c.NoErr(s.Update(key(i), w), "update")
			}
			return s
		}
		r = append(r, trImg{fmt.Sprintf("varopt %s k=%d n=%d", name, k, n), func(c *C) []byte {
			var b bytes.Buffer
			e := sampling.NewVarOptItemsSketchEncoder[T](&b, serde)
			c.NoErr(e.Encode(heavy(c)), "encode")
			return b.Bytes()
		}, voDec})
		r = append(r, trImg{fmt.Sprintf("varopt-union %s k=%d n=%d", name, k, n), func(c *C) []byte {
			u, err := sampling.NewVarOptItemsUnion[T](uint(k))
			c.NoErr(err, "new")
			if n > 0 {
				c.NoErr(u.Update(heavy(c)), "union-update")
			}
			var b bytes.Buffer
			e := sampling.NewVarOptItemsUnionEncoder[T](&b, serde)
			c.NoErr(e.Encode(u), "encode")
			return b.Bytes()
		}, voUDec})
		res := func(c *C) *sampling.ReservoirItemsSketch[T] {
			c.RandPolicy(2, 0)
			s, err := sampling.NewReservoirItemsSketch[T](k)
			c.NoErr(err, "new")
			for i := 0; i < n; i++ {
				c.NoErr(s.Update(key(i)), "update")
			}
			return s
		}
		r = append(r, trImg{fmt.Sprintf("reservoir %s k=%d n=%d", name, k, n), func(c *C) []byte {
			b, err := res(c).ToSlice(serde)
			c.NoErr(err, "serialize")
			return b
		}, rDec})
		r = append(r, trImg{fmt.Sprintf("reservoir-union %s k=%d n=%d", name, k, n), func(c *C) []byte {
			c.RandPolicy(2, 0)
			u, err := sampling.NewReservoirItemsUnion[T](k)
			c.NoErr(err, "new")
			if n > 0 {
				c.NoErr(u.UpdateSketch(res(c)), "union-update")
			}
			b, err := u.ToSlice(serde)
			c.NoErr(err, "serialize")
			return b
		}, rUDec})
	}
	return r
}

func trAll(big bool) []trImg {
	var r []trImg
	r = append(r, trTheta(big)...)
	r = append(r, trTuple(big)...)
	r = append(r, trHll(big)...)
	r = append(r, trCpc(big)...)
	r = append(r, trKllOf(kInt, big)...)
	r = append(r, trKllOf(kStr, big)...)
	r = append(r, trKllOf(kDbl, big)...)
	r = append(r, trKllOf(kFlt, big)...)
	r = append(r, trTd(big)...)
	r = append(r, trFreq(big)...)
	r = append(r, trCount(big)...)
	r = append(r, trBloom(big)...)
	r = append(r, trSampling("int64", func(i int) int64 { return int64(i) }, common.ItemSketchLongSerDe{}, big)...)
	r = append(r, trSampling("string", svStr, common.ItemSketchStringSerDe{}, big)...)
	return r
}

var trSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func trAllocated() uint64 {
	metrics.Read(trSample)
	return trSample[0].Value.Uint64()
}

// trScenario cuts every image at every length (large images: at the interesting ones).
func trScenario(name string, big bool, parts int, lengths func(n int) []int) engine.Scenario {
	imgs := trAll(big)
	bound := fmt.Sprintf("%d images of every sketch type, mode and format, each cut at every length, with the rest of the image behind the slice's end and without; every decoder (slices, readers that deliver everything, half, single bytes, or data together with EOF, wrappers): an error, never a panic", len(imgs))
	if big {
		bound = fmt.Sprintf("%d large images, cut at the interesting lengths: an error without allocating for data that is not there", len(imgs))
	}
	return engine.Scenario{
		Name: name, Bound: bound, ShardDepth: 1,
		Run: func(c *C) {
			m := imgs[c.Choose(len(imgs), "image")]
			img := m.make(c)
			c.Logf("%s: %d bytes", m.name, len(img))
			ls := lengths(len(img))
			var ds []trDec
			for _, d := range m.decs {
				if !big || !strings.Contains(d.name, "/") { // slow readers only for small images
					ds = append(ds, d)
				}
			}
			d := ds[c.Choose(len(ds), "decoder")]
			part := c.Choose(parts, "part of the lengths")
			ls = ls[len(ls)*part/parts : len(ls)*(part+1)/parts]
			orig := bytes.Clone(img)
			c.NoErr(d.f(bytes.Clone(img)), "whole")
			for _, l := range ls {
				for _, exact := range []bool{true, false} {
					b := img[:l]
					if exact {
						b = img[:l:l]
					}
					var before uint64
					if big {
						before = trAllocated()
					}
					var err error
					p := engine.Catch(func() { err = d.f(b) })
					if p != "" {
						c.Fail("truncated-panic", "%s, %s: %d of %d bytes (exact capacity %v): panic %s", m.name, d.name, l, len(img), exact, p)
					}
					if err == nil {
						c.Fail("truncated-accepted", "%s, %s: %d of %d bytes (exact capacity %v) were accepted", m.name, d.name, l, len(img), exact)
					}
					if big {
						used := trAllocated() - before
						limit := 128<<10 + 256*uint64(l)
						for try := 0; used > limit && try < 6; try++ { // the counter lags: small earlier allocations may be included
							before = trAllocated()
							_ = d.f(b)
							used = min(used, trAllocated()-before)
						}
						c.Assert(used <= limit, "truncated-allocates", "%s, %s: refusing %d of %d bytes allocated %d bytes", m.name, d.name, l, len(img), used)
					}
					c.Step()
				}
			}
			c.Assert(eqBytes(orig, img), "input-changed", "%s, %s: the decoder wrote to its input", m.name, d.name)
			c.Checked()
			c.State(mix(engine.HAny(orig), uint64(len(d.name)), uint64(part)))
			c.Outcome(math.MaxUint64 - uint64(len(ls)))
		},
	}
}

func init() {
	engine.Register(engine.Property{
		ID: "C29",
		Assumptions: []string{
			"images are those of the listed sketch contents; other images of the same formats differ only in payload values",
			"the text form of frequent-items sketches has no end marker and is not covered",
			"allocation is measured on large images only, with a slack of 128 KiB and 256 bytes per byte of input",
		},
		Scenarios: func(tier string) []engine.Scenario {
			all := func(n int) []int {
				var r []int
				for i := 0; i < n; i++ {
					if n <= 6000 || i < 2000 || i >= n-2000 || i%7 == 0 {
						r = append(r, i)
					}
				}
				return r
			}
			a, b, s, parts := 80, 40, 12, 1
			if tier == "thorough" {
				a, b, s, parts = 600, 600, 100, 16
			}
			some := func(n int) []int {
				var r []int
				for i := 0; i < min(n, a); i++ {
					r = append(r, i)
				}
				for i := 1; i < s; i++ {
					if l := n / s * i; l >= a && l < n-b {
						r = append(r, l, l|1)
					}
				}
				for i := max(a, n-b); i < n; i++ {
					r = append(r, i)
				}
				return r
			}
			return []engine.Scenario{trScenario("every-length", false, 1, all), trScenario("large", true, parts, some)}
		},
	})
}
