package props

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"strings"
	"testing/iotest"

	"github.com/apache/datasketches-go/common"
	"github.com/apache/datasketches-go/frequencies"
	"github.com/apache/datasketches-go/kll"
	"github.com/apache/datasketches-go/sampling"
	"github.com/apache/datasketches-go/tdigest"
	"github.com/apache/datasketches-go/theta"
	"github.com/apache/datasketches-go/tuple"

	"verifmc/engine"
)

// C35 (faults while encoding and decoding are reported).
//
// The environment of an encoder or decoder - the writer, the reader, the item serializer, the summary codec - is
// a small automaton: it works until a point and then fails, for good or once, or it cuts the bytes into pieces.
// Every such point and every two-piece cut is enumerated.

// stObj is a freshly built object: its encoder, and a decoder that encodes what it got again.
type stObj struct {
	enc func(w io.Writer) error
	dec func(r io.Reader) ([]byte, error) // nil: no decoder reads from a stream
}

type stImg struct {
	name string
	make func(c *C) stObj
}

var errStream = errors.New("injected fault")

// stWriter takes limit bytes. Mode 0: the write that crosses the limit is cut and everything later refused;
// 1: it is cut, later writes succeed; 2: it is refused as a whole and so is everything later;
// 3: it is refused as a whole, later writes succeed.
type stWriter struct {
	limit, mode int
	failed      bool
	got, before bytes.Buffer // everything; everything up to the fault
}

func (w *stWriter) Write(p []byte) (int, error) {
	if w.failed && w.mode&1 == 0 {
		return 0, errStream
	}
	if w.failed || w.got.Len()+len(p) <= w.limit {
		if !w.failed {
			w.before.Write(p)
		}
		return w.got.Write(p)
	}
	w.failed = true
	if w.mode >= 2 {
		return 0, errStream
	}
	n := w.limit - w.got.Len()
	w.before.Write(p[:n])
	w.got.Write(p[:n])
	return n, errStream
}

// stReader hands out b in pieces that end at the cuts, with empty reads in between.
type stReader struct {
	b     []byte
	pos   int
	cut   int
	empty bool  // an empty read is due
	end   error // given at the end
	with  bool  // together with the last piece
}

func (r *stReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if r.pos == r.cut && r.empty {
		r.empty = false
		return 0, nil
	}
	if r.pos == len(r.b) {
		return 0, r.end
	}
	to := len(r.b)
	if r.pos < r.cut {
		to = r.cut
	}
	n := copy(p, r.b[r.pos:to])
	r.pos += n
	if r.with && r.pos == len(r.b) {
		return n, r.end
	}
	return n, nil
}

func stBytes(c *C, enc func(w io.Writer) error) []byte {
	var b bytes.Buffer
	c.NoErr(enc(&b), "encode")
	return b.Bytes()
}

// stTuple describes a tuple family with summaries of type S.
func stTuple[S tuple.UpdatableSummary[V], V any](name string, mk func() S, write tuple.SummaryWriter[S], read tuple.SummaryReader[S], val func(k int) V) (r []stImg) {
	for _, sp := range stSpecs {
		r = append(r, stImg{fmt.Sprintf("tuple %s %+v", name, sp), func(c *C) stObj {
			u, err := tuple.NewUpdateSketch[S, V](mk, tuple.WithUpdateSketchLgK(uint8(sp.lgK)), tuple.WithUpdateSketchP(sp.p))
			c.NoErr(err, "new")
			for k := 0; k < sp.hi; k++ {
				_ = u.UpdateInt64(int64(k), val(k))
			}
			cs, err := u.Compact(true)
			c.NoErr(err, "compact")
			return stObj{func(w io.Writer) error { e := tuple.NewEncoder[S](w, write); return e.Encode(cs) }, func(rd io.Reader) ([]byte, error) {
				d := tuple.NewDecoder[S](defaultSeed, read)
				s, err := d.Decode(rd)
				if err != nil {
					return nil, err
				}
				var b bytes.Buffer
				e := tuple.NewEncoder[S](&b, write)
				err = e.Encode(s)
				return b.Bytes(), err
			}}
		}})
	}
	return r
}

var stSpecs = []thetaSpec{{lgK: 5, hi: 0, p: 1}, {lgK: 5, hi: 1, p: 1}, {lgK: 5, hi: 3, p: 1}, {lgK: 5, hi: 90, p: 1}, {lgK: 5, hi: 1, p: 0.01}}

func stImages() (r []stImg) {
	for _, sp := range stSpecs {
		for form := 0; form < 3; form++ {
			r = append(r, stImg{fmt.Sprintf("theta %+v form %d", sp, form), func(c *C) stObj {
				cs := sp.build(c, defaultSeed).Compact(form > 0)
				return stObj{func(w io.Writer) error { e := theta.NewEncoder(w, form == 2); return e.Encode(cs) }, func(rd io.Reader) ([]byte, error) {
					d := theta.NewDecoder(defaultSeed)
					s, err := d.Decode(rd)
					if err != nil {
						return nil, err
					}
					return encodeTheta(c, s, form == 2), nil
				}}
			}})
		}
		r = append(r, stImg{fmt.Sprintf("array of numbers %+v", sp), func(c *C) stObj {
			u := famI64.newUpd(c, sp.lgK, 3, sp.p, defaultSeed)
			for k := 0; k < sp.hi; k++ {
				_ = u.update(int64(k), k%5)
			}
			cs := aonOf[int64](u.compact(c, true)).(*tuple.ArrayOfNumbersCompactSketch[int64])
			return stObj{func(w io.Writer) error { e := tuple.NewArrayOfNumbersSketchEncoder[int64](w); return e.Encode(cs) }, func(rd io.Reader) ([]byte, error) {
				d := tuple.NewArrayOfNumbersSketchDecoderDecoder[int64](defaultSeed)
				s, err := d.Decode(rd)
				if err != nil {
					return nil, err
				}
				return stBytes(c, func(w io.Writer) error { e := tuple.NewArrayOfNumbersSketchEncoder[int64](w); return e.Encode(s) }), nil
			}}
		}})
	}
	strs := [][]string{{"a"}, {}, {"b", "c"}, {"", "x"}, {"longer string value", "é"}}
	r = append(r, stTuple[*tuple.ArrayOfStringsSummary, []string]("strings", tuple.NewArrayOfStringsSummaryFunc, tuple.ArrayOfStringsSummaryWriter, tuple.ArrayOfStringsSummaryReader, func(k int) []string { return strs[k%5] })...)
	for _, k := range []int{10, 100} {
		for _, n := range []int{0, 1, 2, 300} {
			for _, wb := range []bool{false, true} {
				r = append(r, stImg{fmt.Sprintf("t-digest k=%d n=%d buffer=%v", k, n, wb), func(c *C) stObj {
					d := tdNew(c, k)
					for i := 0; i < n; i++ {
						c.NoErr(d.Update(float64(i*7%1009)), "update")
					}
					return stObj{func(w io.Writer) error { e := tdigest.NewDoubleEncoder(w, wb); return e.Encode(d) }, func(rd io.Reader) ([]byte, error) {
						dd := tdigest.NewDoubleDecoder()
						s, err := dd.Decode(rd)
						if err != nil {
							return nil, err
						}
						return stBytes(c, func(w io.Writer) error { e := tdigest.NewDoubleEncoder(w, wb); return e.Encode(s) }), nil
					}}
				}})
			}
		}
	}
	for _, dbl := range []bool{true, false} { // read only: the image comes from another program
		r = append(r, stImg{fmt.Sprintf("t-digest compat double=%v", dbl), func(c *C) stObj {
			b := tdBuildCompat(dbl, 100, 0, 4, []float64{0, 1, 2.5, 4}, []uint64{1, 2, 3, 1})
			return stObj{func(w io.Writer) error { _, err := w.Write(b); return err }, func(rd io.Reader) ([]byte, error) {
				dd := tdigest.NewDoubleDecoder()
				s, err := dd.Decode(rd)
				if err != nil {
					return nil, err
				}
				q, err := s.Quantile(0.4)
				c.Assert(err == nil && s.TotalWeight() == 7, "stream-decode", "compat image decoded to weight %d, quantile %v %v", s.TotalWeight(), q, err)
				return b, nil
			}}
		}})
	}
	for _, g := range []cmCfg{{1, 3, int64(defaultSeed)}, {3, 7, int64(defaultSeed)}} {
		for _, n := range []int{0, 5} {
			r = append(r, stImg{fmt.Sprintf("count-min %+v %d", g, n), func(c *C) stObj {
				s := g.mk(c)
				for i := 0; i < n; i++ {
					c.NoErr(s.UpdateUint64(uint64(i), 3), "update")
				}
				return stObj{s.Serialize, nil}
			}})
		}
	}
	r = append(r, stSampling("int64", func(i int) int64 { return int64(i) }, common.ItemSketchLongSerDe{})...)
	r = append(r, stSampling("string", svStr, common.ItemSketchStringSerDe{})...)
	return r
}

var stKN = [][2]int{{5, 0}, {5, 1}, {5, 5}, {5, 6}, {5, 40}, {40, 17}}

func stVarOpt[T comparable](c *C, k, n int, key func(i int) T) *sampling.VarOptItemsSketch[T] {
	c.RandPolicy(2, 0)
	s, err := sampling.NewVarOptItemsSketch[T](uint(k))
	c.NoErr(err, "new")
	for i := 0; i < n; i++ {
		w := 1.0
		if i%(n/4+1) == 1 {
			w = 1e6 * float64(i+1)
		}
		c.NoErr(s.Update(key(i), w), "update")
	}
	return s
}

func stSampling[T comparable](name string, key func(i int) T, serde common.ItemSketchSerde[T]) (r []stImg) {
	for _, x := range stKN {
		r = append(r, stImg{fmt.Sprintf("varopt %s %v", name, x), func(c *C) stObj {
			s := stVarOpt(c, x[0], x[1], key)
			return stObj{func(w io.Writer) error { e := sampling.NewVarOptItemsSketchEncoder[T](w, serde); return e.Encode(s) }, nil}
		}}, stImg{fmt.Sprintf("varopt union %s %v", name, x), func(c *C) stObj {
			u, err := sampling.NewVarOptItemsUnion[T](uint(x[0]))
			c.NoErr(err, "new")
			if x[1] > 0 {
				c.NoErr(u.Update(stVarOpt(c, x[0], x[1], key)), "union-update")
			}
			return stObj{func(w io.Writer) error { e := sampling.NewVarOptItemsUnionEncoder[T](w, serde); return e.Encode(u) }, nil}
		}})
	}
	return r
}

func stWrites() engine.Scenario {
	imgs := stImages()
	return engine.Scenario{
		Name:       "write-faults",
		Bound:      fmt.Sprintf("%d sketches of every type with a stream encoder, in every mode and format; a writer that fails at every byte, cutting or refusing the write, for good or once", len(imgs)),
		ShardDepth: 1,
		Run: func(c *C) {
			m := imgs[c.Choose(len(imgs), "image")]
			mode := c.Choose(4, "writer")
			o := m.make(c)
			img := stBytes(c, o.enc)
			c.Assert(eqBytes(img, stBytes(c, o.enc)), "encode-twice", "%s: two encodings differ", m.name)
			for l := 0; l <= len(img); l++ {
				w := &stWriter{limit: l, mode: mode}
				err := o.enc(w)
				c.Assert((err == nil) == (l == len(img)), "write-fault", "%s: the writer fails after %d of %d bytes (mode %d), the encoder returns %v", m.name, l, len(img), mode, err)
				c.Assert(bytes.HasPrefix(img, w.before.Bytes()), "write-prefix", "%s: before a fault at byte %d of %d (mode %d) something else than the image was written", m.name, l, len(img), mode)
				c.Step()
			}
			again := stBytes(c, o.enc)
			c.Assert(eqBytes(img, again), "write-after-fault", "%s: after failed attempts the image differs", m.name)
			c.Checked()
			c.State(mix(engine.HAny(img), uint64(mode)))
			c.Outcome(uint64(len(img)))
		},
	}
}

func stReads() engine.Scenario {
	var imgs []stImg
	for _, m := range stImages() {
		if !strings.HasPrefix(m.name, "count-min") && !strings.HasPrefix(m.name, "varopt") {
			imgs = append(imgs, m)
		}
	}
	return engine.Scenario{
		Name:       "read-splits",
		Bound:      fmt.Sprintf("%d images of every type with a stream decoder; every cut into two pieces with an empty read between them, with EOF alone or together with the last piece, single bytes; a reader failing at every byte", len(imgs)),
		ShardDepth: 1,
		Run: func(c *C) {
			m := imgs[c.Choose(len(imgs), "image")]
			kind := c.Choose(4, "reader")
			o := m.make(c)
			img := stBytes(c, o.enc)
			same := func(what string, at int, rd io.Reader) {
				b, err := o.dec(rd)
				c.Assert(err == nil, "read-split", "%s: %s at %d of %d bytes: the decoder returns %v", m.name, what, at, len(img), err)
				c.Assert(eqBytes(b, img), "read-split", "%s: %s at %d of %d bytes: another sketch was decoded", m.name, what, at, len(img))
				c.Step()
			}
			switch kind {
			case 0, 1:
				for l := 0; l <= len(img); l++ {
					same([]string{"cut", "cut, EOF with data"}[kind], l, &stReader{b: img, cut: l, empty: true, end: io.EOF, with: kind == 1})
				}
			case 2:
				same("single bytes", 0, iotest.OneByteReader(bytes.NewReader(img)))
				same("single bytes, EOF with data", 0, iotest.OneByteReader(iotest.DataErrReader(bytes.NewReader(img))))
				same("halves", 0, iotest.HalfReader(bytes.NewReader(img)))
			case 3:
				for l := 0; l < len(img); l++ {
					for v := 0; v < 2; v++ {
						b, err := o.dec(&stReader{b: img[:l:l], cut: l / 2, end: errStream, with: v == 1})
						c.Assert(err != nil && b == nil, "read-fault", "%s: the reader fails after %d of %d bytes and the decoder returns no error", m.name, l, len(img))
						c.Step()
					}
				}
			}
			c.Checked()
			c.State(mix(engine.HAny(img), uint64(kind), uint64(len(m.name))))
			c.Outcome(uint64(kind))
		},
	}
}

// stSerde fails at one of its calls.
type stSerde[T any] struct {
	common.ItemSketchSerde[T]
	at    int
	calls *int
}

func (s stSerde[T]) tick() bool {
	*s.calls++
	return *s.calls-1 == s.at
}

func (s stSerde[T]) SizeOfMany(mem []byte, offsetBytes int, numItems int) (int, error) {
	if s.tick() {
		return 0, errStream
	}
	return s.ItemSketchSerde.SizeOfMany(mem, offsetBytes, numItems)
}

func (s stSerde[T]) DeserializeManyFromSlice(mem []byte, offsetBytes int, numItems int) ([]T, error) {
	if s.tick() {
		return nil, errStream
	}
	return s.ItemSketchSerde.DeserializeManyFromSlice(mem, offsetBytes, numItems)
}

// stItem decodes (or encodes) with the at-th call of the codec failing; it says whether an object came back.
type stItem struct {
	name string
	run  func(c *C, at int, calls *int) (got bool, err error)
}

func stSerdes[T comparable](t ktype[T], h common.ItemSketchHasher[T]) (r []stItem) {
	for _, n := range []int{0, 1, 2, 8, 60, 500} {
		r = append(r, stItem{fmt.Sprintf("kll %s n=%d", t.name, n), func(c *C, at int, calls *int) (bool, error) {
			c.RandPolicy(2, 0)
			s, err := kll.NewKllItemsSketch[T](8, 8, t.less, t.serde)
			c.NoErr(err, "new")
			for i := 0; i < n; i++ {
				s.Update(t.mk(int64(i * 7 % max(n, 1))))
			}
			b, err := s.ToSlice()
			c.NoErr(err, "serialize")
			d, err := kll.NewKllItemsSketchFromSlice[T](b, t.less, stSerde[T]{t.serde, at, calls})
			return d != nil, err
		}})
	}
	for _, n := range []int{0, 1, 6, 40} {
		r = append(r, stItem{fmt.Sprintf("frequencies %s n=%d", t.name, n), func(c *C, at int, calls *int) (bool, error) {
			s, err := frequencies.NewFrequencyItemsSketch[T](16, 8, h, t.serde)
			c.NoErr(err, "new")
			for i := 0; i < n; i++ {
				c.NoErr(s.UpdateMany(t.mk(int64(i)), int64(i+1)), "update")
			}
			b, err := s.ToSlice()
			c.NoErr(err, "serialize")
			d, err := frequencies.NewFrequencyItemsSketchFromSlice[T](b, h, stSerde[T]{t.serde, at, calls})
			return d != nil, err
		}})
	}
	key := func(i int) T { return t.mk(int64(i)) }
	for _, x := range stKN {
		res := func(c *C) *sampling.ReservoirItemsSketch[T] {
			c.RandPolicy(2, 0)
			s, err := sampling.NewReservoirItemsSketch[T](x[0])
			c.NoErr(err, "new")
			for i := 0; i < x[1]; i++ {
				c.NoErr(s.Update(key(i)), "update")
			}
			return s
		}
		r = append(r, stItem{fmt.Sprintf("reservoir %s %v", t.name, x), func(c *C, at int, calls *int) (bool, error) {
			b, err := res(c).ToSlice(t.serde)
			c.NoErr(err, "serialize")
			d, err := sampling.NewReservoirItemsSketchFromSlice[T](b, stSerde[T]{t.serde, at, calls})
			return d != nil, err
		}}, stItem{fmt.Sprintf("reservoir union %s %v", t.name, x), func(c *C, at int, calls *int) (bool, error) {
			u, err := sampling.NewReservoirItemsUnion[T](x[0])
			c.NoErr(err, "new")
			c.NoErr(u.UpdateSketch(res(c)), "union-update")
			b, err := u.ToSlice(t.serde)
			c.NoErr(err, "serialize")
			d, err := sampling.NewReservoirItemsUnionFromSlice[T](b, stSerde[T]{t.serde, at, calls})
			return d != nil, err
		}}, stItem{fmt.Sprintf("varopt %s %v", t.name, x), func(c *C, at int, calls *int) (bool, error) {
			s := stVarOpt(c, x[0], x[1], key)
			b := stBytes(c, func(w io.Writer) error { e := sampling.NewVarOptItemsSketchEncoder[T](w, t.serde); return e.Encode(s) })
			d, err := sampling.DecodeVarOptItemsSketch[T](b, stSerde[T]{t.serde, at, calls})
			return d != nil, err
		}}, stItem{fmt.Sprintf("varopt union %s %v", t.name, x), func(c *C, at int, calls *int) (bool, error) {
			u, err := sampling.NewVarOptItemsUnion[T](uint(x[0]))
			c.NoErr(err, "new")
			if x[1] > 0 {
				c.NoErr(u.Update(stVarOpt(c, x[0], x[1], key)), "union-update")
			}
			b := stBytes(c, func(w io.Writer) error { e := sampling.NewVarOptItemsUnionEncoder[T](w, t.serde); return e.Encode(u) })
			d, err := sampling.DecodeVarOptItemsUnion[T](b, stSerde[T]{t.serde, at, calls})
			return d != nil, err
		}})
	}
	return r
}

func stSummaries() (r []stItem) {
	for _, sp := range stSpecs {
		build := func(c *C) *tuple.CompactSketch[valSum] {
			u, err := tuple.NewUpdateSketchWithSummaryUpdateFunc[valSum, int](func() valSum { return valSum{} }, func(s valSum, v int) valSum { return s }, tuple.WithUpdateSketchLgK(uint8(sp.lgK)), tuple.WithUpdateSketchP(sp.p))
			c.NoErr(err, "new")
			for k := 0; k < sp.hi; k++ {
				_ = u.UpdateInt64(int64(k), k)
			}
			cs, err := u.Compact(true)
			c.NoErr(err, "compact")
			return cs
		}
		tick := func(at int, calls *int) error {
			*calls++
			if *calls-1 == at {
				return errStream
			}
			return nil
		}
		write := func(at int, calls *int) tuple.SummaryWriter[valSum] {
			return func(w io.Writer, s valSum) error {
				if err := tick(at, calls); err != nil {
					return err
				}
				return binary.Write(w, binary.LittleEndian, int64(9))
			}
		}
		r = append(r, stItem{fmt.Sprintf("tuple writer %+v", sp), func(c *C, at int, calls *int) (bool, error) {
			e := tuple.NewEncoder[valSum](io.Discard, write(at, calls))
			err := e.Encode(build(c))
			return err == nil, err
		}}, stItem{fmt.Sprintf("tuple reader %+v", sp), func(c *C, at int, calls *int) (bool, error) {
			var b bytes.Buffer
			none := 0
			e := tuple.NewEncoder[valSum](&b, write(-1, &none))
			c.NoErr(e.Encode(build(c)), "encode")
			d, err := tuple.Decode[valSum](b.Bytes(), defaultSeed, func(rd io.Reader) (valSum, error) {
				if err := tick(at, calls); err != nil {
					return valSum{}, err
				}
				var v int64
				return valSum{}, binary.Read(rd, binary.LittleEndian, &v)
			})
			return d != nil, err
		}})
	}
	return r
}

func stItems() engine.Scenario {
	items := append(stSerdes(kInt, common.ItemSketchHasher[int64](common.ItemSketchLongHasher{})), stSerdes(kStr, common.ItemSketchHasher[string](common.ItemSketchStringHasher{}))...)
	items = append(items, stSummaries()...)
	return engine.Scenario{
		Name:       "codec-faults",
		Bound:      fmt.Sprintf("%d encodings and decodings that use a caller's item serializer or summary codec; each of its calls fails in turn", len(items)),
		ShardDepth: 1,
		Run: func(c *C) {
			m := items[c.Choose(len(items), "object")]
			total := 0
			got, err := m.run(c, -1, &total)
			c.Assert(err == nil && got, "codec-whole", "%s: without a fault: object %v, error %v", m.name, got, err)
			for at := 0; at < total; at++ {
				calls := 0
				var got bool
				var err error
				p := engine.Catch(func() { got, err = m.run(c, at, &calls) })
				c.Assert(p == "", "codec-fault", "%s: call %d of %d of the codec fails: panic %s", m.name, at, total, p)
				c.Assert(err != nil, "codec-fault", "%s: call %d of %d of the codec fails and no error is returned", m.name, at, total)
				c.Assert(!got, "codec-fault", "%s: call %d of %d of the codec fails and a sketch is returned with the error", m.name, at, total)
				c.Step()
			}
			c.Checked()
			c.State(mix(engine.HAny(m.name), uint64(total)))
			c.Outcome(uint64(total))
		},
	}
}

func init() {
	engine.Register(engine.Property{
		ID: "C35",
		Assumptions: []string{
			"writers and readers obey the contracts of io.Writer and io.Reader (a short write comes with an error)",
			"count-min and VarOpt sketches have stream encoders only; HLL, CPC, KLL, Bloom, reservoir and frequent-items sketches none",
			"panics of caller-supplied codecs are the caller's",
		},
		Scenarios: func(tier string) []engine.Scenario {
			if tier == "thorough" {
				stSpecs = append(stSpecs[:5:5], thetaSpec{lgK: 5, hi: 31, p: 1}, thetaSpec{lgK: 5, hi: 300, p: 1}, thetaSpec{lgK: 8, hi: 255, p: 1}, thetaSpec{lgK: 8, hi: 700, p: 1}, thetaSpec{lgK: 5, hi: 200, p: 0.1})
				stKN = append(stKN[:6:6], [][2]int{{2, 3}, {3, 9}, {8, 9}, {20, 500}, {100, 300}}...)
			}
			return []engine.Scenario{stWrites(), stReads(), stItems()}
		},
	})
}
