package props

import (
	"bytes"
	"errors"
	"io"
	"math"
	"sort"
	"testing/iotest"

	"github.com/apache/datasketches-go/tdigest"
	"verifmc/engine"
)

// failWriter fails once more than limit bytes have been written.
type failWriter struct {
	limit int
	n     int
}

var errWrite = errors.New("write failed")

func (w *failWriter) Write(p []byte) (int, error) {
	if w.n+len(p) > w.limit {
		return 0, errWrite
	}
	w.n += len(p)
	return len(p), nil
}

func tdEncode(c *C, d *tdigest.Double, stream, withBuffer bool) []byte {
	if stream {
		var w bytes.Buffer
		e := tdigest.NewDoubleEncoder(&w, withBuffer)
		c.NoErr(e.Encode(d), "encode-stream")
		return w.Bytes()
	}
	b, err := tdigest.EncodeDouble(d, withBuffer)
	c.NoErr(err, "encode")
	return b
}

func tdDecode(c *C, b []byte, how int) *tdigest.Double {
	if how == 0 {
		d, err := tdigest.DecodeDouble(b)
		c.NoErr(err, "decode")
		return d
	}
	in := append(append([]byte{}, b...), 0xAA, 0xBB, 0xCC)
	rd := bytes.NewReader(in)
	var r io.Reader = rd
	if how == 2 {
		r = iotest.OneByteReader(rd)
	}
	dec := tdigest.NewDoubleDecoder()
	d, err := dec.Decode(r)
	c.NoErr(err, "decode-stream")
	c.Assert(rd.Len() == 3, "stream-consumed", "the stream decoder left %d of 3 following bytes", rd.Len())
	return d
}

// tdRoundTrip sends d through every encoder and decoder; light leaves out the continuations.
func tdRoundTrip(c *C, d *tdigest.Double, ref *tdRef, cont int, rebuild func() *tdigest.Double) {
	for _, wb := range []bool{true, false} {
		b := tdEncode(c, d, false, wb)
		c.Assert(len(b) == d.SerializedSizeBytes(wb), "size", "image has %d bytes, SerializedSizeBytes(%v)=%d", len(b), wb, d.SerializedSizeBytes(wb))
		bs := tdEncode(c, d, true, wb)
		c.Assert(eqBytes(b, bs), "encoders-differ", "withBuffer=%v: the two encoders differ: % x and % x", wb, b[:min(len(b), 64)], bs[:min(len(bs), 64)])
		g := parseTD(c, b)
		c.Assert(g.k == int(d.K()) && g.n == uint64(len(ref.vals)), "content", "image: k=%d weight %d; digest: k=%d, %d values", g.k, g.n, d.K(), len(ref.vals))
		c.Assert((g.flags&1 != 0) == (len(ref.vals) == 0) && (g.flags&2 != 0) == (len(ref.vals) == 1), "flags", "flags %x with %d values", g.flags, len(ref.vals))
		if !wb {
			c.Assert(len(g.buffer) == 0, "buffer", "image without buffer holds %d buffered values", len(g.buffer))
		}
		if len(ref.vals) > 0 {
			s := ref.sorted()
			c.Assert(g.min == s[0] && g.max == s[len(s)-1], "content", "image extremes %v %v, want %v %v", g.min, g.max, s[0], s[len(s)-1])
			sum := 0.0
			for i := range g.means {
				sum += g.means[i] * float64(g.weights[i])
			}
			for _, v := range g.buffer {
				sum += v
			}
			c.Assert(ref.abs > 1e300 || math.Abs(sum-ref.sum) <= 1e-9*ref.abs+1e-300, "content", "image sums to %v, values to %v", sum, ref.sum)
		}
		for how := 0; how < 3; how++ {
			r := tdDecode(c, b, how)
			tdLight(c, r, ref)
			c.Assert(r.K() == d.K(), "k", "k %d after decoding, was %d", r.K(), d.K())
			c.Assert(r.String(false) == d.String(false), "string", "summary differs after decoding:\n%s\n%s", r.String(false), d.String(false))
			c.Assert(eqBytes(tdEncode(c, r, how == 1, wb), b), "re-encode", "withBuffer=%v decoder %d: re-encoded image differs", wb, how)
			if len(ref.vals) > 0 {
				s := ref.sorted()
				grid, rg := tdGrid(s, 8), tdRankGrid(min(len(s), 12))
				a1, a2 := tdAsk(c, tdClone2(c, r), grid, rg), tdAsk(c, tdClone2(c, d), grid, rg)
				c.Assert(a1.same(a2), "answers", "withBuffer=%v decoder %d: answers differ after decoding", wb, how)
			}
			if how == 0 {
				y := rebuild()
				if !wb {
					tdEncode(c, y, false, false)
				}
				tdContinue(c, tdDecode(c, b, 1), y, cont)
			}
		}
	}
	c.Checked()
}

// tdClone2 copies through the image (its correctness is what the callers compare).
func tdClone2(c *C, d *tdigest.Double) *tdigest.Double {
	r, err := tdigest.DecodeDouble(tdEncode(c, d, false, true))
	c.NoErr(err, "decode")
	return r
}

func tdContinue(c *C, x, y *tdigest.Double, cont int) {
	both := func(f func(d *tdigest.Double)) { f(x); f(y) }
	same := func(at string) {
		b1, b2 := tdEncode(c, x, false, true), tdEncode(c, y, false, true)
		if !eqBytes(b1, b2) {
			c.Fail("continuation", "%s: the decoded digest and the original differ:\n%s\n%s", at, x.String(false), y.String(false))
		}
	}
	switch cont {
	case 0:
		for i := 0; i < 7; i++ {
			both(func(d *tdigest.Double) { c.NoErr(d.Update(float64(i*5%7)), "update") })
		}
	case 1, 2: // across the next two compressions
		n := 8*tdCapacity(int(x.K())) + 3
		for i := 0; i < n; i++ {
			both(func(d *tdigest.Double) { c.NoErr(d.Update(tdVal(2, i, n)-float64(n/3)), "update") })
			if cont == 2 && i%37 == 0 {
				same("update")
			}
		}
	case 3:
		o, _ := tdOther(c, 4, 20)
		both(func(d *tdigest.Double) { c.NoErr(d.Merge(o), "merge") })
		same("merge")
		both(func(d *tdigest.Double) { c.NoErr(d.Merge(o), "merge") })
	case 4: // merged into another
		t1, _ := tdOther(c, 4, 20)
		t2, _ := tdOther(c, 4, 20)
		if !x.IsEmpty() {
			c.NoErr(t1.Merge(x), "merge")
			c.NoErr(t2.Merge(y), "merge")
			c.Assert(eqBytes(tdEncode(c, t1, false, true), tdEncode(c, t2, false, true)), "continuation", "merging the decoded digest and the original gives different results")
		}
	}
	same("end")
	both(func(d *tdigest.Double) { tdEncode(c, d, false, false) })
	b1, b2 := tdEncode(c, x, false, true), tdEncode(c, y, false, true)
	c.Assert(eqBytes(b1, b2), "continuation", "compressed images differ after the continuation")
}

func tdSerStreams(ks []int, extra bool) func(c *C) {
	return func(c *C) {
		k := pickInt(c, "k", ks...)
		shape := c.Choose(tdShapes, "shape")
		bc := 4 * tdCapacity(k)
		ns := []int{0, 1, 2, 3, 5, 8, 20, 60, bc - 1, bc, bc + 1, bc + 2, 2*bc - 1, 2 * bc, 2*bc + 1, 3*bc + 7}
		if extra {
			for i := 6; i < 40; i++ {
				ns = append(ns, i)
			}
			ns = append(ns, 10*bc, 10*bc+1, 10*bc+bc/2)
		}
		n := ns[c.Choose(len(ns), "n")]
		q := c.Choose(4, "queries") // 0 never, 1 after the first value, 2 half way, 3 at the end
		cont := c.Choose(5, "continuation")
		c.Logf("shape=%d n=%d queries=%d continuation=%d", shape, n, q, cont)
		build := func() (*tdigest.Double, *tdRef) {
			d, ref := tdNew(c, k), &tdRef{}
			for i := 0; i < n; i++ {
				tdUpdate(c, d, ref, tdVal(shape, i, n))
				if q == 1 && i == 0 || q == 2 && i == n/2 || q == 3 && i == n-1 {
					_, err := d.Quantile(0.3)
					c.NoErr(err, "quantile")
				}
			}
			return d, ref
		}
		d, ref := build()
		tdRoundTrip(c, d, ref, cont, func() *tdigest.Double { r, _ := build(); return r })
		c.Step()
		b := tdEncode(c, d, false, true)
		c.State(engine.HAny(b))
	}
}

func tdSerHistory(depth int) func(c *C) {
	return func(c *C) {
		k := pickInt(c, "k", 10, 30)
		cont := c.Choose(5, "continuation")
		var ops []int
		for len(ops) < depth {
			o := c.Choose(11, "op")
			if o == 10 {
				break
			}
			ops = append(ops, o)
		}
		c.Logf("ops %v continuation %d", ops, cont)
		build := func() (*tdigest.Double, *tdRef) {
			d, ref := tdNew(c, k), &tdRef{}
			for _, o := range ops {
				switch {
				case o < 4:
					tdUpdate(c, d, ref, []float64{0, -3, 7.5, 1e308}[o])
				case o < 7:
					n := []int{13, 201, 523}[o-4]
					for i := 0; i < n; i++ {
						tdUpdate(c, d, ref, tdVal([]int{2, 5, 8}[o-4], i, n))
					}
				case o < 9:
					x, xr := tdOther(c, []int{2, 4}[o-7], 15)
					tdMerge(c, d, x, ref, xr)
				default:
					tdEncode(c, d, false, false)
				}
			}
			return d, ref
		}
		d, ref := build()
		tdRoundTrip(c, d, ref, cont, func() *tdigest.Double { r, _ := build(); return r })
		c.Step()
		c.State(engine.HAny(tdEncode(c, d, false, true)))
	}
}

// tdSerForeign reads images other implementations write.
func tdSerForeign(c *C) {
	format := c.Choose(3, "format")
	k := pickInt(c, "k", 10, 100, 200, 1000, 65535)
	m := c.Choose(4, "centroids")
	nb := 0
	if format == 0 {
		nb = c.Choose(3, "buffered")
	}
	var means []float64
	var ws []uint64
	var buf []float64
	var n uint64
	mul := []uint64{1, 1 << 33}[c.Choose(2, "scale")]
	for i := 0; i < m; i++ {
		means = append(means, []float64{-2.5, 0, 3, 1e5}[i])
		ws = append(ws, []uint64{1, 7, 1 << 20, 3}[(i+m)%4]*mul)
		n += ws[i]
	}
	for i := 0; i < nb; i++ {
		buf = append(buf, float64(i*10-5))
		n++
	}
	if n < 2 {
		return
	}
	all := append(append([]float64{}, means...), buf...)
	sort.Float64s(all)
	mn, mx := all[0], all[len(all)-1]
	if m > 0 && ws[0] > 1 {
		mn -= 1.5
	}
	if m > 0 && ws[m-1] > 1 {
		mx += 1.5
	}
	var img []byte
	rev := c.Choose(2, "reverse")
	if format == 0 {
		img = tdBuild(k, byte(rev)<<2, mn, mx, means, ws, buf)
	} else {
		img = tdBuildCompat(format == 1, k, mn, mx, means, ws)
		rev = 0
	}
	c.Logf("format=%d k=%d centroids=%v weights=%v buffer=%v", format, k, means, ws, buf)
	for how := 0; how < 3; how++ {
		d := tdDecode(c, img, how)
		a, _ := d.MinValue()
		b, _ := d.MaxValue()
		c.Assert(int(d.K()) == k && d.TotalWeight() == n && a == mn && b == mx, "foreign", "decoded k=%d weight=%d min=%v max=%v, want %d %d %v %v", d.K(), d.TotalWeight(), a, b, k, n, mn, mx)
		want := tdBuild(k, byte(rev)<<2, mn, mx, means, ws, buf)
		for _, st := range []bool{false, true} {
			got := tdEncode(c, d, st, true)
			c.Assert(eqBytes(got, want), "foreign-reencode", "re-encoded % x, want % x", got, want)
		}
		if nb == 0 {
			got := tdEncode(c, d, false, false)
			c.Assert(eqBytes(got, want), "foreign-reencode", "re-encoded without buffer % x, want % x", got, want)
		}
	}
	c.Step()
	c.State(engine.HAny(img))
}

// tdSerFaults stops the writer and the reader after every number of bytes.
func tdSerFaults(c *C) {
	k := pickInt(c, "k", 10, 100)
	n := pickInt(c, "n", 0, 1, 2, 5, 300)
	wb := c.Choose(2, "buffer") == 1
	d, ref := tdNew(c, k), &tdRef{}
	for i := 0; i < n; i++ {
		tdUpdate(c, d, ref, tdVal(2, i, max(n, 1)))
	}
	b := tdEncode(c, d, false, wb)
	for l := 0; l <= len(b); l++ {
		w := &failWriter{limit: l}
		e := tdigest.NewDoubleEncoder(w, wb)
		err := e.Encode(d)
		c.Assert((err == nil) == (l == len(b)), "write-fault", "the writer takes %d of %d bytes: error %v", l, len(b), err)
		c.Assert(err == nil || errors.Is(err, errWrite), "write-fault", "writer error became %v", err)
		dec := tdigest.NewDoubleDecoder()
		_, err = dec.Decode(bytes.NewReader(b[:l]))
		c.Assert((err == nil) == (l == len(b)), "read-fault", "the reader gives %d of %d bytes: error %v", l, len(b), err)
		broken := errors.New("read failed")
		_, err = dec.Decode(io.MultiReader(bytes.NewReader(b[:l]), iotest.ErrReader(broken)))
		c.Assert(l == len(b) || err != nil, "read-fault", "reader error after %d of %d bytes ignored", l, len(b))
		c.Step()
	}
	tdLight(c, d, ref)
	c.State(engine.HAny(b))
}

func init() {
	engine.Register(engine.Property{
		ID: "C20",
		Scenarios: func(tier string) []engine.Scenario {
			ks, d := []int{10, 29, 30, 100}, 3
			if tier == "thorough" {
				ks, d = []int{10, 11, 29, 30, 50, 100, 200}, 4
			}
			return []engine.Scenario{
				{Name: "streams", Bound: "13 shapes x sizes around every buffer boundary x query times x 5 continuations", Run: tdSerStreams(ks, tier == "thorough"), ShardDepth: 3},
				{Name: "history", Bound: "all histories of the given depth over 10 operations x 5 continuations", Run: tdSerHistory(d), ShardDepth: 3},
				{Name: "foreign", Bound: "images of the three formats, 0-3 centroids, 0-2 buffered values", Run: tdSerForeign, ShardDepth: 2},
				{Name: "faults", Bound: "writer and reader failing after every byte", Run: tdSerFaults, ShardDepth: 2},
			}
		},
	})
}
