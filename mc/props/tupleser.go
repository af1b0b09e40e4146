package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"strings"

	"github.com/apache/datasketches-go/theta"
	"github.com/apache/datasketches-go/tuple"

	"verifmc/engine"
)

func sameTuple(c *C, f tfam, a, b topd, what string) {
	va, vb := a.view(c, what+" original"), b.view(c, what+" decoded")
	if !va.same(vb) {
		c.Fail("roundtrip", "%s %s: %s", f.nm(), what, va.diff(vb))
	}
	if !eqU64(va.order, vb.order) {
		c.Fail("roundtrip-order", "%s %s: retained keys come back in another order", f.nm(), what)
	}
	c.Assert(a.ordered() == b.ordered(), "roundtrip-ordered", "%s %s: IsOrdered %v became %v", f.nm(), what, a.ordered(), b.ordered())
	c.Assert(a.seedHash() == b.seedHash(), "roundtrip-seed", "%s %s: seed hash changed", f.nm(), what)
	for sd := uint8(1); sd <= 3; sd++ {
		l1, e1, u1, err1 := a.bounds(sd)
		l2, e2, u2, err2 := b.bounds(sd)
		c.Assert(err1 == nil && err2 == nil, "bounds-error", "%s: bounds failed: %v %v", f.nm(), err1, err2)
		c.Assert(l1 == l2 && e1 == e2 && u1 == u2, "roundtrip-bounds", "%s %s: bounds %v/%v/%v became %v/%v/%v", f.nm(), what, l1, e1, u1, l2, e2, u2)
	}
}

func roundTripTuple(c *C, f tfam, s topd, seed uint64, what string) topd {
	img := f.encode(c, s)
	d, err := f.decode(img, seed)
	c.NoErr(err, "decode")
	c.Steps(2)
	sameTuple(c, f, s, d, what)
	if again := f.encode(c, d); !eqBytes(again, img) {
		c.Fail("reencode", "%s %s: re-encoding gives other bytes", f.nm(), what)
	}
	// the image belongs to the caller: overwriting it must not reach the sketch
	v := d.view(c, what)
	for i := range img {
		img[i] = 0xa5
	}
	c.Assert(d.view(c, what).same(v), "image-aliased", "%s %s: decoded sketch changed with the byte slice", f.nm(), what)
	return d
}

func c07Contents(fams []tfam) engine.Scenario {
	return engine.Scenario{
		Name: "tuple-contents", ShardDepth: 2,
		Bound: fmt.Sprintf("%d operand contents x forms x ordered/unordered x filtered/not x %d families x 2 seeds: decode(encode) equals the original in keys, order, summaries, flags and bounds; re-encoding gives the same bytes; another seed is refused; decoded sketches behave alike in set operations", len(thetaSpecs), len(fams)),
		Run: func(c *C) {
			f := fams[c.Choose(len(fams), "family")]
			sp := thetaSpecs[c.Choose(len(thetaSpecs), "content")]
			seed := []uint64{defaultSeed, 31337}[c.Choose(2, "seed")]
			form := c.Choose(nTupForms, "form")
			u := buildTuple(c, f, sp, 1, seed)
			s := tupForm(c, f, u, form, seed)
			if form == 0 {
				s = u.compact(c, false)
			}
			switch c.Choose(3, "filter") {
			case 1:
				if x := f.filter(c, s, func(t tsum) bool { return t[0]%2 == 0 }); x != nil {
					s = x
				}
			case 2:
				if x := f.filter(c, s, func(t tsum) bool { return false }); x != nil {
					s = x
				}
			}
			d := roundTripTuple(c, f, s, seed, sp.name)
			v := s.view(c, "original")
			c.State(v.fp())
			img := f.encode(c, s)
			if len(v.h) > 0 {
				_, err := f.decode(img, seed+1)
				c.Assert(err != nil, "wrong-seed", "%s %s: decoded with another seed", f.nm(), sp.name)
			}
			// behaviour: decoded and original in a union and an intersection
			other := buildTuple(c, f, thetaSpecs[4], 2, seed)
			for _, which := range []int{0, 1} {
				var r [2]tv
				for i, x := range []topd{s, d} {
					if which == 0 {
						un := f.newUnion(c, 5, 3, 1, seed)
						c.NoErr(un.update(x), "union")
						c.NoErr(un.update(other), "union")
						r[i] = un.result(c, true).view(c, "union")
					} else {
						in := f.newInter(seed)
						c.NoErr(in.update(other), "int")
						c.NoErr(in.update(x), "int")
						y, err := in.result(true)
						c.NoErr(err, "int")
						r[i] = y.view(c, "intersection")
					}
				}
				c.Assert(r[0].same(r[1]), "behaviour", "%s %s: decoded sketch behaves differently: %s", f.nm(), sp.name, r[0].diff(r[1]))
			}
		},
	}
}

// c07Sizes: every entry count, so that preamble sizes and single-entry forms are all crossed.
func c07Sizes(maxN int) engine.Scenario {
	fams := []tfam{famPtr, famF64, famI64, famF32, famVal}
	return engine.Scenario{
		Name: "tuple-sizes", ShardDepth: 2,
		Bound: fmt.Sprintf("every entry count 0..%d x p in {1,0.5,0.05} x ordered/unordered x %d families, streamed two per writer", maxN, len(fams)),
		Run: func(c *C) {
			f := fams[c.Choose(len(fams), "family")]
			n := c.Choose(maxN+1, "n")
			p := float32(pickF(c, "p", 1, 0.5, 0.05))
			u := f.newUpd(c, 5, 3, p, defaultSeed)
			for k := 0; k < n; k++ {
				_ = u.update(int64(k), k%13)
			}
			for _, ord := range []bool{true, false} {
				d := roundTripTuple(c, f, u.compact(c, ord), defaultSeed, fmt.Sprint("n=", n))
				c.State(d.view(c, "decoded").fp())
			}
		},
	}
}

// c07Aon: number of values and special values, for several element types.
func c07Aon[V tuple.Number](name string, vals []V) engine.Scenario {
	counts := []int{0, 1, 2, 3, 7, 127, 128, 255}
	return engine.Scenario{
		Name:  "aon-values-" + name,
		Bound: fmt.Sprintf("arrays of %v %s values x %d special values x 0, 1, 2, 40 keys: number of values and every bit of every value survive; image has the documented size; two sketches streamed through one writer decode one after the other", counts, name, len(vals)),
		Run: func(c *C) {
			n := counts[c.Choose(len(counts), "values")]
			v := vals[c.Choose(len(vals), "value")]
			keys := pickInt(c, "keys", 0, 1, 2, 40)
			u, err := tuple.NewArrayOfNumbersUpdateSketch[V](uint8(n), tuple.WithUpdateSketchLgK(5))
			c.NoErr(err, "new")
			x := make([]V, n)
			for i := range x {
				x[i] = v
			}
			for k := 0; k < keys; k++ {
				for i := range x {
					if i > 0 {
						x[i] = V(k + i)
					}
				}
				c.NoErr(u.UpdateInt64(int64(k), x), "upd")
				c.Step()
			}
			for i := range x {
				x[i] = 77 // the caller's array is not kept
			}
			var buf bytes.Buffer
			enc := tuple.NewArrayOfNumbersSketchEncoder[V](&buf)
			c1, err := u.Compact(true)
			c.NoErr(err, "compact")
			c2, err := u.Compact(false)
			c.NoErr(err, "compact")
			c.NoErr(enc.Encode(c1), "encode")
			one := buf.Len()
			c.NoErr(enc.Encode(c2), "encode")
			want := 16
			if keys > 0 {
				want += 8 + keys*(8+n*binary.Size(v))
			}
			c.Assert(one == want && buf.Len() == 2*want, "image-size", "%d keys of %d values: %d bytes, want %d", keys, n, one, want)
			img := bytes.Clone(buf.Bytes())
			dec := tuple.NewArrayOfNumbersSketchDecoderDecoder[V](defaultSeed)
			for i, orig := range []*tuple.ArrayOfNumbersCompactSketch[V]{c1, c2} {
				d, err := dec.Decode(&buf)
				c.NoErr(err, "decode")
				c.Assert(int(d.NumValuesInSummary()) == n, "num-values", "number of values %d became %d", n, d.NumValuesInSummary())
				a, b := aonDump(orig), aonDump(d)
				c.Assert(a == b, "roundtrip", "sketch %d: %s became %s", i, short(a), short(b))
				var again bytes.Buffer
				e2 := tuple.NewArrayOfNumbersSketchEncoder[V](&again)
				c.NoErr(e2.Encode(d), "encode")
				c.Assert(eqBytes(again.Bytes(), img[i*one:(i+1)*one]), "reencode", "re-encoding gives other bytes")
				c.State(engine.H64(again.Bytes()))
			}
			c.Assert(buf.Len() == 0, "trailing", "%d bytes left after decoding both", buf.Len())
		},
	}
}

func aonDump[V tuple.Number](s *tuple.ArrayOfNumbersCompactSketch[V]) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%x %v %v %d:", s.Theta64(), s.IsEmpty(), s.IsOrdered(), s.NumRetained())
	for h, x := range s.All() {
		fmt.Fprintf(&b, " %x[", h)
		for _, v := range x.Values() {
			var w bytes.Buffer
			_ = binary.Write(&w, binary.LittleEndian, v)
			fmt.Fprintf(&b, "%x,", w.Bytes())
		}
		b.WriteString("]")
	}
	return b.String()
}

func c07Strings() engine.Scenario {
	big := make([]string, 127)
	for i := range big {
		big[i] = strings.Repeat("x", i)
	}
	lists := [][]string{{}, {""}, {"", ""}, {"a"}, {"a", "", "bc"}, {"é", "\x00\x01", "日本語"}, {strings.Repeat("long", 5000)}, big, append(append([]string{}, big...), "too many")}
	return engine.Scenario{
		Name: "strings", ShardDepth: 2,
		Bound: fmt.Sprintf("every pair of %d string lists (empty, empty strings, multi-byte, NUL, 20 kB, 127 and 128 strings) as summaries of two keys, plus a third key, both string summaries: round trip exact, more than 127 strings refused on writing; two sketches streamed through one writer", len(lists)),
		Run: func(c *C) {
			a, b := lists[c.Choose(len(lists), "a")], lists[c.Choose(len(lists), "b")]
			inline := c.Choose(2, "inline") == 1
			third := c.Choose(2, "third") == 1
			want := map[uint64][]string{thetaHash(1, defaultSeed): a, thetaHash(2, defaultSeed): b}
			add := func(upd func(int64, []string) error) {
				c.NoErr(upd(1, a), "upd")
				c.NoErr(upd(2, b), "upd")
				if third {
					c.NoErr(upd(3, []string{"z"}), "upd")
					want[thetaHash(3, defaultSeed)] = []string{"z"}
				}
				c.Steps(3)
			}
			tooMany := len(a) > 127 || len(b) > 127
			if inline {
				u, err := tuple.NewUpdateSketchWithSummaryUpdateFunc[tuple.ArrayOfStringsInlineSummary, []string](tuple.NewArrayOfStringsInlineSummary, tuple.ArrayOfStringsInlineSummaryUpdateFunc)
				c.NoErr(err, "new")
				add(u.UpdateInt64)
				cs, err := u.Compact(third)
				c.NoErr(err, "compact")
				stringsRT[tuple.ArrayOfStringsInlineSummary](c, cs, want, tooMany, tuple.ArrayOfStringsInlineSummaryWriter, tuple.ArrayOfStringsInlineSummaryReader)
			} else {
				u, err := tuple.NewUpdateSketch[*tuple.ArrayOfStringsSummary, []string](tuple.NewArrayOfStringsSummaryFunc)
				c.NoErr(err, "new")
				add(u.UpdateInt64)
				cs, err := u.Compact(third)
				c.NoErr(err, "compact")
				stringsRT[*tuple.ArrayOfStringsSummary](c, cs, want, tooMany, tuple.ArrayOfStringsSummaryWriter, tuple.ArrayOfStringsSummaryReader)
			}
		},
	}
}

func stringsRT[S tuple.Summary](c *C, cs *tuple.CompactSketch[S], want map[uint64][]string, tooMany bool, w tuple.SummaryWriter[S], r tuple.SummaryReader[S]) {
	var buf bytes.Buffer
	enc := tuple.NewEncoder[S](&buf, w)
	err := enc.Encode(cs)
	if tooMany {
		c.Assert(err != nil, "too-many", "more than 127 strings written without error")
		return
	}
	c.NoErr(err, "encode")
	img := bytes.Clone(buf.Bytes())
	c.NoErr(enc.Encode(cs), "encode")
	dec := tuple.NewDecoder[S](defaultSeed, r)
	for i := 0; i < 2; i++ {
		d, err := dec.Decode(&buf)
		c.NoErr(err, "decode")
		n := 0
		for h, s := range d.All() {
			n++
			var one bytes.Buffer
			c.NoErr(w(&one, s), "write")
			exp, ok := want[h]
			if !ok || !eqBytes(one.Bytes(), encStrings(exp)) {
				c.Fail("roundtrip", "strings of %x: %q, want %q", h, short(one.Bytes()), short(encStrings(exp)))
			}
			cl, ok := s.Clone().(S)
			c.Assert(ok, "clone", "clone has another type")
			var two bytes.Buffer
			c.NoErr(w(&two, cl), "write")
			c.Assert(eqBytes(one.Bytes(), two.Bytes()), "clone", "clone differs")
		}
		c.Assert(n == len(want) && int(d.NumRetained()) == n, "roundtrip", "%d keys, want %d", n, len(want))
		c.Assert(d.IsOrdered() == cs.IsOrdered() && d.Theta64() == cs.Theta64(), "roundtrip", "flags changed")
		var again bytes.Buffer
		e2 := tuple.NewEncoder[S](&again, w)
		c.NoErr(e2.Encode(d), "encode")
		c.Assert(eqBytes(again.Bytes(), img), "reencode", "re-encoding gives other bytes")
		c.State(engine.H64(again.Bytes()))
	}
	c.Assert(buf.Len() == 0, "trailing", "%d bytes left", buf.Len())
	_, err = tuple.Decode[S](img, 5, r)
	c.Assert(err != nil, "wrong-seed", "decoded with another seed")
}

// c07Crafted: hand-written images of every small content decode to it (current and legacy version/type) and encode back.
func c07Crafted() engine.Scenario {
	return engine.Scenario{
		Name:  "tuple-crafted",
		Bound: "hand-written images of every subset of 5 hashes x 3 thresholds x ordered/unordered, general (current and legacy version/type) and array-of-numbers: decode to exactly that content and encode to the same bytes; other families, versions and types refused",
		Run: func(c *C) {
			f := []tfam{famPtr, famI64}[c.Choose(2, "family")]
			q := maxTheta / 100
			keys := []uint64{1, q * 10, q*10 + 1<<20, q*45 + 1, q*70 + 3}
			mask, th := c.Choose(32, "mask"), []uint64{maxTheta, q * 60, q * 30}[c.Choose(3, "theta")]
			r := tref{theta: th}
			for i, k := range keys {
				if mask>>i&1 == 1 && k < th {
					r.h = append(r.h, k)
				}
			}
			r.empty = len(r.h) == 0 && th == maxTheta
			s := craftTuple(c, f, r, c.Choose(2, "ordered") == 0, 3)
			v := s.view(c, "crafted")
			c.Assert(v.tref.eq(r), "decode", "crafted image decoded to %v, want %v", v.tref, r)
			roundTripTuple(c, f, s, defaultSeed, "crafted")
			c.State(v.fp())
			img := f.encode(c, s)
			if f == tfam(famPtr) {
				old := bytes.Clone(img)
				old[1], old[3] = 1, 5
				d, err := f.decode(old, defaultSeed)
				c.NoErr(err, "legacy-decode")
				sameTuple(c, f, s, d, "legacy")
			}
			for _, m := range []struct{ at, val int }{{1, 0}, {1, 2}, {1, 9}, {2, 3}, {2, 0}, {3, 0}, {3, 9}} {
				bad := bytes.Clone(img)
				bad[m.at] = byte(m.val)
				_, err := f.decode(bad, defaultSeed)
				c.Assert(err != nil, "bad-header", "%s: image with byte %d = %d accepted", f.nm(), m.at, m.val)
			}
			c.Steps(8)
		},
	}
}

func init() {
	_ = io.EOF
	_ = theta.MaxTheta
	engine.Register(engine.Property{ID: "C07", Assumptions: []string{
		"summary readers and writers supplied by the harness are inverse of each other",
		"an array-of-numbers image carries no seed check when it retains no entries (as in the other language versions); it keeps its own seed hash"},
		Scenarios: func(tier string) []engine.Scenario {
			f64 := []float64{0, math.Copysign(0, -1), 1.5, -2.25, math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, math.SmallestNonzeroFloat64, math.Float64frombits(0x7ff8000000000123)}
			n := 140
			if tier == "thorough" {
				n = 700
			}
			s := []engine.Scenario{c07Strings(), c07Crafted(),
				c07Aon[float64]("float64", f64), c07Aon[float32]("float32", []float32{0, 1.5, float32(math.Inf(1)), math.MaxFloat32}),
				c07Aon[int64]("int64", []int64{0, -1, math.MaxInt64, math.MinInt64}), c07Aon[int32]("int32", []int32{0, -1, math.MaxInt32}),
				c07Aon[int8]("int8", []int8{0, -1, 127, -128}), c07Aon[uint8]("uint8", []uint8{0, 255}), c07Aon[uint16]("uint16", []uint16{65535}),
				c07Contents(append(append([]tfam{}, tFams...), famF32)), c07Sizes(n)}
			return s
		}})
}
