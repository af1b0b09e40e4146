package props

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"sort"

	"github.com/apache/datasketches-go/theta"
	"github.com/apache/datasketches-go/tuple"

	"verifmc/engine"
)

// tsum is the canonical value of a summary. Summaries used here are order sensitive: folding or combining the
// same values in another order gives another result.
type tsum [3]int64

// logSum is a pointer summary (mutable in place).
type logSum struct{ acc int64 }

func (s *logSum) Reset()               { s.acc = 0 }
func (s *logSum) Clone() tuple.Summary { d := *s; return &d }
func (s *logSum) Update(v int)         { s.acc = logFold(s.acc, v) }

func logFold(a int64, v int) int64    { return a*1000003 + int64(v) + 1 }
func logCombine(a, b int64) int64     { return a*31 + b*7 + 5 }
func aonCombine(a, b float64) float64 { return 2*a + b }

type logPolicy struct{}

func (logPolicy) Apply(in, inc *logSum) { in.acc = logCombine(in.acc, inc.acc) }

// valSum is a value summary (immutable; folded and merged by functions).
type valSum struct{ acc int64 }

func (s valSum) Reset()               {}
func (s valSum) Clone() tuple.Summary { return s }
func (s valSum) Update(int)           {}

type aonPolicy[V tuple.Number] struct{}

func (aonPolicy[V]) Apply(in, inc *tuple.ArrayOfNumbersSummary[V]) {
	for i, v := range inc.Values() {
		in.Values()[i] = 2*in.Values()[i] + v
	}
}

func aonVals[V tuple.Number](v int) []V { return []V{V(v), 1, V(v * v)} }

// tv is the observed content of a tuple sketch.
type tv struct {
	tref
	s     []tsum // aligned with h (sorted)
	order []uint64
}

func (a tv) same(b tv) bool {
	if !a.tref.eq(b.tref) {
		return false
	}
	for i := range a.s {
		if a.s[i] != b.s[i] {
			return false
		}
	}
	return true
}

func (a tv) diff(b tv) string {
	if !a.tref.eq(b.tref) {
		return fmt.Sprintf("%v vs %v", a.tref, b.tref)
	}
	for i := range a.s {
		if a.s[i] != b.s[i] {
			return fmt.Sprintf("summary of %x: %v vs %v", a.h[i], a.s[i], b.s[i])
		}
	}
	return "same"
}

func (a tv) fp() uint64 {
	x := a.tref.fp()
	for _, s := range a.s {
		x = mix(x, uint64(s[0]), uint64(s[1]))
	}
	return x
}

func (a tv) get(h uint64) (tsum, bool) {
	i := sort.Search(len(a.h), func(i int) bool { return a.h[i] >= h })
	if i < len(a.h) && a.h[i] == h {
		return a.s[i], true
	}
	return tsum{}, false
}

// hashView lets the theta observer read a tuple sketch.
type hashView[S tuple.Summary] struct{ s tuple.Sketch[S] }

func viewTuple[S tuple.Summary](c *C, s tuple.Sketch[S], canon func(S) tsum, what string) tv {
	r := tv{tref: tref{theta: s.Theta64(), empty: s.IsEmpty()}}
	for h, x := range s.All() {
		r.order = append(r.order, h)
		r.h = append(r.h, h)
		r.s = append(r.s, canon(x))
	}
	if s.IsOrdered() {
		for i := 1; i < len(r.h); i++ {
			if r.h[i-1] >= r.h[i] {
				c.Fail("order", "%s: claims to be ordered but entries are not increasing at %d", what, i)
			}
		}
	}
	sort.Sort(&r)
	for i, h := range r.h {
		if i > 0 && r.h[i-1] == h {
			c.Fail("dup", "%s: retained entry %x twice", what, h)
		}
		if h == 0 || h >= r.theta {
			c.Fail("above-theta", "%s: retained %x not in (0, theta=%x)", what, h, r.theta)
		}
	}
	c.Assert(int(s.NumRetained()) == len(r.h), "count", "%s: NumRetained=%d but iterates %d", what, s.NumRetained(), len(r.h))
	if r.empty {
		c.Assert(len(r.h) == 0 && s.Estimate() == 0, "empty-entries", "%s: empty with %d entries, estimate %v", what, len(r.h), s.Estimate())
	}
	th := float64(r.theta) / float64(maxTheta)
	c.Assert(s.Theta() == th, "theta-frac", "%s: Theta()=%v, want %v", what, s.Theta(), th)
	c.Assert(near(s.Estimate(), float64(len(r.h))/th, 1e-12), "estimate", "%s: Estimate()=%v with %d entries at theta %v", what, s.Estimate(), len(r.h), th)
	est := r.theta < maxTheta && !r.empty
	c.Assert(s.IsEstimationMode() == est, "estmode", "%s: IsEstimationMode()=%v want %v", what, s.IsEstimationMode(), est)
	return r
}

func (a *tv) Len() int           { return len(a.h) }
func (a *tv) Less(i, j int) bool { return a.h[i] < a.h[j] }
func (a *tv) Swap(i, j int)      { a.h[i], a.h[j] = a.h[j], a.h[i]; a.s[i], a.s[j] = a.s[j], a.s[i] }

// ---- families -------------------------------------------------------------------------------------

// topd is a tuple sketch of some family (any form).
type topd interface {
	view(c *C, what string) tv
	mutate() bool // add one to every retained summary in place; false if summaries are values
	seedHash() uint16
	ordered() bool
	bounds(sd uint8) (lb, est, ub float64, err error)
	subset(sd uint8, n uint32) (lb, ub float64, err error)
	str() string
}

type tupd interface {
	topd
	update(key int64, v int) error
	typed(key any, v int) error
	trim()
	reset()
	compact(c *C, ordered bool) topd
}

type tunion interface {
	update(s topd) error
	result(c *C, ordered bool) topd
	reset()
}

type tinter interface {
	update(s topd) error
	result(ordered bool) (topd, error)
	hasResult() bool
}

type tfam interface {
	nm() string
	newUpd(c *C, lgK, rf int, p float32, seed uint64) tupd
	filter(c *C, s topd, keep func(tsum) bool) topd // nil if the family has no filter
	newUnion(c *C, lgK, rf int, p float32, seed uint64) tunion
	newInter(seed uint64) tinter
	aNotB(a, b topd, seed uint64, ordered bool) (topd, error)
	aNotTheta(a topd, b theta.Sketch, seed uint64, ordered bool) (topd, error)
	encode(c *C, s topd) []byte
	decode(b []byte, seed uint64) (topd, error)
	fold(a tsum, v int) tsum
	combine(a, b tsum) tsum
}

type typedIface[V any] interface {
	UpdateUint64(uint64, V) error
	UpdateInt64(int64, V) error
	UpdateUint32(uint32, V) error
	UpdateInt32(int32, V) error
	UpdateUint16(uint16, V) error
	UpdateInt16(int16, V) error
	UpdateUint8(uint8, V) error
	UpdateInt8(int8, V) error
	UpdateFloat64(float64, V) error
	UpdateFloat32(float32, V) error
	UpdateString(string, V) error
	UpdateBytes([]byte, V) error
}

func typedDo[V any](s typedIface[V], key any, v V) error {
	switch x := key.(type) {
	case uint64:
		return s.UpdateUint64(x, v)
	case int64:
		return s.UpdateInt64(x, v)
	case uint32:
		return s.UpdateUint32(x, v)
	case int32:
		return s.UpdateInt32(x, v)
	case uint16:
		return s.UpdateUint16(x, v)
	case int16:
		return s.UpdateInt16(x, v)
	case uint8:
		return s.UpdateUint8(x, v)
	case int8:
		return s.UpdateInt8(x, v)
	case float64:
		return s.UpdateFloat64(x, v)
	case float32:
		return s.UpdateFloat32(x, v)
	case string:
		return s.UpdateString(x, v)
	case []byte:
		return s.UpdateBytes(x, v)
	}
	panic("typed")
}

func typedTheta(s *theta.QuickSelectUpdateSketch, key any) error {
	switch x := key.(type) {
	case uint64:
		return s.UpdateUint64(x)
	case int64:
		return s.UpdateInt64(x)
	case uint32:
		return s.UpdateUint32(x)
	case int32:
		return s.UpdateInt32(x)
	case uint16:
		return s.UpdateUint16(x)
	case int16:
		return s.UpdateInt16(x)
	case uint8:
		return s.UpdateUint8(x)
	case int8:
		return s.UpdateInt8(x)
	case float64:
		return s.UpdateFloat64(x)
	case float32:
		return s.UpdateFloat32(x)
	case string:
		return s.UpdateString(x)
	case []byte:
		return s.UpdateBytes(x)
	}
	panic("typed")
}

// gen is the general tuple family (pointer or value summaries).
type gen[S tuple.UpdatableSummary[int]] struct {
	name  string
	newS  func() S
	updF  func(S, int) S // nil: in-place updates
	pol   tuple.Policy[S]
	mrg   func(S, S) S // nil: policy
	canon func(S) tsum
	mut   func(S)
	mk    func(int64) S
}

type genSk[S tuple.UpdatableSummary[int]] struct {
	f *gen[S]
	s tuple.Sketch[S]
}

func (o genSk[S]) view(c *C, what string) tv { return viewTuple(c, o.s, o.f.canon, o.f.name+": "+what) }
func (o genSk[S]) mutate() bool {
	if o.f.mut == nil {
		return false
	}
	for _, x := range o.s.All() {
		o.f.mut(x)
	}
	return true
}
func (o genSk[S]) seedHash() uint16 { h, _ := o.s.SeedHash(); return h }
func (o genSk[S]) ordered() bool    { return o.s.IsOrdered() }
func (o genSk[S]) str() string      { return o.s.String(true) }
func (o genSk[S]) bounds(sd uint8) (float64, float64, float64, error) {
	l, e1 := o.s.LowerBound(sd)
	u, e2 := o.s.UpperBound(sd)
	return l, o.s.Estimate(), u, errors.Join(e1, e2)
}
func (o genSk[S]) subset(sd uint8, n uint32) (float64, float64, error) {
	l, e1 := o.s.LowerBoundFromSubset(sd, n)
	u, e2 := o.s.UpperBoundFromSubset(sd, n)
	return l, u, errors.Join(e1, e2)
}

type genUpd[S tuple.UpdatableSummary[int]] struct {
	genSk[S]
	u *tuple.UpdateSketch[S, int]
}

func (o genUpd[S]) update(k int64, v int) error { return o.u.UpdateInt64(k, v) }
func (o genUpd[S]) typed(k any, v int) error    { return typedDo[int](o.u, k, v) }
func (o genUpd[S]) trim()                       { o.u.Trim() }
func (o genUpd[S]) reset()                      { o.u.Reset() }
func (o genUpd[S]) compact(c *C, ord bool) topd {
	x, err := o.u.Compact(ord)
	c.NoErr(err, "compact")
	return genSk[S]{o.f, x}
}

func (f *gen[S]) nm() string { return f.name }
func (f *gen[S]) newUpd(c *C, lgK, rf int, p float32, seed uint64) tupd {
	opts := []tuple.UpdateSketchOptionFunc{tuple.WithUpdateSketchLgK(uint8(lgK)), tuple.WithUpdateSketchResizeFactor(theta.ResizeFactor(rf)),
		tuple.WithUpdateSketchP(p), tuple.WithUpdateSketchSeed(seed)}
	var u *tuple.UpdateSketch[S, int]
	var err error
	if f.updF != nil {
		u, err = tuple.NewUpdateSketchWithSummaryUpdateFunc[S, int](f.newS, f.updF, opts...)
	} else {
		u, err = tuple.NewUpdateSketch[S, int](f.newS, opts...)
	}
	c.NoErr(err, "new")
	return genUpd[S]{genSk[S]{f, u}, u}
}

func genOf[S tuple.UpdatableSummary[int]](s topd) tuple.Sketch[S] {
	switch x := s.(type) {
	case genSk[S]:
		return x.s
	case genUpd[S]:
		return x.s
	}
	panic("family mismatch")
}

func (f *gen[S]) filter(c *C, s topd, keep func(tsum) bool) topd {
	pred := func(x S) bool { return keep(f.canon(x)) }
	var r *tuple.CompactSketch[S]
	var err error
	switch x := genOf[S](s).(type) {
	case *tuple.UpdateSketch[S, int]:
		r, err = x.Filter(pred)
	case *tuple.CompactSketch[S]:
		r, err = x.Filter(pred)
	}
	c.NoErr(err, "filter")
	return genSk[S]{f, r}
}

type genUnion[S tuple.UpdatableSummary[int]] struct {
	f *gen[S]
	u *tuple.Union[S]
}

func (f *gen[S]) newUnion(c *C, lgK, rf int, p float32, seed uint64) tunion {
	opts := []tuple.UnionOptionFunc{tuple.WithUnionLgK(uint8(lgK)), tuple.WithUnionResizeFactor(theta.ResizeFactor(rf)), tuple.WithUnionSketchP(p), tuple.WithUnionSeed(seed)}
	var u *tuple.Union[S]
	var err error
	if f.mrg != nil {
		u, err = tuple.NewUnionWithSummaryMergeFunc[S](f.mrg, opts...)
	} else {
		u, err = tuple.NewUnion[S](f.pol, opts...)
	}
	c.NoErr(err, "new-union")
	return genUnion[S]{f, u}
}
func (u genUnion[S]) update(s topd) error { return u.u.Update(genOf[S](s)) }
func (u genUnion[S]) reset()              { u.u.Reset() }
func (u genUnion[S]) result(c *C, ord bool) topd {
	r, err := u.u.Result(ord)
	if ord {
		r, err = u.u.OrderedResult()
	}
	c.NoErr(err, "union-result")
	return genSk[S]{u.f, r}
}

type genInter[S tuple.UpdatableSummary[int]] struct {
	f *gen[S]
	i *tuple.Intersection[S]
}

func (f *gen[S]) newInter(seed uint64) tinter {
	if f.mrg != nil {
		return genInter[S]{f, tuple.NewIntersectionWithSummaryMergeFunc[S](f.mrg, tuple.WithIntersectionSeed(seed))}
	}
	return genInter[S]{f, tuple.NewIntersection[S](f.pol, tuple.WithIntersectionSeed(seed))}
}
func (i genInter[S]) update(s topd) error { return i.i.Update(genOf[S](s)) }
func (i genInter[S]) hasResult() bool     { return i.i.HasResult() }
func (i genInter[S]) result(ord bool) (topd, error) {
	r, err := i.i.Result(ord)
	if ord {
		r, err = i.i.OrderedResult()
	}
	if err != nil {
		return nil, err
	}
	return genSk[S]{i.f, r}, nil
}

func (f *gen[S]) aNotB(a, b topd, seed uint64, ord bool) (topd, error) {
	r, err := tuple.ANotB[S](genOf[S](a), genOf[S](b), seed, ord)
	if err != nil {
		return nil, err
	}
	return genSk[S]{f, r}, nil
}
func (f *gen[S]) aNotTheta(a topd, b theta.Sketch, seed uint64, ord bool) (topd, error) {
	r, err := tuple.TupleANotThetaB[S](genOf[S](a), b, seed, ord)
	if err != nil {
		return nil, err
	}
	return genSk[S]{f, r}, nil
}
func (f *gen[S]) encode(c *C, s topd) []byte {
	var b bytes.Buffer
	cs, ok := genOf[S](s).(*tuple.CompactSketch[S])
	if !ok {
		x, err := tuple.NewCompactSketch[S](genOf[S](s), false)
		c.NoErr(err, "compact")
		cs = x
	}
	enc := tuple.NewEncoder[S](&b, func(w io.Writer, x S) error { return binary.Write(w, binary.LittleEndian, f.canon(x)[0]) })
	c.NoErr(enc.Encode(cs), "encode")
	return b.Bytes()
}
func (f *gen[S]) decode(b []byte, seed uint64) (topd, error) {
	r, err := tuple.Decode[S](b, seed, func(r io.Reader) (S, error) {
		var v int64
		if err := binary.Read(r, binary.LittleEndian, &v); err != nil {
			var z S
			return z, err
		}
		return f.mk(v), nil
	})
	if err != nil {
		return nil, err
	}
	return genSk[S]{f, r}, nil
}
func (f *gen[S]) fold(a tsum, v int) tsum { return tsum{logFold(a[0], v)} }
func (f *gen[S]) combine(a, b tsum) tsum  { return tsum{logCombine(a[0], b[0])} }

// aon is the array-of-numbers family (3 values).
type aon[V tuple.Number] struct{ name string }

type aonSk[V tuple.Number] struct {
	f *aon[V]
	s tuple.ArrayOfNumbersSketch[V]
}

func aonCanon[V tuple.Number](s *tuple.ArrayOfNumbersSummary[V]) tsum {
	var t tsum
	for i, v := range s.Values() {
		t[i%3] += int64(v)
	}
	if len(s.Values()) != 3 {
		t[0] = -12345 - int64(len(s.Values()))
	}
	return t
}

func (o aonSk[V]) view(c *C, what string) tv {
	c.Assert(o.s.NumValuesInSummary() == 3, "num-values", "%s: NumValuesInSummary=%d", what, o.s.NumValuesInSummary())
	return viewTuple[*tuple.ArrayOfNumbersSummary[V]](c, o.s, aonCanon[V], o.f.name+": "+what)
}
func (o aonSk[V]) mutate() bool {
	for _, x := range o.s.All() {
		x.Values()[0]++
	}
	return true
}
func (o aonSk[V]) seedHash() uint16 { h, _ := o.s.SeedHash(); return h }
func (o aonSk[V]) ordered() bool    { return o.s.IsOrdered() }
func (o aonSk[V]) str() string      { return o.s.String(true) }
func (o aonSk[V]) bounds(sd uint8) (float64, float64, float64, error) {
	l, e1 := o.s.LowerBound(sd)
	u, e2 := o.s.UpperBound(sd)
	return l, o.s.Estimate(), u, errors.Join(e1, e2)
}
func (o aonSk[V]) subset(sd uint8, n uint32) (float64, float64, error) {
	l, e1 := o.s.LowerBoundFromSubset(sd, n)
	u, e2 := o.s.UpperBoundFromSubset(sd, n)
	return l, u, errors.Join(e1, e2)
}

type aonUpd[V tuple.Number] struct {
	aonSk[V]
	u *tuple.ArrayOfNumbersUpdateSketch[V]
}

func (o aonUpd[V]) update(k int64, v int) error { return o.u.UpdateInt64(k, aonVals[V](v)) }
func (o aonUpd[V]) typed(k any, v int) error    { return typedDo[[]V](o.u, k, aonVals[V](v)) }
func (o aonUpd[V]) trim()                       { o.u.Trim() }
func (o aonUpd[V]) reset()                      { o.u.Reset() }
func (o aonUpd[V]) compact(c *C, ord bool) topd {
	x, err := o.u.Compact(ord)
	c.NoErr(err, "compact")
	return aonSk[V]{o.f, x}
}

func (f *aon[V]) nm() string { return f.name }
func (f *aon[V]) newUpd(c *C, lgK, rf int, p float32, seed uint64) tupd {
	u, err := tuple.NewArrayOfNumbersUpdateSketch[V](3, tuple.WithUpdateSketchLgK(uint8(lgK)), tuple.WithUpdateSketchResizeFactor(theta.ResizeFactor(rf)),
		tuple.WithUpdateSketchP(p), tuple.WithUpdateSketchSeed(seed))
	c.NoErr(err, "new")
	return aonUpd[V]{aonSk[V]{f, u}, u}
}
func (f *aon[V]) filter(*C, topd, func(tsum) bool) topd { return nil }

func aonOf[V tuple.Number](s topd) tuple.ArrayOfNumbersSketch[V] {
	switch x := s.(type) {
	case aonSk[V]:
		return x.s
	case aonUpd[V]:
		return x.s
	}
	panic("family mismatch")
}

type aonUnion[V tuple.Number] struct {
	f *aon[V]
	u *tuple.ArrayOfNumbersSketchUnion[V]
}

func (f *aon[V]) newUnion(c *C, lgK, rf int, p float32, seed uint64) tunion {
	u, err := tuple.NewArrayOfNumbersSketchUnion[V](aonPolicy[V]{}, 3, tuple.WithUnionLgK(uint8(lgK)), tuple.WithUnionResizeFactor(theta.ResizeFactor(rf)),
		tuple.WithUnionSketchP(p), tuple.WithUnionSeed(seed))
	c.NoErr(err, "new-union")
	return aonUnion[V]{f, u}
}
func (u aonUnion[V]) update(s topd) error { return u.u.Update(aonOf[V](s)) }
func (u aonUnion[V]) reset()              { u.u.Reset() }
func (u aonUnion[V]) result(c *C, ord bool) topd {
	r, err := u.u.Result(ord)
	if ord {
		r, err = u.u.OrderedResult()
	}
	c.NoErr(err, "union-result")
	return aonSk[V]{u.f, r}
}

type aonInter[V tuple.Number] struct {
	f *aon[V]
	i *tuple.ArrayOfNumbersSketchIntersection[V]
}

func (f *aon[V]) newInter(seed uint64) tinter {
	return aonInter[V]{f, tuple.NewArrayOfNumbersSketchIntersection[V](aonPolicy[V]{}, 3, tuple.WithIntersectionSeed(seed))}
}
func (i aonInter[V]) update(s topd) error { return i.i.Update(aonOf[V](s)) }
func (i aonInter[V]) hasResult() bool     { return i.i.HasResult() }
func (i aonInter[V]) result(ord bool) (topd, error) {
	r, err := i.i.Result(ord)
	if ord {
		r, err = i.i.OrderedResult()
	}
	if err != nil {
		return nil, err
	}
	return aonSk[V]{i.f, r}, nil
}
func (f *aon[V]) aNotB(a, b topd, seed uint64, ord bool) (topd, error) {
	r, err := tuple.ArrayOfNumbersSketchANotB[V](aonOf[V](a), aonOf[V](b), seed, ord)
	if err != nil {
		return nil, err
	}
	return aonSk[V]{f, r}, nil
}

// AoN result of a difference with a theta sketch is a general compact sketch.
func (f *aon[V]) aNotTheta(a topd, b theta.Sketch, seed uint64, ord bool) (topd, error) {
	r, err := tuple.TupleANotThetaB[*tuple.ArrayOfNumbersSummary[V]](aonOf[V](a), b, seed, ord)
	if err != nil {
		return nil, err
	}
	return aonGen[V]{f, r}, nil
}

type aonGen[V tuple.Number] struct {
	f *aon[V]
	s *tuple.CompactSketch[*tuple.ArrayOfNumbersSummary[V]]
}

func (o aonGen[V]) view(c *C, what string) tv {
	return viewTuple[*tuple.ArrayOfNumbersSummary[V]](c, o.s, aonCanon[V], o.f.name+"(general): "+what)
}
func (o aonGen[V]) mutate() bool {
	for _, x := range o.s.All() {
		x.Values()[0]++
	}
	return true
}
func (o aonGen[V]) seedHash() uint16 { h, _ := o.s.SeedHash(); return h }
func (o aonGen[V]) ordered() bool    { return o.s.IsOrdered() }
func (o aonGen[V]) str() string      { return o.s.String(true) }
func (o aonGen[V]) bounds(sd uint8) (float64, float64, float64, error) {
	l, e1 := o.s.LowerBound(sd)
	u, e2 := o.s.UpperBound(sd)
	return l, o.s.Estimate(), u, errors.Join(e1, e2)
}
func (o aonGen[V]) subset(sd uint8, n uint32) (float64, float64, error) {
	l, e1 := o.s.LowerBoundFromSubset(sd, n)
	u, e2 := o.s.UpperBoundFromSubset(sd, n)
	return l, u, errors.Join(e1, e2)
}

func (f *aon[V]) encode(c *C, s topd) []byte {
	var b bytes.Buffer
	cs, ok := aonOf[V](s).(*tuple.ArrayOfNumbersCompactSketch[V])
	if !ok {
		x, err := tuple.NewArrayOfNumbersCompactSketch[V](aonOf[V](s), false)
		c.NoErr(err, "compact")
		cs = x
	}
	enc := tuple.NewArrayOfNumbersSketchEncoder[V](&b)
	c.NoErr(enc.Encode(cs), "encode")
	return b.Bytes()
}
func (f *aon[V]) decode(b []byte, seed uint64) (topd, error) {
	r, err := tuple.DecodeArrayOfNumbersCompactSketch[V](b, seed)
	if err != nil {
		return nil, err
	}
	return aonSk[V]{f, r}, nil
}
func (f *aon[V]) fold(a tsum, v int) tsum {
	return tsum{a[0] + int64(v), a[1] + 1, a[2] + int64(v*v)}
}
func (f *aon[V]) combine(a, b tsum) tsum {
	return tsum{2*a[0] + b[0], 2*a[1] + b[1], 2*a[2] + b[2]}
}

var (
	famPtr = &gen[*logSum]{name: "pointer-summary", newS: func() *logSum { return &logSum{} }, pol: logPolicy{},
		canon: func(s *logSum) tsum { return tsum{s.acc} }, mut: func(s *logSum) { s.acc++ }, mk: func(v int64) *logSum { return &logSum{v} }}
	famVal = &gen[valSum]{name: "value-summary", newS: func() valSum { return valSum{} },
		updF:  func(s valSum, v int) valSum { return valSum{logFold(s.acc, v)} },
		mrg:   func(a, b valSum) valSum { return valSum{logCombine(a.acc, b.acc)} },
		canon: func(s valSum) tsum { return tsum{s.acc} }, mk: func(v int64) valSum { return valSum{v} }}
	// pointer summaries updated and merged through the function variants
	famPtrFn = &gen[*logSum]{name: "pointer-summary-func", newS: func() *logSum { return &logSum{} },
		updF:  func(s *logSum, v int) *logSum { s.Update(v); return s },
		mrg:   func(a, b *logSum) *logSum { return &logSum{logCombine(a.acc, b.acc)} },
		canon: func(s *logSum) tsum { return tsum{s.acc} }, mut: func(s *logSum) { s.acc++ }, mk: func(v int64) *logSum { return &logSum{v} }}
	famF64 = &aon[float64]{"array-of-float64"}
	famF32 = &aon[float32]{"array-of-float32"}
	famI64 = &aon[int64]{"array-of-int64"}
	tFams  = []tfam{famPtr, famVal, famF64, famI64}
)

// ---- C05 ------------------------------------------------------------------------------------------

// tupleModel folds values per key.
type tupleModel struct {
	f tfam
	m map[uint64]tsum
}

func (m *tupleModel) add(h uint64, v int) { m.m[h] = m.f.fold(m.m[h], v) }

func (m *tupleModel) check(c *C, got tv, want tref, what string) {
	if !got.tref.eq(want) {
		c.Fail("keys", "%s %s: keys differ from the theta sketch: %v vs %v", m.f.nm(), what, got.tref, want)
	}
	for i, h := range got.h {
		if w := m.m[h]; got.s[i] != w {
			c.Fail("summary", "%s %s: summary of %x is %v, want %v", m.f.nm(), what, h, got.s[i], w)
		}
	}
}

// unshared: adding one to every summary in place changes each exactly once and nothing else.
func unshared(c *C, s topd, before tv, what string, others ...topd) {
	var ob []tv
	for _, o := range others {
		ob = append(ob, o.view(c, what))
	}
	if !s.mutate() {
		return
	}
	after := s.view(c, what)
	for i := range after.s {
		if after.s[i][0] != before.s[i][0]+1 {
			c.Fail("shared-summary", "%s: a summary is shared between keys (adding 1 to each moved %v to %v)", what, before.s[i], after.s[i])
		}
	}
	for i, o := range others {
		if v := o.view(c, what); !v.same(ob[i]) {
			c.Fail("aliased-summary", "%s: changing a summary changed another sketch: %s", what, v.diff(ob[i]))
		}
	}
}

func c05Ops(depth int, rfs []int, fams []tfam) engine.Scenario {
	pre := []int{0, 1, 2, 15, 16, 17, 31, 32, 47, 58, 59, 60, 61, 75, 130}
	return engine.Scenario{
		Name: fmt.Sprintf("tuple-ops-depth%d", depth), ShardDepth: 3,
		Bound: fmt.Sprintf("lgK=5, prefill %v keys, resize factors %v, p in {1,0.5}, %d sketch families in lockstep with a theta sketch: every sequence of %d operations from {new low key, new high key, colliding key, repeat last key, repeat prefilled key, trim, reset, compact and hold, filter and hold}", pre, rfs, len(fams), depth),
		Run: func(c *C) {
			keys, col := thetaKeys(), collidingKeys()
			n := pickInt(c, "prefill", pre...)
			rf := pickInt(c, "rf", rfs...)
			p := float32(pickF(c, "p", 1, 0.5))
			th := newTheta(c, 5, rf, p, defaultSeed)
			var us []tupd
			var ms []*tupleModel
			for _, f := range fams {
				us = append(us, f.newUpd(c, 5, rf, p, defaultSeed))
				ms = append(ms, &tupleModel{f, map[uint64]tsum{}})
			}
			val := 0
			upd := func(k keyHash) {
				val = (val + 7) % 61
				_ = th.UpdateInt64(k.key)
				for i, u := range us {
					err := u.update(k.key, val)
					if err != nil && !errors.Is(err, tuple.ErrHashExceedsTheta) {
						c.Fail("upd-error", "%s: %v", fams[i].nm(), err)
					}
					ms[i].add(k.hash, val)
				}
				c.Steps(len(us))
			}
			for i := 0; i < n; i++ {
				upd(keys[(i*40503+12345)&0xffff])
				if i%3 == 0 {
					upd(keys[((i/2)*40503+12345)&0xffff])
				}
			}
			check := func(what string) {
				want := observe(c, th, what)
				var fp uint64
				for i, u := range us {
					v := u.view(c, what)
					ms[i].check(c, v, want, what)
					fp = mix(fp, v.fp())
				}
				c.State(fp)
			}
			check("prefill")
			type held struct {
				s topd
				v tv
			}
			var hold []held
			lo, hi, ci := 40, 30000, 0
			last := keys[12345]
			for d := 0; d < depth; d++ {
				op := c.Choose(9, "op")
				switch op {
				case 0:
					last = keys[lo]
					lo++
					upd(last)
				case 1:
					last = keys[hi]
					hi += 19
					upd(last)
				case 2:
					last = col[ci]
					ci++
					upd(last)
				case 3:
					upd(last)
				case 4:
					upd(keys[12345])
				case 5:
					th.Trim()
					for _, u := range us {
						u.trim()
					}
				case 6:
					th.Reset()
					for i, u := range us {
						u.reset()
						ms[i].m = map[uint64]tsum{}
					}
				case 7:
					want := observe(c, th, "compact")
					for i, u := range us {
						for _, ord := range []bool{true, false} {
							s := u.compact(c, ord)
							v := s.view(c, "compact")
							ms[i].check(c, v, want, "compact")
							c.Assert(!ord || s.ordered(), "compact-order", "Compact(true) not ordered")
							hold = append(hold, held{s, v})
						}
					}
				case 8:
					want := observe(c, th, "filter")
					for i, u := range us {
						keep := func(t tsum) bool { return (t[0]^t[2])%3 == 0 }
						s := fams[i].filter(c, u, keep)
						if s == nil {
							continue
						}
						v := s.view(c, "filter")
						w := tref{theta: want.theta}
						for _, h := range want.h {
							if keep(ms[i].m[h]) {
								w.h = append(w.h, h)
							}
						}
						w.empty = len(w.h) == 0 && !th.IsEstimationMode()
						ms[i].check(c, v, w, "filtered")
						s2 := fams[i].filter(c, u.compact(c, true), keep)
						ms[i].check(c, s2.view(c, "filter"), w, "filtered compact")
						hold = append(hold, held{s, v})
					}
				}
				c.Step()
				check(fmt.Sprintf("after op %d (#%d)", op, d))
			}
			for _, h := range hold {
				if v := h.s.view(c, "held"); !v.same(h.v) {
					c.Fail("held-changed", "an earlier compact/filtered sketch changed: %s", v.diff(h.v))
				}
			}
			for i, u := range us {
				cs := u.compact(c, i%2 == 0)
				before := cs.view(c, "compact")
				unshared(c, cs, before, fams[i].nm()+" compact", u)
				before = u.view(c, "update sketch")
				_ = u.str()
				unshared(c, u, before, fams[i].nm()+" update sketch", cs)
				if s := fams[i].filter(c, u, func(tsum) bool { return true }); s != nil {
					unshared(c, s, s.view(c, "filter"), fams[i].nm()+" filtered", u)
				}
			}
		},
	}
}

func c05Long(lgKs []int, mult int) engine.Scenario {
	return engine.Scenario{
		Name: "tuple-long-streams", ShardDepth: 4,
		Bound: fmt.Sprintf("lgK in %v, resize factors 0..3, p in {1,0.7,0.1}: streams of %d*k keys ascending, descending or scrambled, every key given 1..3 values interleaved, compared with theta and the per-key fold at every power of two and at the end, after trim, after reset and refill", lgKs, mult),
		Run: func(c *C) {
			lgK := pickInt(c, "lgK", lgKs...)
			rf := pickInt(c, "rf", 0, 1, 2, 3)
			p := float32(pickF(c, "p", 1, 0.7, 0.1))
			ord := c.Choose(3, "order")
			f := tFams[c.Choose(len(tFams), "family")]
			keys := thetaKeys()
			th := newTheta(c, lgK, rf, p, defaultSeed)
			u := f.newUpd(c, lgK, rf, p, defaultSeed)
			m := &tupleModel{f, map[uint64]tsum{}}
			check := func(what string) {
				v := u.view(c, what)
				m.check(c, v, observe(c, th, what), what)
				c.State(v.fp())
			}
			pick := func(i, n int) keyHash {
				switch ord {
				case 0:
					return keys[i*(len(keys)/n)]
				case 1:
					return keys[(n-1-i)*(len(keys)/n)]
				}
				return keys[(i*40503+99)&0xffff]
			}
			n := mult << lgK
			run := func(n int) {
				for i := 0; i < n; i++ {
					for j := 0; j <= i%3; j++ {
						k := pick(max(0, i-j*j*5), n)
						_ = th.UpdateInt64(k.key)
						_ = u.update(k.key, i%50+j)
						m.add(k.hash, i%50+j)
						c.Step()
					}
					if i&(i+1) == 0 {
						check("stream")
					}
				}
			}
			run(n)
			check("end")
			th.Trim()
			u.trim()
			check("trim")
			th.Reset()
			u.reset()
			m.m = map[uint64]tsum{}
			check("reset")
			run(n / 2)
			check("refilled")
			cs := u.compact(c, true)
			unshared(c, cs, cs.view(c, "compact"), "compact", u)
		},
	}
}

func typedKeys() []any {
	ks := []any{}
	for _, v := range []int64{0, 1, -1, 7, 127, -128, 128, 255, 256, 32767, -32768, 65535, 65536, math.MaxInt32, math.MinInt32, math.MaxUint32, math.MaxInt64, math.MinInt64} {
		ks = append(ks, v, uint64(v), int32(v), uint32(v), int16(v), uint16(v), int8(v), uint8(v))
	}
	for _, f := range []float64{0, math.Copysign(0, -1), 1, -1, 0.1, math.Pi, math.Inf(1), math.Inf(-1), math.NaN(), math.Float64frombits(0xfff8000000000001), math.MaxFloat64, math.SmallestNonzeroFloat64} {
		ks = append(ks, f, float32(f))
	}
	for _, s := range []string{"", "a", "b", "ab", "abcdefgh", "abcdefghi", "0123456789abcdef", "0123456789abcdef0", "é"} {
		ks = append(ks, s, []byte(s))
	}
	return ks
}

func c05Typed() engine.Scenario {
	ks := typedKeys()
	return engine.Scenario{
		Name: "tuple-typed-keys", ShardDepth: 1,
		Bound: fmt.Sprintf("every ordered pair of %d typed keys through every update method: each family retains exactly what the theta sketch retains for the same calls, with the right folds, also with another seed and with p=0.5", len(ks)),
		Run: func(c *C) {
			a, b := ks[c.Choose(len(ks), "a")], ks[c.Choose(len(ks), "b")]
			cfg := c.Choose(2, "cfg")
			seed, p := uint64(defaultSeed), float32(1)
			if cfg == 1 {
				seed, p = 4242, 0.5
			}
			c.Logf("%T(%v) %T(%v)", a, a, b, b)
			for _, f := range []tfam{famPtr, famVal, famF64, famF32, famI64} {
				th := newTheta(c, 5, 3, p, seed)
				u := f.newUpd(c, 5, 3, p, seed)
				m := &tupleModel{f, map[uint64]tsum{}}
				for i, k := range []any{a, b, a} {
					// the hash of this key, learned from a fresh theta sketch
					one := newTheta(c, 5, 3, 1, seed)
					e0 := typedTheta(one, k)
					e1 := typedTheta(th, k)
					e2 := u.typed(k, i+3)
					c.Steps(2)
					for h := range one.All() {
						m.add(h, i+3)
					}
					empty := e0 != nil
					dupOrScreened := errors.Is(e1, theta.ErrDuplicateKey)
					c.Assert((e2 != nil) == (e1 != nil && !dupOrScreened), "upd-status", "%s: update of %T(%v): tuple says %v, theta says %v (empty=%v)", f.nm(), k, k, e2, e1, empty)
				}
				v := u.view(c, "typed")
				m.check(c, v, observe(c, th, "theta"), "typed")
				sh, _ := th.SeedHash()
				c.Assert(u.seedHash() == sh && u.compact(c, true).seedHash() == sh, "seedhash", "%s: seed hash differs from theta's", f.nm())
				c.State(v.fp())
			}
		},
	}
}

// c05FromTheta: a tuple sketch made from a theta sketch and one summary.
func c05FromTheta() engine.Scenario {
	return engine.Scenario{
		Name:  "tuple-from-theta",
		Bound: fmt.Sprintf("every one of %d theta contents x %d forms x ordered/unordered turned into a tuple sketch with one summary: same keys, each key its own copy of the summary, the caller's summary unaffected", len(thetaSpecs), nThetaForms),
		Run: func(c *C) {
			sp := thetaSpecs[c.Choose(len(thetaSpecs), "content")]
			form := c.Choose(nThetaForms, "form")
			ord := c.Choose(2, "ordered") == 0
			s := thetaForm(c, sp.build(c, defaultSeed), form, defaultSeed)
			want := observe(c, s, "theta")
			sum := &logSum{41}
			cs, err := tuple.NewCompactSketchFromThetaSketch[*logSum](s, sum, ord)
			c.NoErr(err, "from-theta")
			c.Step()
			o := genSk[*logSum]{famPtr, cs}
			v := o.view(c, "from theta")
			c.Assert(v.tref.eq(want), "keys", "tuple from theta differs: %v vs %v", v.tref, want)
			for _, x := range v.s {
				c.Assert(x == tsum{41}, "summary", "summary %v, want 41", x)
			}
			c.Assert(!ord || o.ordered(), "compact-order", "not ordered")
			c.Assert(o.seedHash() == seedHash16(defaultSeed), "seedhash", "seed hash")
			unshared(c, o, v, "tuple from theta")
			c.Assert(sum.acc == 41, "aliased-summary", "the caller's summary changed with the sketch's")
			c.State(v.fp())
		},
	}
}

// c05Strings: the array-of-strings summaries keep the last value given for a key, and own it.
func c05Strings() engine.Scenario {
	vals := [][]string{{}, {"a"}, {"a", "b"}, {"", "x"}, {"longer string value"}}
	return engine.Scenario{
		Name: "tuple-strings", ShardDepth: 2,
		Bound: fmt.Sprintf("every sequence of 4 updates from 3 keys x %d string lists on both array-of-strings summaries: each key keeps the last list given; reusing the caller's slice afterwards does not change the pointer summary", len(vals)),
		Run: func(c *C) {
			u, err := tuple.NewUpdateSketch[*tuple.ArrayOfStringsSummary, []string](tuple.NewArrayOfStringsSummaryFunc, tuple.WithUpdateSketchLgK(5))
			c.NoErr(err, "new")
			w, err := tuple.NewUpdateSketchWithSummaryUpdateFunc[tuple.ArrayOfStringsInlineSummary, []string](tuple.NewArrayOfStringsInlineSummary, tuple.ArrayOfStringsInlineSummaryUpdateFunc, tuple.WithUpdateSketchLgK(5))
			c.NoErr(err, "new")
			want := map[uint64][]string{}
			for d := 0; d < 4; d++ {
				k := int64(c.Choose(3, "key"))
				v := vals[c.Choose(len(vals), "value")]
				buf := append([]string{}, v...)
				c.NoErr(u.UpdateInt64(k, buf), "upd")
				c.NoErr(w.UpdateInt64(k, append([]string{}, v...)), "upd")
				for i := range buf {
					buf[i] = "reused"
				}
				want[thetaHash(k, defaultSeed)] = v
				c.Steps(2)
			}
			check := func(h uint64, got []byte, n *int) {
				*n++
				v, ok := want[h]
				if !ok || string(got) != string(encStrings(v)) {
					c.Fail("summary", "strings of key %x: encoded %q, want %q", h, got, encStrings(v))
				}
			}
			var a, b int
			for h, s := range u.All() {
				var buf bytes.Buffer
				c.NoErr(tuple.ArrayOfStringsSummaryWriter(&buf, s), "write")
				check(h, buf.Bytes(), &a)
			}
			for h, s := range w.All() {
				var buf bytes.Buffer
				c.NoErr(tuple.ArrayOfStringsInlineSummaryWriter(&buf, s), "write")
				check(h, buf.Bytes(), &b)
			}
			c.Assert(a == len(want) && b == len(want), "keys", "%d/%d keys, want %d", a, b, len(want))
			c.State(mix(uint64(a), engine.HAny(want)))
		},
	}
}

func encStrings(v []string) []byte {
	var b bytes.Buffer
	n := 5
	for _, s := range v {
		n += 4 + len(s)
	}
	_ = binary.Write(&b, binary.LittleEndian, uint32(n))
	b.WriteByte(byte(len(v)))
	for _, s := range v {
		_ = binary.Write(&b, binary.LittleEndian, uint32(len(s)))
		b.WriteString(s)
	}
	return b.Bytes()
}

func init() {
	engine.Register(engine.Property{ID: "C05", Assumptions: []string{
		"summaries follow the documented contract (Clone is deep, Update is deterministic)",
		"the inline string summary documents that it keeps the caller's slice; that reuse is not counted as a violation"},
		Scenarios: func(tier string) []engine.Scenario {
			if tier == "thorough" {
				return []engine.Scenario{c05Typed(), c05FromTheta(), c05Strings(), c05Ops(3, []int{0, 1, 2, 3}, append(tFams, famPtrFn, famF32)), c05Long([]int{5, 6, 7, 8, 9}, 8), c05Large([]int{10, 12, 14, 16, 17}), c05Ops(4, []int{0, 1, 3}, tFams)}
			}
			return []engine.Scenario{c05Typed(), c05FromTheta(), c05Strings(), c05Ops(2, []int{0, 1, 2, 3}, tFams), c05Long([]int{5, 6, 7}, 6), c05Large([]int{10, 12, 14}), c05Ops(3, []int{3}, []tfam{famPtr, famF64})}
		}})
}
