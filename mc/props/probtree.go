package props

import (
	"fmt"
	"math"
	"reflect"
	"strconv"
)

// probTree computes the exact distribution of an execution's outcome over the library's random
// draws.  Draws from a small range are enumerated; the unit interval (or a large range) is cut,
// by bisection to adjacent values, into the pieces on which the rest of the execution is the same.
type probTree struct {
	c       *C
	runs    int
	maxRuns int
	draws   []probDraw
	path    []uint64
	giveUp  bool
	// conts are the ways in which draws after the one being cut are filled in while looking for its
	// cuts: fractions of the range, taken cyclically.  A body that makes several draws on which its
	// outcome depends one after the other needs several of them, because one continuation may hide
	// the effect of an earlier draw.
	conts [][]float64
	// snap, if set, describes the state of the object under test; it is taken when the draw after the
	// one being cut is made, so that effects hidden by later draws still count as differences.
	snap    func() string
	snapped string
}

var manyConts = [][]float64{{0.5}, {0.02}, {0.98}, {0.02, 0.98}, {0.98, 0.02}, {0.5, 0.02, 0.98}, {0.3, 0.7, 0.9, 0.1}, {0.75, 0.25}, {1e-6}, {1 - 1e-6}}

type probDraw struct {
	kind string
	n    uint64
}

type probOutcome struct {
	sig  string
	p    float64
	path []uint64
}

const (
	floatDomain = uint64(1) << 53
	floatGrain  = uint64(1) << 18 // cuts of the unit interval are located to within 2^-35
	narrowRange = 24
)

func (d probDraw) domain() uint64 {
	switch d.kind {
	case "float":
		return floatDomain
	case "int":
		return d.n
	}
	return 1 << 62 // raw bits, top of the word
}

func (d probDraw) raw(v uint64) uint64 {
	switch d.kind {
	case "float":
		return v << 11
	case "int":
		return v
	}
	return v << 2
}

// one runs body with the given draws; further draws take the middle of their range.
func (t *probTree) one(path []uint64, body func() string) (string, []probDraw) {
	return t.oneC(path, body, nil)
}

func (t *probTree) oneC(path []uint64, body func() string, cont []float64) (string, []probDraw) {
	t.draws = t.draws[:0]
	t.runs++
	t.c.RandCustom(func(kind string, n uint64) (uint64, bool) {
		d := probDraw{kind, n}
		v := d.domain() / 2
		if i := len(t.draws); i == len(path) && t.snap != nil {
			t.snapped = t.snap()
		}
		if i := len(t.draws); i < len(path) {
			v = path[i]
		} else if cont != nil {
			v = uint64(cont[(i-len(path))%len(cont)] * float64(d.domain()))
		}
		t.draws = append(t.draws, d)
		return d.raw(v), true
	})
	s := body()
	return s, append([]probDraw{}, t.draws...)
}

func sigOf(s string, ds []probDraw) string {
	for _, d := range ds {
		s += fmt.Sprintf("|%s%d", d.kind, d.n)
	}
	return s
}

// dist calls emit for every distinguishable vector of draws after the given ones.
func (t *probTree) dist(prefix []uint64, p float64, body func() string, emit func(o probOutcome)) {
	if t.maxRuns > 0 && t.runs > t.maxRuns {
		t.giveUp = true
		return
	}
	s, ds := t.one(prefix, body)
	if len(ds) < len(prefix) {
		panic("engine: probTree: fewer draws than before")
	}
	if len(ds) == len(prefix) {
		emit(probOutcome{s, p, append([]uint64{}, prefix...)})
		return
	}
	d := ds[len(prefix)]
	n := d.domain()
	ext := func(v uint64) []uint64 { return append(append([]uint64{}, prefix...), v) }
	if d.kind == "int" && n <= narrowRange {
		for v := uint64(0); v < n; v++ {
			t.dist(ext(v), p/float64(n), body, emit)
		}
		return
	}
	at := func(v uint64) string {
		t.snapped = ""
		if t.conts == nil {
			return sigOf(t.one(ext(v), body)) + t.snapped
		}
		r := ""
		for _, ct := range t.conts {
			x, ds := t.oneC(ext(v), body, ct)
			r += sigOf(x, ds) + "/"
			if len(ds) == len(prefix)+1 {
				break
			}
		}
		return r + t.snapped
	}
	// cut [0,n) into pieces of constant behaviour
	type piece struct {
		lo, hi uint64 // [lo,hi)
		sig    string
	}
	var pieces []piece
	add := func(lo, hi uint64, sig string) {
		if k := len(pieces); k > 0 && pieces[k-1].sig == sig {
			pieces[k-1].hi = hi
			return
		}
		pieces = append(pieces, piece{lo, hi, sig})
	}
	grain := uint64(1)
	if d.kind == "float" {
		grain = floatGrain
	}
	var split func(lo, hi uint64, a, b string)
	split = func(lo, hi uint64, a, b string) { // a and b are the signatures at lo and hi
		if a == b || hi-lo <= grain {
			add(lo, hi, a)
			return
		}
		m := lo + (hi-lo)/2
		x := at(m)
		split(lo, m, a, x)
		split(m, hi, x, b)
	}
	const grid = 8
	var pts []uint64
	for i := uint64(0); i <= grid; i++ {
		v := n / grid * i
		if i == grid {
			v = n - 1
		}
		if len(pts) == 0 || v > pts[len(pts)-1] {
			pts = append(pts, v)
		}
	}
	prev := at(pts[0])
	for i := 1; i < len(pts); i++ {
		x := at(pts[i])
		split(pts[i-1], pts[i], prev, x)
		prev = x
	}
	add(n-1, n, prev)
	for _, q := range pieces {
		t.dist(ext(q.lo+(q.hi-q.lo)/2), p*(float64(q.hi-q.lo)/float64(n)), body, emit)
	}
}

// merge adds the outcomes with equal signatures.
type probStates struct {
	order []string
	by    map[string]*probOutcome
}

func newProbStates() *probStates { return &probStates{by: map[string]*probOutcome{}} }

func (m *probStates) add(o probOutcome) {
	if e := m.by[o.sig]; e != nil {
		e.p += o.p
		return
	}
	m.order = append(m.order, o.sig)
	m.by[o.sig] = &probOutcome{o.sig, o.p, o.path}
}

func (m *probStates) all() []*probOutcome {
	var a []*probOutcome
	for _, s := range m.order {
		a = append(a, m.by[s])
	}
	return a
}

// deepSig writes out everything reachable from v, private fields included, whatever their names.
func deepSig(v any) string {
	var b []byte
	var walk func(x reflect.Value, depth int)
	walk = func(x reflect.Value, depth int) {
		if depth > 8 {
			return
		}
		switch x.Kind() {
		case reflect.Pointer, reflect.Interface:
			if !x.IsNil() {
				walk(x.Elem(), depth+1)
			}
		case reflect.Struct:
			for i := 0; i < x.NumField(); i++ {
				walk(x.Field(i), depth+1)
			}
		case reflect.Slice, reflect.Array:
			for i := 0; i < x.Len(); i++ {
				walk(x.Index(i), depth+1)
			}
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			b = strconv.AppendInt(b, x.Int(), 36)
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			b = strconv.AppendUint(b, x.Uint(), 36)
		case reflect.Float32, reflect.Float64:
			b = strconv.AppendUint(b, math.Float64bits(x.Float()), 36)
		case reflect.Bool:
			b = strconv.AppendBool(b, x.Bool())
		case reflect.String:
			b = append(b, x.String()...)
		}
		b = append(b, ',')
	}
	walk(reflect.ValueOf(v), 0)
	return string(b)
}
