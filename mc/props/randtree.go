package props

// randTree enumerates every outcome of the library's random calls within one execution: the
// driver is run again and again, each time with the next outcome vector; prob is the exact
// probability of the current vector (the outcomes of one call are equally likely).
type randTree struct {
	path, width []uint64
	pos         int
	prob        float64
	runs        int
	tooWide     bool
	maxWidth    uint64
}

func (t *randTree) hook(kind string, n uint64) (uint64, bool) {
	w := n
	if kind != "int" {
		w = 2
	}
	if w == 1 {
		return 0, true
	}
	mw := t.maxWidth
	if mw == 0 {
		mw = 64
	}
	if w > mw {
		t.tooWide = true
		return 0, true
	}
	if t.pos == len(t.path) {
		t.path = append(t.path, 0)
		t.width = append(t.width, w)
	}
	v := t.path[t.pos]
	t.pos++
	t.prob /= float64(w)
	switch kind {
	case "int":
		return v, true
	case "float":
		return []uint64{1 << 62, 3 << 62}[v], true
	default:
		return []uint64{0, ^uint64(0)}[v], true
	}
}

func (t *randTree) start(c *C) {
	t.pos = 0
	t.prob = 1
	t.runs++
	c.RandCustom(t.hook)
}

// next advances to the next outcome vector.
func (t *randTree) next() bool {
	t.path = t.path[:t.pos]
	t.width = t.width[:t.pos]
	for i := t.pos - 1; i >= 0; i-- {
		if t.path[i]+1 < t.width[i] {
			t.path[i]++
			t.path = t.path[:i+1]
			t.width = t.width[:i+1]
			return true
		}
	}
	return false
}

// forAll runs body under every outcome vector; body gets the probability when it is done.
func (t *randTree) forAll(c *C, body func() func(p float64)) {
	for {
		t.start(c)
		fin := body()
		fin(t.prob)
		if !t.next() {
			return
		}
	}
}

// streamVal is item i of an n-item stream of a given shape.
const nShapes = 7

func streamVal(shape, i, n int) int64 {
	switch shape {
	case 0:
		return int64(i)
	case 1:
		return int64(n - 1 - i)
	case 2: // a fixed permutation
		s := n*5/8 | 1
		for gcd(s, n) != 1 {
			s += 2
		}
		return int64(i * s % n)
	case 3:
		return 5
	case 4:
		return int64(i % 3)
	case 5: // ends first, alternating
		if i%2 == 0 {
			return int64(i / 2)
		}
		return int64(n - 1 - i/2)
	default: // middle first, outwards
		if i%2 == 0 {
			return int64(n/2 + i/2)
		}
		return int64(n/2 - 1 - i/2)
	}
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}
