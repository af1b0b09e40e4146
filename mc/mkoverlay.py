#!/usr/bin/env python3
"""Generates an overlay of the standard library's math/rand and math/rand/v2 in which the
top-level (globally seeded) functions ask a hook first.  The library's only sources of
nondeterminism are those functions, so the harness owns every random choice.
usage: mkoverlay.py GOROOT OUTDIR"""
import json, re, sys, os
goroot, out = sys.argv[1], sys.argv[2]
os.makedirs(out, exist_ok=True)

def patch(src, table):
    for name, (sig, body) in table.items():
        pat = re.compile(r'^func %s[\[(].*$' % re.escape(name), re.M)
        m = pat.search(src)
        if not m:
            sys.exit("mkoverlay: no func %s" % name)
        line = m.group(0)
        if line.rstrip().endswith('}'):           # one-line body
            head, tail = line.split('{', 1)
            inner = tail.rsplit('}', 1)[0]
            new = head + '{\n' + body + '\n\t' + inner.strip() + '\n}'
        else:
            new = line + '\n' + body
        src = src[:m.start()] + new + src[m.end():]
    return src

V = 'VerifHook'
def h(kind, n, conv):
    return '\tif VerifHook != nil {\n\t\tif v, ok := VerifHook("%s", uint64(%s)); ok {\n\t\t\treturn %s\n\t\t}\n\t}' % (kind, n, conv)
F = 'float64frombits(v)'
common = {
 'Float64': ('', h('float', '0', 'VerifF(v)')),
 'Float32': ('', h('float', '0', 'float32(VerifF(v))')),
}
v1 = dict(common, **{
 'Int63':  ('', h('raw', '63', 'int64(v >> 1)')),
 'Uint32': ('', h('raw', '32', 'uint32(v >> 32)')),
 'Uint64': ('', h('raw', '64', 'v')),
 'Int31':  ('', h('raw', '31', 'int32(v >> 33)')),
 'Int':    ('', h('raw', '63', 'int(v >> 1)')),
 'Int63n': ('', h('int', 'n', 'int64(v)')),
 'Int31n': ('', h('int', 'n', 'int32(v)')),
 'Intn':   ('', h('int', 'n', 'int(v)')),
 'Perm':   ('', h('perm', 'n', 'VerifPerm(int(v))')),
 'Shuffle': ('', '\tif VerifHook != nil {\n\t\tif _, ok := VerifHook("shuffle", uint64(n)); ok {\n\t\t\tfor i := n - 1; i > 0; i-- {\n\t\t\t\tj := Intn(i + 1)\n\t\t\t\tswap(i, j)\n\t\t\t}\n\t\t\treturn\n\t\t}\n\t}'),
})
v2 = dict(common, **{
 'Int64':  ('', h('raw', '63', 'int64(v >> 1)')),
 'Uint32': ('', h('raw', '32', 'uint32(v >> 32)')),
 'Uint64': ('', h('raw', '64', 'v')),
 'Int32':  ('', h('raw', '31', 'int32(v >> 33)')),
 'Int':    ('', h('raw', '63', 'int(v >> 1)')),
 'Uint':   ('', h('raw', '64', 'uint(v)')),
 'Uint64N': ('', h('int', 'n', 'v')),
 'Uint32N': ('', h('int', 'n', 'uint32(v)')),
 'Int64N': ('', h('int', 'n', 'int64(v)')),
 'Int32N': ('', h('int', 'n', 'int32(v)')),
 'IntN':   ('', h('int', 'n', 'int(v)')),
 'UintN':  ('', h('int', 'n', 'uint(v)')),
 'N':      ('', h('int', 'n', 'Int(v)')),
 'Perm':   ('', h('perm', 'n', 'VerifPerm(int(v))')),
 'Shuffle': ('', '\tif VerifHook != nil {\n\t\tif _, ok := VerifHook("shuffle", uint64(n)); ok {\n\t\t\tfor i := n - 1; i > 0; i-- {\n\t\t\t\tj := IntN(i + 1)\n\t\t\t\tswap(i, j)\n\t\t\t}\n\t\t\treturn\n\t\t}\n\t}'),
})
EXTRA = '''
// VerifHook, when set, decides the result of every top-level random call (verification overlay).
var VerifHook func(kind string, n uint64) (uint64, bool)

// VerifF maps a 53-bit choice to [0,1).
func VerifF(v uint64) float64 { return float64(v>>11) / (1 << 53) }

func VerifPerm(n int) []int {
	p := make([]int, n)
	for i := range p {
		j := %s(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}
'''
rep = {}
for rel, table, intn in (('math/rand/rand.go', v1, 'Intn'), ('math/rand/v2/rand.go', v2, 'IntN')):
    p = os.path.join(goroot, 'src', rel)
    s = patch(open(p).read(), table) + EXTRA % intn
    o = os.path.join(out, rel.replace('/', '_'))
    open(o, 'w').write(s)
    rep[p] = o
json.dump({"Replace": rep}, open(os.path.join(out, 'overlay.json'), 'w'), indent=1)
