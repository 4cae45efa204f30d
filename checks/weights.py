"""Weights: the recurrences of encoding, over a finite domain of representative weights."""
from itertools import permutations, product
from vfw import num
from vfw.build import AnalysisError
from vfw.scev import Poly, Cant, FP
from numeric import Encoder, M2, Q, Undecided, Bad, enumerate_loops, live, sites, setup_enc, setup_dec, dec_values, NAN, INF


class Fold(M2):
    """variables of loops are evaluated by their recurrence: the start and the step that the analysis found"""

    def __init__(self, fn, seed):
        M2.__init__(self, fn, seed)
        self.nest = 0
        self.cells = 0

    def fold(self, i, n):
        S = self.fn.S
        h = self.fn.f.inst[i].bb
        s, nx = S.starts.get(i), S.nexts.get(i)
        if s is None or nx is None:
            raise Undecided('a variable of a loop has no known step')
        fl = self.fn.f.inst[i].t in FP
        me = ('fphi', i) if fl else ('phi', i)
        ev = self.fp if fl else self.poly
        k = ('k', h)
        old, oldk = self.over.get(me), self.over.get(k)
        self.nest += 1
        if self.nest > 12:
            raise Undecided('recurrences are nested too deeply')
        try:
            v = ev(s)
            for j in range(n):
                self.over[k], self.over[me] = Q(j), v
                v = ev(nx)
            return v
        finally:
            self.nest -= 1
            for x, o in ((me, old), (k, oldk)):
                if o is None:
                    self.over.pop(x, None)
                else:
                    self.over[x] = o

    def variable(self, t):
        h = self.fn.f.inst[t[1]].bb
        if len(t) == 3:
            T = self.fn.S.trip(h)
            if T is None:
                raise Undecided('the number of iterations of a loop is not known')
            n = self.poly(T[0])
        else:
            n = self.over.get(('k', h))
            if n is None:
                raise Undecided('a variable outside of its loop')
        if n.denominator != 1 or n > 500:
            raise Undecided('the number of iterations of a loop')
        key = (t, n, tuple(sorted((x, v) for x, v in self.over.items() if x[0] in ('k', 'bk') and x[1] != h)), tuple(sorted((x, repr(v)) for x, v in self.over.items() if x[0] in ('fphi', 'phi'))))
        if key not in self.memo:
            self.memo[key] = self.fold(t[1], max(0, int(n)))
        return self.memo[key]

    def fp(self, t):
        if t in self.over:
            return self.over[t]
        if t[0] == 'fphi':
            return self.variable(t)
        return M2.fp(self, t)

    def atom_(self, a):
        if a[0] == 'phi':
            return self.variable(a)
        return M2.atom_(self, a)


def model(e, fn, d, w):
    """model of encoding a block with weights w[row][channel][polarization]"""
    np, nc, nr, q = d
    keep = e.model

    def mk(fn, seed, np, nc):
        m = Fold(fn, seed)
        m.set(Poly.atom(('arg', 0)) + Poly.const(e.dims[1]), np)
        m.set(Poly.atom(('arg', 0)) + Poly.const(e.dims[2]), nc)
        m.set(Poly.atom(('arg', 0)) + Poly.const(e.dims[3]), q)
        m.rowbytes = {'d': 16 * np * nc, 'f': 8 * np * nc, 'w': 4 * np * nc}
        return m
    e.model = mk
    try:
        m, bases, width, n = setup_enc(e, fn, 'weights', (np, nc, nr, 2))
    finally:
        e.model = keep
    for r in range(nr):
        for c in range(nc):
            for p in range(np):
                m.mem[bases[r] + 4 * (c * np + p)] = w[r][c][p]
    return m


def encoded(e, fn, d, w):
    """(recorded scale, symbols)"""
    np, nc, nr, q = d
    m = model(e, fn, d, w)
    meta, sym = [], {}
    for s in sites(fn, 2):
        if isinstance(s.val, Poly):
            continue

        def one(s=s):
            if live(fn, m, s):
                if m.poly(s.addr) != m.atom(('arg', 2)):
                    raise Bad(s, 'the scale is not recorded at the start of the metadata')
                meta.append(m.fp(s.val))
        enumerate_loops(m, fn.S, s.loops, one)
    for s in sites(fn, 3):
        def one(s=s):
            if not live(fn, m, s):
                return
            k = (m.poly(s.addr) - m.atom(('arg', 3))) / 4
            try:
                v = m.any(s.val)
            except Cant as x:
                if 'conversion' in str(x):
                    raise Bad(s, 'a non-finite number is converted to a symbol')
                raise
            sym[k] = (v, s)
        enumerate_loops(m, fn.S, s.loops, one)
    if len(meta) != 1:
        raise Undecided('the scale is recorded %d times' % len(meta))
    return meta[0], sym


def weight(c):
    """values that the weight of a channel may have: the smallest over polarizations; not finite and negative count as zero"""
    fin = [x for x in c if x == x]
    out = set()
    if len(fin) < len(c):
        out.add(0.0)
    if fin:
        v = min(fin)
        out.add(0.0 if v < 0 or abs(v) == INF else v)
    else:
        out.add(0.0)
    return out


def check(r, e, fn, d, w, what):
    np, nc, nr, q = d
    M, sym = encoded(e, fn, d, w)
    r.count('blocks', 1)
    cells = [weight(w[i][j]) for i in range(nr) for j in range(nc)]
    if not (abs(M) < INF and M == M):
        raise Bad(None, 'the recorded scale is not finite (%s)' % what)
    need = max(min(c) for c in cells)
    top = max([x for i in w for j in i for x in j if x == x and abs(x) < INF] + [1.0])
    if M < need * (1 - 1e-6):
        raise Bad(None, 'the recorded scale is smaller than a weight of the block (%s)' % what)
    if need > 0 and M > max(max(c) for c in cells if c) * (1 + 1e-6) and M > top:
        raise Bad(None, 'the recorded scale is larger than all weights of the block (%s)' % what)
    if M <= 0:
        raise Bad(None, 'the recorded scale is not positive (%s)' % what)
    if need > 0 and not any(abs(M - x) <= 1e-6 * M for i in w for j in i for x in j):
        raise Bad(None, 'the recorded scale is not a weight of the block (%s)' % what)
    for k, c in enumerate(cells):
        if k not in sym:
            raise Bad(None, 'a weight is not stored (%s)' % what)
        v, s = sym[k]
        r.count('weights', 1)
        if not 0 <= v <= q - 1:
            raise Bad(s, 'the symbol of a weight is out of range (%s: %s of %d)' % (what, v, q))
        if not any(abs(v - x * (q - 1) / M) <= 0.5 + 1e-6 for x in c):
            raise Bad(s, 'a weight is not stored as the smallest over polarizations (%s: %s of %d)' % (what, v, q))


def decode(r, e, d, q):
    np, nc, nr, na = d
    for row in range(nr):
        for M in (1.0, 0.25, 1234.5):
            m, n = setup_dec(e, 'weights', d, row, (0, 1), {0: M}, q)
            sym = m.atom(('arg', 2))
            S = {}
            for k in range(nc * nr):
                S[k] = m.mem[sym + 4 * k] = (0, q - 1, 1, q // 2, q - 2)[(k + row) % 5]
            got = {}
            for s, k, syms, used, v, dq in dec_values(e, m, n):
                got[k] = (s, v)
            if not got:
                raise Undecided('no decoded weight is found')
            for c in range(nc):
                for p in range(np):
                    if c * np + p not in got:
                        raise Bad(None, 'a weight is not decoded')
                    s, v = got[c * np + p]
                    x = S[row * nc + c] * M / (q - 1)
                    r.count('decoded', 1)
                    if not abs(v - x) <= 1e-6 * max(abs(x), 1e-9):
                        raise Bad(s, 'a weight is not decoded with the recorded scale (symbol %d of %d, scale %g: %g instead of %g)' % (S[row * nc + c], q, M, v, x))


def p22(r):
    e = Encoder(num.encoders(), 'WeightBlockEncoder')
    r.require(3 in e.dims and len(e.enc) >= 1, 'the weight encoder was not found')
    fn = e.enc[0]

    def block(np, nc, nr, special=None):
        w = [[[1.0 + 0.5 * i + 0.25 * c + 0.125 * ((p * 3 + i) % 4) for p in range(np)] for c in range(nc)] for i in range(nr)]
        if special is not None:
            i, c, l = special
            w[i][c] = list(l)
        return w

    def many(np, nc, nr, qs, dom, what):
        for q in qs:
            for l in dom:
                for i, c in {(0, 0), (nr - 1, nc - 1), (nr - 1, 0)}:
                    check(r, e, fn, (np, nc, nr, q), block(np, nc, nr, (i, c, l)), '%s %s at row %d, channel %d' % (what, list(l), i, c))
    steps = [
        ('order of the polarizations', lambda: [many(4, 2, 2, (16,), list(permutations((0.5, 0.75, 4.0, 8.0))) + list(permutations((3.5, 3.75, 4.0, 8.0))), 'weights'), many(2, 2, 3, (4, 256), list(permutations((0.5, 8.0))), 'weights'), many(1, 3, 2, (4, 4096), [(0.0,), (0.3,), (1.0,), (9.0,)], 'weight')]),
        ('weights that can not be represented', lambda: [many(1, 2, 2, (16,), [(x,) for x in (0.0, -0.0, -1.0, -INF, INF, NAN)], 'weight'), many(2, 2, 2, (16,), list(product((0.0, -1.0, -INF, INF, NAN, 2.0), repeat=2)), 'weights'), many(4, 1, 2, (256,), [x for x in product((-1.0, INF, NAN, 2.0), repeat=4)], 'weights')]),
        ('blocks without ordinary weights', lambda: [check(r, e, fn, (np, 2, 2, 16), [[[x] * np] * 2] * 2, 'only %s' % x) for np in (1, 4) for x in (0.0, -1.0, -INF, INF, NAN)]),
        ('scales', lambda: [check(r, e, fn, (2, 2, 2, q), [[[x * y for x in j] for j in i] for i in block(2, 2, 2)], 'scale %g' % y) for y in (1e-30, 1e-3, 1e3, 1e30) for q in (4, 65536)]),
        ('decoding', lambda: [decode(r, e, (np, nc, nr, 2), q) for np, nc, nr in ((1, 1, 1), (4, 3, 2), (2, 5, 3)) for q in (4, 16, 4096)]),
    ]
    for name, f in steps:
        try:
            f()
            r.ok(name)
        except Bad as x:
            r.bad('WeightBlockEncoder: %s' % x.args[0].split(' (')[0], '%s %s' % (x.s.where if x.s else '', x))
        except (Undecided, Cant) as x:
            r.undecided(name, '%s' % x)
