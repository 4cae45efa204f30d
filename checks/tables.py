"""The quantization tables: how they are filled, and how they are searched."""
import math
import os
import statistics
from vfw import num, search
from vfw.build import AnalysisError
from vfw.scev import Poly, Cant
from numeric import Fn, M2, Q, Undecided, Bad, TableModel, enumerate_loops, live, returned, tables_of, FMAX, NAN, INF

FLOAT = 4
SE = 'StochasticEncoder<float>'


def sizes():
    bits = (2, 3, 4, 6, 8) if os.environ.get('VERIF_TIER') != 'thorough' else (2, 3, 4, 6, 8, 10, 12, 16)
    return [(1 << b) - 1 for b in bits]


# cumulative distributions and their inverse: any pair that is symmetric serves, the rule is about order and symmetry
def _logit():
    return (lambda x: 1.0 / (1.0 + math.exp(-x)), lambda p: math.log(p / (1 - p)))


def _normal():
    d = statistics.NormalDist()
    return (d.cdf, d.inv_cdf)


def _cauchy():
    return (lambda x: 0.5 + math.atan(x) / math.pi, lambda p: math.tan(math.pi * (p - 0.5)))


DISTS = {'logistic': _logit(), 'normal': _normal(), 'cauchy': _cauchy()}


class FillModel(M2):
    def __init__(self, fn, n, dist, offs, variant):
        M2.__init__(self, fn, 'fill')
        self.n = n
        self.cdf, self.inv = DISTS[dist]
        self.over[('arg', 0)] = Q(1 << 40)
        self.offs = offs
        self.base = {}
        for k, o in enumerate(offs):
            b = Q((k + 2) << 44)
            self.base[o] = b
            self.mem[Q(1 << 40) + o] = b
            self.mem[Q(1 << 40) + o + 8] = b + FLOAT * n
        for a in fn.f.args[1:]:
            if a['t'] in ('i64', 'i32'):
                self.over[('arg', fn.f.args.index(a))] = Q(n + 1)
            elif a['t'] == 'i1':
                self.over[('arg', fn.f.args.index(a))] = Q(variant)

    def call(self, t):
        name = t[1].split('::')[-1]
        args = [self.any(x) for x in t[2]]
        if name.startswith(('sqrt', 'pow', 'exp', 'fabs')):
            if name.startswith('sqrt'):
                return math.sqrt(args[0])
            return M2.call(self, t)
        kind = None
        for s in ('inv', 'pinv', 'qinv', 'quantile'):
            if name.lower().endswith(s) or name.lower().startswith('inv'):
                kind = 'inv'
        if name.lower().endswith('qinv'):
            kind = 'qinv'
        if kind:
            p = float(args[0])
            if not 0 < p < 1:
                raise Bad(None, 'a quantity is the quantile of probability %g' % p)
            if kind == 'qinv':
                p = 1 - p
            v = self.inv(p)
            if len(args) > 1 and 'gauss' in name.lower():
                v *= float(args[1])
            elif len(args) > 1 and 'tdist' in name.lower():
                v *= 1 + 1 / float(args[1])
            return v
        if name.lower().endswith(('_p', '_q', 'cumulative', 'cdf')):
            x = float(args[0])
            if len(args) > 1:
                x /= float(args[1])
            return self.cdf(-x if name.lower().endswith('_q') else x)
        raise Undecided('an unknown function: %s' % t[1])


def makers(mod):
    """functions that make a complete table"""
    out = []
    for f in mod.functions:
        if SE not in f.dem or not f.args or not (f.args[0].get('sret') or f.dem.split('(')[0].endswith('::StochasticEncoder')):
            continue
        sized = [a for a in f.args if a['t'] in ('i64', 'i32')]
        fl = [a for a in f.args if a['t'] in ('float', 'double')]
        if len(sized) == 1 and fl:
            out.append(f)
    return out


def p18(r):
    mod = num.stochastic()
    enc, dec = tables_of(mod)
    fs = makers(mod)
    r.require(len(fs) >= 3, 'functions that make tables were not found')
    for f in fs:
        key = f.qn.replace('root.', '').replace('dyscostman::', '')
        try:
            fn = Fn(f)
            for variant in ((0, 1) if any(a['t'] == 'i1' for a in f.args) else (0,)):
                for n in sizes():
                    for dist in DISTS:
                        fill(r, fn, key, n, dist, (enc, dec), variant)
            pointers(r, fn, key, (enc, dec))
            r.ok('%s: all quantities and boundaries' % key)
        except Bad as x:
            r.bad('%s: %s' % (key, x.args[0].split(' (')[0]), '%s %s' % (x.s.where if x.s else f.dem, x))
        except (Undecided, Cant) as x:
            r.undecided(key, '%s' % x)
    dither(r, mod)
    independent(r)


def order(fn):
    """blocks in reverse postorder"""
    seen, out = set(), []

    def dfs(b):
        st = [(b, iter(fn.f.blocks[b].succ))]
        seen.add(b)
        while st:
            x, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(fn.f.blocks[s].succ)))
                    break
            else:
                out.append(x)
                st.pop()
    dfs(0)
    return {b: k for k, b in enumerate(reversed(out))}


def fill(r, fn, key, n, dist, offs, variant):
    m = FillModel(fn, n, dist, offs, variant)
    # sizes of the vectors
    made = {}
    cap = {}
    for i in fn.f.calls():
        if i.bb not in fn.S.live or i.bb not in fn.f.dominators():
            continue
        name = (i.cdem or '')
        if 'UVector<' not in name or not i.args:
            continue
        a = fn.S.use(i.args[0], i.bb)
        if not isinstance(a, Poly):
            continue
        at = m.poly(a) - Q(1 << 40)
        if at not in offs or len(i.args) < 2:
            continue
        short = name.split('(')[0].split('::')[-1]
        if short in ('UVector', 'resize', 'assign', 'reserve'):
            v = fn.S.use(i.args[1], i.bb)
            if not isinstance(v, Poly):
                raise Undecided('the size of a table')
            v = m.poly(v)
            if short == 'reserve':
                cap[at] = max(cap.get(at, 0), v)
            else:
                made[at] = v
    for o in offs:
        if o not in made:
            raise Undecided('the size of a table is not visible')
        if made[o] != n:
            raise Bad(None, 'the size of a table is not the number of quantities (%d for %d symbols)' % (made[o], n))
        cap[o] = max(cap.get(o, 0), made[o])
    tab = {o: {} for o in offs}
    pos = order(fn)
    ss = sorted([s for s in fn.stores if s.i.get('size') == FLOAT or s.i.get('t') == 'float' or s.val is not None and not isinstance(s.val, Poly)], key=lambda s: (pos[s.bb] if not s.loops else pos[s.loops[0]], pos[s.bb], s.i.pos))
    count = 0
    for s in ss:
        if isinstance(s.val, Poly):
            continue

        def one(s=s):
            if not live(fn, m, s):
                return
            ad = m.poly(s.addr)
            for o in offs:
                k = (ad - m.base[o]) / FLOAT
                if -4 <= k <= 2 * n + 8:
                    break
            else:
                return
            if k.denominator != 1 or not 0 <= k < cap[o]:
                raise Bad(s, 'a table is written beyond its memory (entry %s of %d)' % (k, cap[o]))
            if o == offs[0] and k >= n:
                raise Bad(s, 'a boundary is written beyond the table (entry %s of %d)' % (k, n))
            old = tab[o].get(int(k))
            v = m.fp(s.val)
            if old is not None and old[0] is s and old[1] != v:
                raise Bad(s, 'an entry of a table is written several times')
            tab[o][int(k)] = (s, v)
        enumerate_loops(m, fn.S, s.loops, one, 200000, 100000)
    E, D = tab[offs[0]], tab[offs[1]]
    for what, t, cnt in (('quantity', D, n), ('boundary', E, n)):
        for k in range(cnt):
            if k not in t:
                raise Bad(None, 'a %s is not filled in (entry %d of %d)' % (what, k, cnt))
    r.count('tables', 1)
    r.count('entries', 2 * n + 1)
    for k in range(n):
        v = D[k][1]
        if not abs(v) < INF:
            raise Bad(D[k][0], 'a quantity is not finite (entry %d)' % k)
        if k and not D[k - 1][1] < v:
            raise Bad(D[k][0], 'the quantities do not increase (entry %d of %d)' % (k, n))
        if k and not D[k - 1][1] < E[k - 1][1] < v:
            raise Bad(E[k - 1][0], 'a boundary does not lie between its quantities (entry %d of %d)' % (k - 1, n))
        w = D[n - 1 - k][1]
        if abs(v + w) > 1e-7 * (abs(v) + abs(w) + abs(D[n - 1][1])):
            raise Bad(D[k][0], 'the quantities are not symmetric (entry %d of %d)' % (k, n))
        if k and abs(E[k - 1][1] + E[n - 1 - k][1]) > 1e-7 * (abs(D[n - 1][1]) + abs(E[k - 1][1])):
            raise Bad(E[k - 1][0], 'the boundaries are not symmetric (entry %d of %d)' % (k - 1, n))
    if not E[n - 1][1] >= 3.402823e+38:
        raise Bad(E[n - 1][0], 'the last boundary does not accept every finite value (%r)' % E[n - 1][1])
    if n not in D:
        raise Bad(None, 'the reserved entry for non-finite samples is not filled in')
    if abs(D[n][1]) < INF:
        raise Bad(D[n][0], 'the reserved entry for non-finite samples is finite')


def pointer_loads(fn, o, seen):
    """loads from which a pointer is computed"""
    if not isinstance(o, int) or o in seen or o not in fn.f.inst:
        return
    seen.add(o)
    i = fn.f.inst[o]
    if i.op == 'load':
        yield i
    elif i.op in ('getelementptr', 'bitcast'):
        yield from pointer_loads(fn, i.ops[0], seen)
    elif i.op == 'phi':
        for x in i.raw['in']:
            yield from pointer_loads(fn, x[0], seen)
    elif i.op == 'select':
        for x in i.ops[1:]:
            yield from pointer_loads(fn, x, seen)


def pointers(r, fn, key, offs):
    """no pointer into a table is used after the memory of the table may have moved"""
    for i in fn.f.calls():
        if i.bb not in fn.S.live or 'UVector<' not in (i.cdem or '') or not i.args:
            continue
        short = i.cdem.split('(')[0].split('::')[-1]
        if short not in ('reserve', 'resize', 'assign', 'push_back', 'shrink_to_fit', 'insert'):
            continue
        a = fn.S.use(i.args[0], i.bb)
        if not isinstance(a, Poly):
            continue
        for s in fn.stores:
            if isinstance(s.val, Poly):
                continue
            for l in pointer_loads(fn, s.i.ops[1], set()):
                la = fn.S.use(l.ops[0], l.bb)
                if not isinstance(la, Poly) or not (la - a).is_const() or not 0 <= (la - a).c() <= 16:
                    continue
                before = l.bb == i.bb and l.pos < i.pos or l.bb != i.bb and fn.reaches(l.bb, i.bb)
                after = s.bb == i.bb and s.i.pos > i.pos or s.bb != i.bb and fn.reaches(i.bb, s.bb)
                # a new value is loaded after the call on each way
                again = l.bb == i.bb and l.pos > i.pos or l.bb != i.bb and fn.f.dominates(i, l)
                if before and after and not again:
                    raise Bad(s, 'a table is written through a pointer that was taken before its memory moved')
        r.count('reallocations', 1)


def dither_range(fn, what):
    out = []
    for i in fn.f.calls():
        if i.bb in fn.S.live and 'uniform_int_distribution<unsigned int>::uniform_int_distribution' in (i.cdem or ''):
            a = [fn.S.use(x, i.bb) for x in i.args[1:]]
            if len(a) == 2 and all(isinstance(x, Poly) and x.is_const() for x in a):
                out.append((int(a[0].c()), int(a[1].c()), i))
    return out


def scale_of(mod):
    """the number of random values for which dithering selects the upper of two quantities one apart, divided by the fraction"""
    f = [f for f in mod.functions if SE in f.dem and '::EncodeWithDithering(' in f.dem]
    if len(f) != 1:
        raise Undecided('the dithering function')
    return Fn(f[0])


def dither(r, mod):
    n = 0
    try:
        enc = scale_of(mod)
        for f in mod.functions:
            if SE in f.dem and '::GetDitherDistribution(' in f.dem:
                fn = Fn(f)
                for lo, hi, i in dither_range(fn, f.dem):
                    n += 1
                    S = dither_scale(enc)
                    r.check(lo == 0 and abs((hi + 1) / S - 1) < 1e-5, 'the range of the random number', '%s: the random number lies between %d and %d, but it is compared with a fraction of %g' % (i.where, lo, hi, S))
    except (Undecided, Cant) as x:
        r.undecided('dithering', '%s' % x)
        return
    except Bad as x:
        r.bad('EncodeWithDithering: scale', '%s' % x)
        return
    if not n:
        r.undecided('dithering', 'the range of the random number is not visible')
    # the distribution that the encoders use
    emod = num.encoders()
    for f in emod.functions:
        for cls in ('AFTimeBlockEncoder', 'RFTimeBlockEncoder', 'RowTimeBlockEncoder'):
            if f.dem.replace('dyscostman::', '').startswith('%s::%s(' % (cls, cls)):
                l = dither_range(Fn(f), f.dem)
                for lo, hi, i in l:
                    r.check(lo == 0 and abs((hi + 1) / S - 1) < 1e-5, '%s: the random number' % cls, '%s: the random number of %s lies between %d and %d' % (i.where, cls, lo, hi))
                if not l:
                    r.undecided(cls, 'the range of the random number is not visible')


def vararg(f):
    v = [k for k, a in enumerate(f.args) if a['t'] == 'float']
    d = [k for k, a in enumerate(f.args) if a['t'] == 'i32']
    if len(v) != 1 or len(d) > 1:
        raise Undecided('the arguments of %s' % f.dem)
    return v[0], d[0] if d else None


def symbol(fn, n, x, d=None):
    m = TableModel(fn, n)
    v, k = vararg(fn.f)
    m.over[('farg', v)] = float(x)
    if d is not None:
        if k is None:
            raise Undecided('the random number')
        m.over[('arg', k)] = Q(d)
    t = returned(fn)
    if t is None:
        raise Undecided('the returned symbol')
    return m.poly(t) % (1 << 32)


def dither_scale(fn):
    """the random number below which a value in the middle of two quantities is rounded up, times two"""
    n, x = 7, 2.5
    lo, hi = 0, 1 << 32
    if symbol(fn, n, x, 0) != 3:
        raise Bad(None, 'the smallest random number does not select the upper quantity')
    if symbol(fn, n, x, (1 << 32) - 1) != 2:
        raise Bad(None, 'the largest random number does not select the lower quantity')
    while hi - lo > 1:
        mid = (lo + hi) // 2
        if symbol(fn, n, x, mid) == 3:
            lo = mid
        else:
            hi = mid
    return 2.0 * hi


def independent(r):
    """every component is dithered with its own random number"""
    emod = num.encoders()
    n = 0
    for f in emod.functions:
        if not any(c in f.dem for c in ('AFTimeBlockEncoder', 'RFTimeBlockEncoder', 'RowTimeBlockEncoder')):
            continue
        use = {}
        for i in f.calls():
            if '::EncodeWithDithering' not in (i.cdem or i.cq or '') or len(i.args) < 3 or 'StochasticEncoder<' not in (i.cdem or i.cq or ''):
                continue
            d = i.args[-1]
            src = f.inst.get(d) if isinstance(d, int) else None
            if src is None or src.op not in ('call', 'invoke'):
                r.undecided('%s: random number' % f.qn, 'the random number of %s' % i.where)
                continue
            use.setdefault(src.id, []).append(i)
        if not use:
            continue
        S = Fn(f).S
        for sid, l in use.items():
            src = f.inst[sid]
            n += len(l)
            key = '%s: random number' % f.qn.replace('root.', '')
            r.check(len(l) == 1, key, '%s: the random number of %s is used for several components' % (f.dem, src.where))
            for i in l:
                extra = [h for h in S.loopof[i.bb] if h not in S.loopof[src.bb]]
                r.check(not extra, key + ' of each component', '%s: the random number of %s is drawn once for several components' % (f.dem, src.where))
    r.count('random numbers', n)
    r.require(n >= 2, 'the uses of random numbers were not found')


# -- selection of entries -------------------------------------------------------------------
def p19(r):
    dmod = num.dictionary()
    fs = [f for f in dmod.functions if '::Dictionary::lower_bound' in '::' + f.dem and len(f.args) == 2]
    r.require(fs, 'the search was not found')
    ns = list(range(2, 131)) + [255]
    if os.environ.get('VERIF_TIER') == 'thorough':
        ns = list(range(2, 600)) + [1023, 4095, 65535]
    for f in fs:
        key = f.qn.replace('root.', '').replace('dyscostman::', '')
        S = search.Search(f)
        try:
            for n in ns:
                covered = 0
                for res, lo, hi in S.run(n):
                    covered += hi - lo + 1
                    # entries smaller than the value: all positions give the same number
                    if lo < 2 * res or hi > 2 * res + 1:
                        p = lo if lo < 2 * res else hi
                        where = ('equal to entry %d' % (p // 2)) if p % 2 else 'below all entries' if p == 0 else 'above all entries' if p == 2 * n else 'between entries %d and %d' % (p // 2 - 1, p // 2)
                        raise search.Wrong('a value %s of a table of %d gives entry %d' % (where, n, res))
                if covered != 2 * n + 1:
                    raise search.Unknown('some values are not covered')
            r.ok('%s: first entry that is not smaller' % key)
            r.count('searches', S.traces)
        except search.Wrong as x:
            r.bad('%s: result' % key, '%s: %s' % (f.dem, x))
        except search.Unknown as x:
            r.undecided(key, '%s' % x)
    mod = num.stochastic()
    for name, g in (('Encode', encode), ('EncodeWithDithering', encode_dither), ('Decode', decode), ('MaxQuantity', extremes), ('MinQuantity', extremes), ('QuantizationCount', extremes)):
        l = [f for f in mod.functions if SE in f.dem and '%s::%s(' % (SE, name) in f.dem]
        if len(l) != 1:
            r.undecided(name, 'not found')
            continue
        try:
            fn = Fn(l[0])
            g(r, fn, name)
            r.ok('%s' % name)
        except Bad as x:
            r.bad('%s: %s' % (name, x.args[0].split(' (')[0]), '%s %s' % (l[0].dem, x))
        except (Undecided, Cant) as x:
            r.undecided(name, '%s' % x)


class Table2(TableModel):
    """irregular tables"""

    def __init__(self, fn, size, seed):
        TableModel.__init__(self, fn, size)
        d, x = [], -3.0 * size
        for j in range(size):
            x += 1 + self.rnd(('w', seed, j)) % 64 / 8.0
            d.append(x)
        e = [d[j] + (d[j + 1] - d[j]) * (0.375 + self.rnd(('b', seed, j)) % 16 / 64.0) for j in range(size - 1)] + [FMAX]
        (oe, (be, _)), (od, (bd, _)) = self.dict.items()
        self.enc, self.dec = e, d
        for o, b, l in ((oe, be, e), (od, bd, d + [NAN])):
            self.dict[o] = (b, l)
            for j, v in enumerate(l):
                self.mem[b + 4 * j] = v
        self.hooks.append(self.beyond)

    def beyond(self, ad, t):
        for b, l in self.dict.values():
            if -64 <= ad - b < 4 * len(l) + 64:
                raise Bad(None, 'an entry beyond a table is read (entry %d of %d)' % ((ad - b) // 4, self.size))


def run2(fn, n, seed, over, dith=None):
    m = Table2(fn, n, seed)
    v, k = vararg(fn.f)
    m.over[('farg', v)] = float(over)
    if dith is not None:
        m.over[('arg', k)] = Q(dith)
    t = returned(fn)
    if t is None or not isinstance(t, Poly):
        raise Undecided('the returned symbol')
    return m, m.poly(t) % (1 << 32)


def values(m):
    """interesting values of a table"""
    out = [m.dec[0] - 1e30, m.dec[0] - 0.01, m.dec[-1] + 0.01, m.dec[-1] + 1e30]
    for l in (m.enc[:-1], m.dec):
        for j, v in enumerate(l):
            out += [v, v - 1e-3, v + 1e-3]
    for a, b in zip(m.dec, m.dec[1:]):
        out += [a + (b - a) * f for f in (0.1, 0.25, 0.9)]
    return out


def encode(r, fn, name):
    for n in (3, 7, 15, 63):
        m = Table2(fn, n, n)
        for x in values(m):
            m, s = run2(fn, n, n, x)
            r.count('values', 1)
            if not (s.denominator == 1 and 0 <= s < n):
                raise Bad(None, 'a finite value is not encoded as a symbol of a quantity (%s of %d)' % (s, n))
            s = int(s)
            if s and x < m.enc[s - 1] or s < n - 1 and x > m.enc[s]:
                raise Bad(None, 'a value is encoded as a symbol whose interval does not contain it (symbol %d of %d)' % (s, n))


def encode_dither(r, fn, name):
    R = 1 << 31
    for n in (3, 7, 15):
        m = Table2(fn, n, n)
        for x in values(m):
            for d in (0, 1, R // 8, R // 3, R // 2, R - R // 5, R - 1):
                m, s = run2(fn, n, n, x, d)
                r.count('values', 1)
                if not (s.denominator == 1 and 0 <= s < n):
                    raise Bad(None, 'a finite value is not encoded as a symbol of a quantity (%s of %d)' % (s, n))
                s = int(s)
                if x <= m.dec[0] or x >= m.dec[-1]:
                    if s != (0 if x <= m.dec[0] else n - 1):
                        raise Bad(None, 'a value outside of the table is not clipped to the outermost quantity (symbol %d of %d)' % (s, n))
                    continue
                j = max(k for k in range(n) if m.dec[k] <= x)
                if x == m.dec[j]:
                    if s != j:
                        raise Bad(None, 'a value that is a quantity is not encoded as this quantity (symbol %d instead of %d of %d)' % (s, j, n))
                    continue
                if s not in (j, j + 1):
                    raise Bad(None, 'dithering selects a quantity that does not enclose the value (symbol %d for a value between %d and %d of %d)' % (s, j, j + 1, n))
                f = (x - m.dec[j]) / (m.dec[j + 1] - m.dec[j])
                if abs(f - d / R) > 1e-3 and s != (j + 1 if f > d / R else j):
                    raise Bad(None, 'the probability of the upper quantity is not the position of the value between both (position %.3f, random number %.3f)' % (f, d / R))


def decode(r, fn, name):
    k = [k for k, a in enumerate(fn.f.args) if a['t'] == 'i32']
    t = returned(fn)
    if len(k) != 1 or t is None or isinstance(t, Poly):
        raise Undecided('the decoded value')
    for n in (3, 7, 15):
        for s in range(n + 1):
            m = Table2(fn, n, n)
            m.over[('arg', k[0])] = Q(s)
            v = m.fp(t)
            if s < n and v != m.dec[s] or s == n and abs(v) < INF:
                raise Bad(None, 'a symbol is not decoded as its quantity (symbol %d of %d)' % (s, n))


def extremes(r, fn, name):
    t = returned(fn)
    if t is None:
        raise Undecided('the returned value')
    for n in (3, 7, 15):
        m = Table2(fn, n, n)
        v = m.any(t)
        w = {'MaxQuantity': m.dec[-1], 'MinQuantity': m.dec[0], 'QuantizationCount': n + 1}[name]
        if v != w:
            raise Bad(None, '%s is not that of the table (%s instead of %s)' % (name, v, w))
