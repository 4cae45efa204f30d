"""Numeric code of the encoders: closed forms of indices, factors and guards."""
import math
import os
from fractions import Fraction as Q
from itertools import combinations
from vfw import num
from vfw.build import AnalysisError
from vfw.scev import Scev, Model, Poly, Cant, leaves, same, FP

CLASSES = ('AFTimeBlockEncoder', 'RFTimeBlockEncoder', 'RowTimeBlockEncoder')
SE = 'dyscostman::StochasticEncoder<'


class Undecided(Exception):
    pass


class Store:
    """a store of floating point or integer value, in closed form"""

    def __init__(self, S, i):
        self.i, self.bb = i, i.bb
        self.addr = S.use(i.ops[1], i.bb)
        self.val = S.use(i.ops[0], i.bb)
        self.loops = list(reversed(S.loopof[i.bb]))     # outer first
        self.size = i.get('size')

    @property
    def where(self):
        return self.i.where


class Fn:
    def __init__(self, f):
        self.f = f
        self.S = Scev(f)
        self.stores = [Store(self.S, i) for i in f.insts() if i.op == 'store' and i.bb in self.S.live and i.bb in f.dominators()]
        self.stores = [s for s in self.stores if isinstance(s.addr, Poly)]
        self.selected = False     # an address is selected by the data
        self.reach = {}
        self.exits = {b for h in self.S.loops for b, _ in self.S.exits(h)}
        # values of local variables that are written once
        self.spill = {}
        by = {}
        for s in self.stores:
            at = [a for a in s.addr.atoms() if a[0] == 'al']
            if at and s.addr == Poly.atom(at[0]):
                by.setdefault(at[0], []).append(s)
        for a, l in by.items():
            if len(l) == 1:
                self.spill[a] = l[0].val

    def reaches(self, a, b, without=()):
        """block b can be reached from the end of block a (not via the given headers)"""
        key = (a, tuple(without))
        if key not in self.reach:
            seen, todo = set(), list(self.f.blocks[a].succ)
            while todo:
                x = todo.pop()
                if x in seen or x in without:
                    continue
                seen.add(x)
                todo += self.f.blocks[x].succ
            self.reach[key] = seen
        return b in self.reach[key]


class M2(Model):
    """a model in which the vectors of a function have the wanted sizes"""

    def __init__(self, fn, seed):
        Model.__init__(self, seed)
        self.fn = fn
        self.hooks = []
        self.spills = None
        self.depth = 0
        self.salt = 0      # another choice of floating point values and conditions

    def fresh(self, key):
        v = Model.fresh(self, (self.salt, key))
        if self.salt % 2:
            # also very small and very large values
            v *= (1.0, 1e-3, 1e3, 1e-12, 1e12, 1e-34, 1e30)[self.rnd(('scale', self.salt, key)) % 7]
        return v

    def set(self, poly, v):
        self.mem[self.poly(poly)] = v

    def atom(self, a):
        # no memory of values: counters change
        if a in self.over:
            return self.over[a]
        return self.atom_(a)

    def ctx(self, blk, fin):
        """iteration of the loops around a header"""
        l = [h for h in self.fn.S.loopof[blk] if not (fin and h == blk)]
        return tuple((h, self.over.get(('k', h))) for h in sorted(l))

    def choose(self, a):
        """some value that an integer variable of a loop can have after the loop: the start, or that of some iteration"""
        S, i = self.fn.S, a[1]
        h = self.fn.f.inst[i].bb
        s, n = S.starts.get(i), S.nexts.get(i)
        if s is None or n is None:
            return None
        T = S.trip(h)
        t = int(self.poly(T[0])) if T else 3
        key = ('choose', i, self.ctx(h, True), self.salt)
        j = self.rnd(key) % max(1, t)
        s0 = self.poly(s)
        old = self.over.get(('k', h))
        me = ('phi', i)
        oldme = self.over.get(me)
        self.over[('k', h)], self.over[me] = Q(j), s0
        try:
            # all conditions that keep the old value are assumed not to hold
            def pick(x):
                at = [b for b in x.atoms() if b[0] == 'ite']
                for b in at:
                    for y, z in ((b[2], b[3]), (b[3], b[2])):
                        if Poly.atom(me) - (x - Poly.atom(b)) == y or me in leaves(y) and me not in leaves(z):
                            return pick((x - Poly.atom(b)) + z)
                return self.poly(x)
            return pick(n)
        finally:
            for k_, o_ in ((('k', h), old), (me, oldme)):
                if o_ is None:
                    self.over.pop(k_, None)
                else:
                    self.over[k_] = o_

    def atom_(self, a):
        if a[0] == 'phi':
            fin = len(a) == 3
            if fin:
                v = self.choose(a)
                if v is not None:
                    return v
            return Q(self.rnd((a, self.ctx(self.fn.f.inst[a[1]].bb, fin))) % 7 + 2)
        return Model.atom_(self, a)

    def fp(self, t):
        if t in self.over:
            return self.over[t]
        if t[0] == 'fphi':
            return self.fresh((t, self.ctx(self.fn.f.inst[t[1]].bb, len(t) == 3)))
        if t[0] == 'fld':
            ad = self.poly(t[2])
            if ad in self.mem:
                return float(self.mem[ad])
            if self.spills is None:
                self.spills = {self.atom(a): v for a, v in self.fn.spill.items()}
            if ad in self.spills and self.depth < 20:
                self.depth += 1
                try:
                    return self.any(self.spills[ad])
                finally:
                    self.depth -= 1
            for h in self.hooks:
                v = h(ad, t)
                if v is not None:
                    return v
            return self.fresh(('fm', ad))
        return Model.fp(self, t)

    def call(self, t):
        if t[1] == 'sqrt':
            return Model.fp(self, ('fsqrt', t[2][0]))
        return Model.call(self, t)


def enumerate_loops(m, S, loops, f, limit=4000, clip=200):
    """calls f for every iteration of the nest (outer loops first)"""
    n = [0]

    def go(k):
        if k == len(loops):
            n[0] += 1
            if n[0] > limit:
                raise Undecided('too many iterations')
            f()
            return
        h = loops[k]
        T = S.trip(h)
        if T is None:
            raise Undecided('the number of iterations of a loop is not known')
        t = m.poly(T[0])
        if t.denominator != 1:
            raise Undecided('the number of iterations of a loop is not a whole number')
        t = int(t)
        for j in range(max(0, min(t, clip))):
            m.over[('k', h)] = Q(j)
            go(k + 1)
        m.over.pop(('k', h), None)
    go(0)


class Encoder:
    """the functions of one encoder class"""

    def __init__(self, mod, cls):
        self.cls = cls

        def fs(name):
            return [f for f in mod.functions if f.qn.replace('root.', '') == '%s::%s' % (cls, name)]
        self.enc = [Fn(f) for n in ('EncodeWithDithering', 'EncodeWithoutDithering', 'Encode') for f in fs(n)]
        self.dec = [Fn(f) for f in fs('Decode')]
        self.init = [Fn(f) for f in fs('InitializeDecode')]
        self.ctor = [Fn(f) for f in fs(cls)]
        self.count = {n: [Fn(f) for f in fs(n)] for n in ('SymbolCount', 'SymbolsPerRow', 'MetaDataCount', 'MetaDataFloatCount')}
        if not self.enc or len(self.dec) != 1 or len(self.init) != 1 or not self.ctor:
            raise AnalysisError('functions of %s not found' % cls)
        self.dec, self.init = self.dec[0], self.init[0]
        # members that hold the dimensions: stored by the constructor from its arguments
        self.dims = {}
        c = self.ctor[0]
        for s in c.stores:
            if isinstance(s.val, Poly):
                for k in (1, 2, 3):
                    if s.val == Poly.atom(('arg', k)):
                        o = s.addr - Poly.atom(('arg', 0))
                        if o.is_const():
                            self.dims.setdefault(k, int(o.c()))
        if 1 not in self.dims or 2 not in self.dims:
            raise AnalysisError('dimensions of %s not found' % cls)
        r = mod.records
        n = 'TimeBlockBuffer<%s>::DataRow'
        self.row = {}
        for k, t in (('d', 'std::complex<double> '), ('f', 'std::complex<float> '), ('w', 'float')):
            rec = r.get(n % t)
            if rec:
                o = {x[0]: x[1] for x in rec['m']}
                self.row[k] = (rec['size'], o['visibilities'], o['antenna1'], o['antenna2'])
        b = r.get('TimeBlockBuffer<std::complex<float> >') or r.get('TimeBlockBuffer<float>')
        if not self.row or not b:
            raise AnalysisError('layout of the block buffer not found')
        self.bufdata = [x[1] for x in b['m'] if x[3].startswith('std::vector')][0]

    def model(self, fn, seed, np, nc):
        m = M2(fn, seed)
        m.set(Poly.atom(('arg', 0)) + Poly.const(self.dims[1]), np)
        m.set(Poly.atom(('arg', 0)) + Poly.const(self.dims[2]), nc)
        m.rowbytes = {'d': 16 * np * nc, 'f': 8 * np * nc, 'w': 4 * np * nc}
        return m

    def data_vector(self, fn):
        """container that holds the rows while encoding"""
        for i in fn.f.calls(lambda i: 'ConvertVector' in i.cdem):
            return fn.S.use(i.args[1], i.bb), 'd'
        if self.cls == 'WeightBlockEncoder':
            return Poly.atom(('arg', 1)) + Poly.const(self.bufdata), 'w'
        raise Undecided('the converted rows are not found')

    def rows(self, m, vec, kind, nr, ants=None):
        """sets size and antennas; returns the addresses of the samples of each row"""
        size, voff, o1, o2 = self.row[kind]
        b = m.poly(vec)
        beg = m.load('ptr', b)
        m.mem[b] = beg
        m.mem[b + 8] = beg + size * nr
        out = []
        for r in range(nr):
            if ants:
                m.mem[beg + size * r + o1] = ants[r][0]
                m.mem[beg + size * r + o2] = ants[r][1]
            v = m.load('ptr', beg + size * r + voff)
            # (a row has one element per channel and polarization)
            m.mem[beg + size * r + voff] = v
            m.mem[beg + size * r + voff + 8] = v + m.rowbytes[kind]
            out.append(v)
        return out


def encoders(r):
    mod = num.encoders()
    out = []
    for c in CLASSES + ('WeightBlockEncoder',):
        out.append(Encoder(mod, c))
    r.count('functions', sum(len(e.enc) + 2 for e in out))
    r.count('closed_forms', sum(len(f.stores) for e in out for f in e.enc + [e.dec, e.init]))
    return out


# polarizations, channels, rows, antennas
DIMS = [(1, 1, 1, 2), (2, 3, 2, 3), (3, 2, 3, 4), (4, 1, 2, 2), (1, 4, 3, 5), (2, 5, 1, 3), (1, 1, 2, 1), (1, 3, 4, 2), (3, 5, 2, 7),
        (4, 2, 5, 3), (2, 1, 3, 6), (3, 3, 3, 3), (5, 3, 2, 2), (1, 7, 2, 4), (4, 8, 3, 5), (2, 16, 2, 2)]
if os.environ.get('VERIF_TIER') == 'thorough':
    DIMS += [(a, b, c, d) for a in (1, 2, 3, 4) for b in (1, 2, 3, 6) for c in (1, 2, 3, 5) for d in (1, 2, 4)]


def argbase(addr, k):
    """addr - argument k, if the address lies in the array of that argument"""
    sp = addr.split(('arg', k))
    if sp is None or sp[0] != Poly.const(1):
        return None
    return sp[1]


def returned(fn):
    for i in fn.f.insts():
        if i.op == 'ret' and i.ops:
            return fn.S.use(i.ops[0], i.bb)
    return None


class Bad(Exception):
    def __init__(self, s, text):
        Exception.__init__(self, text)
        self.s = s


def live(fn, m, s, skip=()):
    """the conditions (other than those of loops) of the store hold"""
    for c, truth, b in fn.S.guards(s.bb):
        if b in skip or b in fn.exits:
            continue
        if c is None:
            raise Undecided('a condition is not understood')
        if m.cond(c) != truth:
            return False
    return True


def provenance(fn, m, t, limit=20000):
    """addresses of memory (type, address) on which the value depends, through the variables of loops"""
    out, seen, n = set(), set(), [0]

    def go(t):
        n[0] += 1
        if n[0] > limit:
            raise Undecided('too many terms')
        for a in sorted(leaves(t), key=lambda x: repr(x)[:200]):
            if a[0] in ('fld', 'bld') or a[0] == 'ld' and a[1] != 'ptr':
                ad = m.poly(a[2] if a[0] != 'bld' else a[1])
                if m.spills is None:
                    m.spills = {m.atom(x): v for x, v in fn.spill.items()}
                if ad in m.spills:
                    go(m.spills[ad])
                else:
                    out.add((a[1], ad))
            elif a[0] in ('phi', 'fphi', 'bphi'):
                i = a[1]
                if a[0] == 'phi':
                    fn.selected = True
                h = fn.f.inst[i].bb
                key = (a, m.ctx(h, len(a) == 3))
                if key in seen:
                    continue
                seen.add(key)
                s0, nx = fn.S.starts.get(i), fn.S.nexts.get(i)
                if s0 is None or nx is None:
                    raise Undecided('a variable of a loop is not understood')
                go(s0)
                T = fn.S.trip(h)
                if T is None:
                    raise Undecided('the number of iterations of a loop is not known')
                old = m.over.get(('k', h))
                for j in range(int(m.poly(T[0]))):
                    m.over[('k', h)] = Q(j)
                    go(nx)
                if old is None:
                    m.over.pop(('k', h), None)
                else:
                    m.over[('k', h)] = old
    go(t)
    return out


def callof(t, names):
    """calls of functions of the table inside of a term"""
    return [a for a in leaves(t) if a[0] in ('call', 'fcall') and any(a[1].startswith(SE) and a[1].endswith('>::' + n) for n in names)]


def sample_of(bases, ad, width, n):
    for r, b in enumerate(bases):
        if b <= ad < b + width * n:
            return r, (ad - b) / width
    return None


def sites(fn, k):
    """stores into the array of argument k"""
    return [s for s in fn.stores if argbase(s.addr, k) is not None]


def antennas(m, nr, na):
    return [(m.rnd(('a1', r)) % na, m.rnd(('a2', r)) % na) for r in range(nr)]


def isweight(e):
    return e.cls == 'WeightBlockEncoder'


def setup_enc(e, fn, seed, d):
    np, nc, nr, na = d
    m = e.model(fn, seed, np, nc)
    vec, kind = e.data_vector(fn)
    bases = e.rows(m, vec, kind, nr, antennas(m, nr, na))
    if not isweight(e):
        m.over[('arg', 5)] = Q(na)
    return m, bases, (8 if kind == 'd' else 4), np * nc * (2 if kind == 'd' else 1)


def enc_symbols(e, fn, seed, d):
    """(row, sample) -> indices of its symbols"""
    m, bases, w, n = setup_enc(e, fn, seed, d)
    symarg = 3 if isweight(e) else 4
    out = {}
    ss = sites(fn, symarg)
    if not ss:
        raise Undecided('no symbol is stored')
    sym = m.atom(('arg', symarg))
    for s in ss:
        if not isweight(e):
            cs = callof(s.val, ('Encode', 'EncodeWithDithering'))
            if len(cs) != 1:
                raise Undecided('%s: the value of a symbol' % s.where)

        def one(s=s):
            if not live(fn, m, s):
                return
            i = (m.poly(s.addr) - sym) / s.size
            if isweight(e):
                src = provenance(fn, m, s.val)
            else:
                src = provenance(fn, m, callof(s.val, ('Encode', 'EncodeWithDithering'))[0][2][1])
            keys = [sample_of(bases, ad, w, n) for t, ad in src]
            keys = {k for k in keys if k is not None}
            if isweight(e):
                # the first is the weight itself, others can come from the maximum
                rows = {k for k in keys}
                out.setdefault(i, []).append(rows)
            else:
                if len(keys) != 1:
                    raise Bad(s, 'the encoded value is not one sample of the block')
                out.setdefault(keys.pop(), set()).add(i)
        enumerate_loops(m, fn.S, s.loops, one)
    return out, ss


class DecodeModel(M2):
    """tracks which metadata a value uses"""

    def __init__(self, fn, seed):
        M2.__init__(self, fn, seed)
        self.meta, self.rho, self.used, self.local, self.unset = {}, {}, set(), {}, set()
        self.hooks.append(self.lookup)

    def lookup(self, ad, t):
        if ad in self.local:
            v, u = self.local[ad]
            self.used |= u
            return v
        if ad in self.meta:
            self.used.add(self.meta[ad])
            return self.rho.get(self.meta[ad], 1.0)
        self.unset.add(t)
        return None


def setup_dec(e, seed, d, row, ant, rho=None, quant=17):
    """model of Decode in which the members were filled by InitializeDecode"""
    np, nc, nr, na = d
    m = DecodeModel(e.dec, seed)
    base = Poly.atom(('arg', 0))
    m.set(base + Poly.const(e.dims[1]), np)
    m.set(base + Poly.const(e.dims[2]), nc)
    if 3 in e.dims:
        m.set(base + Poly.const(e.dims[3]), quant)
    i = e.init
    mi = e.model(i, seed, np, nc)
    if not isweight(e):
        mi.over[('arg', 2)], mi.over[('arg', 3)] = Q(nr), Q(na)
    a1 = mi.atom(('arg', 1))
    for s in i.stores:
        fl = [a for a in leaves(s.val) if a[0] == 'fld']
        x = s.val
        while isinstance(x, tuple) and x[0] in ('fpext', 'fptrunc'):
            x = x[2]
        if not (isinstance(x, tuple) and x[0] == 'fld'):
            if fl:
                raise Undecided('%s: a scale factor is changed before it is kept' % s.where)
            continue

        def one(s=s, x=x):
            if live(i, mi, s):
                m.meta[mi.poly(s.addr)] = (mi.poly(x[2]) - a1) / 4
        enumerate_loops(mi, i.S, s.loops, one)
    if isweight(e):
        m.over[('arg', 3)] = Q(row)
        bufarg = 1
    else:
        m.over[('arg', 4)], m.over[('arg', 5)], m.over[('arg', 6)] = Q(row), Q(ant[0]), Q(ant[1])
        bufarg = 2
    m.rho = rho or {}
    # position of the row in the buffer
    size, voff, o1, o2 = e.row['w' if isweight(e) else 'f']
    beg = m.load('ptr', m.atom(('arg', bufarg)) + e.bufdata)
    m.rowaddr = beg + size * row
    m.dest = m.load('ptr', m.rowaddr + voff)
    m.mem[m.rowaddr + voff] = m.dest
    m.mem[m.rowaddr + voff + 8] = m.dest + np * nc * (4 if isweight(e) else 8)
    # local arrays
    n = np * nc * (1 if isweight(e) else 2)
    for s in e.dec.stores:
        if s.i.get('size') and not isinstance(s.val, Poly) and argfree(s) and not (s.addr.atoms() and any(a[0] == 'al' and s.addr == Poly.atom(a) for a in s.addr.atoms())):
            def one(s=s):
                ad = m.poly(s.addr)
                if m.dest <= ad < m.dest + 4 * n + 4096 and s.size == 4:
                    return
                if not live(e.dec, m, s):
                    return
                old, m.used = m.used, set()
                v = m.fp(s.val)
                m.local[ad] = (v, m.used)
                m.used = old
            enumerate_loops(m, e.dec.S, s.loops, one)
    m.used = set()
    m.unset = set()
    return m, n


def argfree(s):
    return s.val is not None


def dec_values(e, m, n):
    """[(store, destination index, symbol indices, metadata used, value, decoded quantity)]"""
    out = []
    symarg = 2 if isweight(e) else 3
    sym = m.atom(('arg', symarg))
    for s in e.dec.stores:
        if isinstance(s.val, Poly):
            continue

        def one(s=s):
            ad = m.poly(s.addr)
            if not m.dest - 4096 <= ad < m.dest + 4 * n + 4096 or ad in m.local:
                return
            if not live(e.dec, m, s):
                return
            m.used = set()
            v = m.fp(s.val)
            u = m.used
            q = callof(s.val, ('Decode',))
            syms = {(x - sym) / 4 for t, x in provenance(e.dec, m, s.val) if abs(x - sym) < 4000000 and t == 'i32'}
            out.append((s, (ad - m.dest) / 4, syms, u, v, m.fp(q[0]) if len(q) == 1 else None))
        enumerate_loops(m, e.dec.S, s.loops, one)
    return out


def count_value(e, name, seed, args, np, nc):
    """value of one of the counting functions; args: number of rows, polarizations, channels, antennas"""
    vals = set()
    for fn in e.count[name]:
        v = returned(fn)
        if v is None:
            raise Undecided('%s::%s' % (e.cls, name))
        m = e.model(fn, seed, np, nc)
        for k, x in enumerate(args):
            m.over[('arg', k + 1)] = Q(x)
        vals.add(m.poly(v))
    if len(vals) != 1:
        raise Bad(None, '%s::%s: the overloads give different values' % (e.cls, name))
    return vals.pop()


# -- P15 ------------------------------------------------------------------------------------
def p15(r):
    es = encoders(r)
    for e in es:
        for k, d in enumerate(DIMS):
            key = '%s' % e.cls
            try:
                p15_one(r, e, d, 'p15-%d' % k)
            except Bad as x:
                r.bad('%s: %s' % (key, x), '%s %s (block of %d polarizations, %d channels, %d rows, %d antennas)' % ((x.s.where if x.s else '', x) + d))
            except (Undecided, Cant) as x:
                r.undecided(key, '%s' % x)
        if not isweight(e):
            for fn in e.enc:
                try:
                    p16_one(r, e, fn, key, True)
                except Bad as x:
                    r.bad('%s: %s' % (key, x), '%s %s' % (x.s.where if x.s else '', x))
                except (Undecided, Cant) as x:
                    r.undecided(key, '%s' % x)
    r.require(r.cov.get('samples', 0) > 100, 'few samples were compared')


def p15_one(r, e, d, seed):
    np, nc, nr, na = d
    w = isweight(e)
    total = count_value(e, 'SymbolCount', seed, (nr, np, nc), np, nc)
    nmeta = count_value(e, 'MetaDataFloatCount', seed, (), np, nc) if w else count_value(e, 'MetaDataCount', seed, (nr, np, nc, na), np, nc)
    if not w:
        per = count_value(e, 'SymbolsPerRow', seed, (), np, nc)
        if per * nr != total:
            raise Bad(None, 'the number of symbols of a block is not the number of symbols of its rows')
    # decoding
    dec = {}
    used = {}
    for row in range(nr):
        m0 = e.model(e.dec, seed, np, nc)
        ant = antennas(m0, nr, na)[row]
        m, n = setup_dec(e, seed, d, row, ant)
        vs = dec_values(e, m, n)
        if not vs:
            raise Undecided('no decoded value is found')
        for s, i, syms, u, v, q in vs:
            if i.denominator != 1 or not 0 <= i < n:
                raise Bad(s, 'a decoded value is stored outside of the row')
            if m.unset:
                bad = [t for t in m.unset if not any(a[0] == 'al' for a in leaves(t))]
                if bad:
                    raise Bad(s, 'decoding uses a scale factor that was not read from the block')
            if len(syms) != 1:
                raise Bad(s, 'a decoded value does not come from one symbol')
            if (row, i) in dec:
                raise Bad(s, 'a sample is decoded twice')
            dec[row, i] = syms
            used[row, i] = u
            for x in u:
                if x.denominator != 1 or not 0 <= x < nmeta:
                    raise Bad(s, 'decoding reads metadata outside of the advertised number')
        for i in range(n):
            if (row, i) not in dec:
                raise Bad(vs[0][0], 'a sample is not decoded')
        if not w:
            p15_row(r, e, m, ant, n // 2)
        r.count('samples', n)
    for fn in e.enc:
        enc, ss = enc_symbols(e, fn, seed, d)
        if w:
            for i, srcs in enc.items():
                if len(srcs) != 1:
                    raise Bad(ss[0], 'two samples have the same symbol')
            m2 = {}
            for k, sy in dec.items():
                m2.setdefault(min(sy), set()).add(k)
            for i, ks in m2.items():
                if i not in enc:
                    raise Bad(ss[0], 'a symbol that is decoded is not encoded')
                # (which of the polarizations is the smallest is P22)
                if enc[i][0] and not ks & enc[i][0] and not fn.selected:
                    raise Bad(ss[0], 'a symbol is encoded from other samples than it is decoded to')
                if len({c for _, c in ks}) != np:
                    raise Bad(ss[0], 'not all polarizations decode from the symbol of their channel')
            idx = set(enc)
            if idx != set(m2):
                raise Bad(ss[0], 'a symbol is not encoded or not decoded')
        else:
            idx = set()
            for row in range(nr):
                for i in range(np * nc * 2):
                    a, b = enc.get((row, i)), dec.get((row, i))
                    if not a:
                        raise Bad(ss[0], 'a sample is not encoded')
                    if len(a) != 1:
                        raise Bad(ss[0], 'a sample has several symbols')
                    if a & idx:
                        raise Bad(ss[0], 'two samples have the same symbol')
                    idx |= a
                    if a != b:
                        raise Bad(ss[0], 'a sample is decoded from another symbol than it is encoded to')
        for i in idx:
            if i.denominator != 1 or not 0 <= i < total:
                raise Bad(ss[0], 'a symbol lies outside of the advertised number of symbols')
        if len(idx) != total:
            raise Bad(ss[0], 'the advertised number of symbols is not the number of symbols that are stored')
        p15_meta(r, e, fn, seed, d, nmeta, used)
        r.ok('%s: %s' % (e.cls, d))


def p15_row(r, e, m, ant, n):
    size, voff, o1, o2 = e.row['f']
    for o, v, what in ((o1, ant[0], 'first'), (o2, ant[1], 'second')):
        got = [s for s in e.dec.stores if isinstance(s.val, Poly) and not s.loops and m.poly(s.addr) == m.rowaddr + o]
        if not got:
            raise Bad(None, 'the %s antenna of the row is not set by decoding' % what)
        for s in got:
            if m.poly(s.val) != v:
                raise Bad(s, 'the %s antenna of the row is set to another value' % what)
    rs = [i for i in e.dec.f.calls(lambda i: i.cdem.split('(')[0].endswith('::resize') and i.bb in e.dec.S.live)]
    good = False
    for i in rs:
        b, v = e.dec.S.use(i.args[0], i.bb), e.dec.S.use(i.args[1], i.bb)
        if m.poly(b) == m.rowaddr + voff:
            if m.poly(v) != n:
                raise Bad(None, 'the decoded row does not have one element per channel and polarization')
            good = True
    if not good:
        raise Undecided('the size of the decoded row')


def p15_meta(r, e, fn, seed, d, nmeta, used):
    """what decoding uses is written on every path of encoding, and nothing is written outside"""
    k = 2 if isweight(e) else 3
    ss = sites(fn, k)
    if not ss:
        raise Bad(None, 'no metadata is written')
    want = set().union(*used.values())
    for t in range(4):
        m, bases, w, n = setup_enc(e, fn, (seed, t), d)
        base = m.atom(('arg', k))
        got = set()
        for s in ss:
            def one(s=s):
                i = (m.poly(s.addr) - base) / s.size
                if i.denominator != 1 or not 0 <= i < nmeta:
                    raise Bad(s, 'metadata is written outside of the advertised number')
                if live(fn, m, s) and not update(s):
                    got.add(i)
            nest(m, fn, s, one)
        miss = want - got
        if miss:
            raise Bad(ss[0], 'decoding uses metadata that encoding does not write')
    r.count('metadata', len(want))


def update(s):
    """the value depends on the value at the same address"""
    return any(a[0] == 'fld' and a[2] == s.addr for a in leaves(s.val))


def nest(m, fn, s, f):
    """all iterations; loops whose number of iterations is not known are represented by one of them"""
    ls = s.loops
    free = [h for h in ls if fn.S.trip(h) is None]
    for h in free:
        m.over[('k', h)] = Q(1)
    m.memo = {}
    enumerate_loops(m, fn.S, [h for h in ls if h not in free], f)
    for h in free:
        m.over.pop(('k', h), None)


# -- P16 ------------------------------------------------------------------------------------
class Group:
    """stores into samples in the same loops and under the same conditions"""

    def __init__(self, fn, loops, stores):
        self.fn, self.loops, self.stores = fn, loops, stores

    @property
    def where(self):
        return self.stores[0].where

    @property
    def key(self):
        return self.stores[0].i.raw.get('fn') or self.where.split(':')[0]


def self_loads(s):
    return [a for a in leaves(s.val) if a[0] == 'fld' and a[2] == s.addr]


class Encoded:
    """what one encoding function does to samples and metadata, for one choice of dimensions and values"""

    def __init__(self, e, fn, d, seed, places=False):
        self.e, self.fn, self.d = e, fn, d
        self.places = places
        self.m, self.bases, self.w, self.n = setup_enc(e, fn, seed, d)
        self.meta = self.m.atom(('arg', 3))

    def token(self, s):
        """stands for a factor: depends only on the variables of which the factor is made"""
        m = self.m
        v = 1.0
        for a in leaves(s.val):
            if a[0] == 'fld' and a[2] != s.addr and (a[2].m.keys() != s.addr.m.keys() or not sample_of(self.bases, m.poly(a[2]), self.w, self.n)):
                ad = m.poly(a[2])
                v *= m.fresh(('token', ad))
            elif a[0] == 'fphi':
                v *= m.fresh(('token', a, m.ctx(self.fn.f.inst[a[1]].bb, len(a) == 3)))
        return v

    def factor(self, s, ad):
        """value / old value, or None if the value is not proportional to the old one"""
        m = self.m
        if self.places:
            return self.token(s)
        out = []
        for old in (1.0, 1.7, -2.3):
            m.mem[ad] = old
            try:
                out.append(m.fp(s.val) / old)
            finally:
                del m.mem[ad]
        return out[0] if all(same(out[0], x) for x in out) else None

    def run(self, stores, loops, fixed, what):
        """effects {key: factor} of the stores, for fixed iterations of the outer loops; what: sample or meta"""
        out = {}
        for s in stores:
            def one(s=s):
                if not live(self.fn, self.m, s):
                    return
                ad = self.m.poly(s.addr)
                if what == 'sample':
                    k = sample_of(self.bases, ad, self.w, self.n)
                    if k is None:
                        raise Bad(s, 'a value outside of the samples is scaled')
                    f = self.factor(s, ad)
                    if f is None:
                        raise Bad(s, 'a sample is changed in a way that decoding can not undo')
                    out[k] = out.get(k, 1.0) * f
                else:
                    k = (ad - self.meta) / s.size
                    if update(s):
                        f = self.factor(s, ad)
                        if f is None:
                            raise Bad(s, 'a recorded factor is changed in a way that is not a factor')
                        out[k] = out.get(k, 1.0) * f
                    else:
                        out[k] = self.token(s) if self.places else self.m.fp(s.val)
            enumerate_loops(self.m, self.fn.S, loops[fixed:], one)
        return out


def decode_exponents(r, e, d, seed):
    """(row, sample) -> {metadata index: exponent}"""
    np, nc, nr, na = d
    out = {}
    for row in range(nr):
        ant = antennas(e.model(e.dec, seed, np, nc), nr, na)[row]
        m, n = setup_dec(e, seed, d, row, ant)
        base = {}
        for s, i, syms, u, v, q in dec_values(e, m, n):
            if q is None:
                raise Undecided('%s: a decoded value is not made of one quantity' % s.where)
            base[i] = (s, u, v / q)
            if not same(v / q, 1.0):
                raise Bad(s, 'decoding applies a factor that is not recorded in the metadata')
        metas = set().union(*[u for s, u, f in base.values()])
        for i in base:
            out[row, i] = {}
        for x in metas:
            m2, n = setup_dec(e, seed, d, row, ant, {x: 2.0})
            for s, i, syms, u, v, q in dec_values(e, m2, n):
                ex = math.log2(v / q) if v / q > 0 else None
                if ex is None or abs(ex - round(ex)) > 1e-9:
                    raise Bad(s, 'decoding does not multiply by a recorded factor')
                if round(ex):
                    out[row, i][x] = round(ex)
        rho = {x: m.fresh(('rho', x)) for x in metas}
        m3, n = setup_dec(e, seed, d, row, ant, rho)
        for s, i, syms, u, v, q in dec_values(e, m3, n):
            p = 1.0
            for x, k in out[row, i].items():
                p *= rho[x] ** k
            if not same(p, v / q):
                raise Bad(s, 'decoding does not multiply by the recorded factors')
    return out


def base_of(fn, addr):
    b = [a for a in addr.atoms() if a[0] in ('al', 'arg', 'call') or a[0] == 'ld' and a[1] == 'ptr']
    b = [a for a in b if addr.split(a) and addr.split(a)[0] == Poly.const(1)]
    return b[0] if len(b) == 1 else None


def changed_between(fn, gs, ms, fixed):
    """a table from which a factor is read is changed between its use and its record"""
    bases = {}
    for s in gs + ms:
        for a in leaves(s.val):
            if a[0] == 'fld' and a[2] != s.addr:
                b = base_of(fn, a[2])
                if b is not None:
                    bases.setdefault(b, a)
    if not bases:
        return None
    for t in fn.stores:
        if base_of(fn, t.addr) not in bases or t in gs or t in ms:
            continue
        for x, y in ((gs, ms), (ms, gs)):
            for a in x:
                for b in y:
                    if (fn.reaches(a.bb, b.bb, fixed) or a.bb == b.bb) and fn.reaches(a.bb, t.bb, fixed) and (fn.reaches(t.bb, b.bb, fixed)):
                        if a.bb == t.bb and fixed and not fn.reaches(a.bb, a.bb, fixed):
                            continue
                        return t
    return None


P16_DIMS = [(2, 3, 2, 3), (3, 2, 3, 4)]
P16_SEEDS = 16 if os.environ.get('VERIF_TIER') != 'thorough' else 60


def p16(r):
    es = encoders(r)
    for e in es:
        if isweight(e):
            continue
        for fn in e.enc:
            key = fn.f.qn.replace('root.', '')
            try:
                p16_one(r, e, fn, key)
            except Bad as x:
                r.bad('%s: %s' % (key, x), '%s %s' % (x.s.where if x.s else '', x))
            except (Undecided, Cant) as x:
                r.undecided(key, '%s' % x)
    r.require(r.cov.get('matched', 0) >= 6, 'few factors were matched')


def p16_one(r, e, fn, key, places=False):
    S = fn.S
    # sites
    exp = {d: decode_exponents(r, e, d, ('p16', d)) for d in P16_DIMS}
    probe = Encoded(e, fn, P16_DIMS[1], ('p16', P16_DIMS[1]))
    vec, kind = e.data_vector(fn)
    groups = {}
    for s in fn.stores:
        if isinstance(s.val, Poly):
            continue
        hit = [False]

        def one(s=s):
            if sample_of(probe.bases, probe.m.poly(s.addr), probe.w, probe.n) is not None:
                hit[0] = True
        try:
            nest(probe.m, fn, s, one)
        except (Undecided, Cant):
            continue
        if hit[0]:
            g = (tuple(s.loops), tuple(sorted((b, t) for c, t, b in S.guards(s.bb))))
            groups.setdefault(g, []).append(s)
    groups = [Group(fn, list(g[0]), l) for g, l in groups.items()]
    metas = sites(fn, 3)
    r.count('scaling_sites', len(groups))
    r.count('metadata_sites', len(metas))
    if not groups:
        raise Undecided('no scaling of samples is found')
    # matching
    todo_g, todo_m = list(groups), list(metas)
    for ng, nm in ((1, 1), (1, 2), (2, 1)):
        done = False
        for gs in combinations(list(todo_g), ng):
            for ms in combinations(list(todo_m), nm):
                if not (set(gs) <= set(todo_g) and set(ms) <= set(todo_m)):
                    continue
                if infeasible(fn, gs, ms):
                    continue
                if fits(e, fn, gs, ms, exp, False) or places and fits(e, fn, gs, ms, exp, True):
                    for g in gs:
                        todo_g.remove(g)
                    for x in ms:
                        todo_m.remove(x)
                    r.ok('%s: factor applied at %s recorded at %s' % (key, gs[0].where, ms[0].where))
                    r.count('matched', 1)
                    break
    for g in todo_g:
        if todo_m and all(infeasible(fn, [g], [x]) for x in todo_m):
            raise Undecided('%s: the record of this factor' % g.where)
    for s in todo_m:
        if todo_g and all(infeasible(fn, [g], [s]) for g in todo_g):
            raise Undecided('%s: the use of this factor' % s.where)
    if places:
        for g in todo_g:
            raise Bad(g.stores[0], 'decoding of a sample uses another place of the metadata than the one where its factor is recorded')
        for s in todo_m:
            raise Bad(s, 'a factor is recorded at another place than the one that is used for the samples')
        return
    for g in todo_g:
        raise Bad(g.stores[0], 'the factor that is applied to samples is not undone by what is recorded in the metadata')
    for s in todo_m:
        raise Bad(s, 'a factor is recorded that was not applied to the samples it is decoded for')
    # nothing recorded is overwritten
    p = Encoded(e, fn, P16_DIMS[0], ('p16', P16_DIMS[0]))
    idx = {}
    for s in metas:
        idx[s] = set()
        nest(p.m, fn, s, lambda s=s: idx[s].add(p.m.poly(s.addr)))
    for s in metas:
        if update(s):
            continue
        for t in metas:
            if t is not s and idx[s] & idx[t] and fn.reaches(t.bb, s.bb):
                raise Bad(s, 'a recorded factor is overwritten')
    for s in sites(fn, 4):
        for g in groups:
            common = []
            for a, b in zip(s.loops, g.loops):
                if a != b:
                    break
                common.append(a)
            if fn.reaches(s.bb, g.stores[0].bb, common):
                raise Bad(g.stores[0], 'samples are scaled after they were encoded')
            if common and fn.reaches(s.bb, g.stores[0].bb):
                r.undecided(key, 'samples are scaled between encoding of samples')


def infeasible(fn, gs, ms):
    ls = [g.loops for g in gs] + [s.loops for s in ms]
    for t in zip(*ls):
        if any(x != t[0] for x in t):
            break
        ls = [l[1:] for l in ls]
    return any(fn.S.trip(h) is None for l in ls for h in l)


def fits(e, fn, gs, ms, exp, places):
    """the factors of the groups are undone by what the stores record, for all dimensions and values"""
    ls = [g.loops for g in gs] + [s.loops for s in ms]
    common = []
    for t in zip(*ls):
        if any(x != t[0] for x in t):
            break
        common.append(t[0])
    need = max([k + 1 for k, h in enumerate(common) if fn.S.trip(h) is None], default=0)
    for fixed in range(len(common), need - 1, -1):
        if changed_between(fn, [s for g in gs for s in g.stores], list(ms), common[:fixed]) is not None:
            continue
        if fits_fixed(e, fn, gs, ms, exp, common, fixed, places):
            return True
    return False


def fits_fixed(e, fn, gs, ms, exp, common, fixed, places):
    active = 0
    for d in P16_DIMS:
        for t in range(P16_SEEDS * 5):
            p = Encoded(e, fn, d, ('p16', d), places)
            p.m.salt = t
            written = {}
            free = [h for h in common[:fixed] if fn.S.trip(h) is None]
            for h in free:
                p.m.over[('k', h)] = Q(1)
            ok = [True]
            act = [0]

            def one():
                f = {}
                for g in gs:
                    for k, v in p.run(g.stores, g.loops, fixed, 'sample').items():
                        f[k] = f.get(k, 1.0) * v
                rho = {}
                for s in ms:
                    for k, v in p.run([s], s.loops, fixed, 'meta').items():
                        rho[k] = rho.get(k, 1.0) * v
                        if not update(s):
                            it = tuple(p.m.over.get(('k', h)) for h in common[:fixed])
                            if written.setdefault(k, it) != it:
                                ok[0] = False
                if f or rho:
                    act[0] += 1
                for k, x in exp[d].items():
                    v = f.get(k, 1.0)
                    for i, n in x.items():
                        if i in rho:
                            if places:
                                v /= rho[i] ** abs(n)
                            else:
                                v *= rho[i] ** n
                    if not same(v, 1.0):
                        ok[0] = False
            try:
                enumerate_loops(p.m, fn.S, [h for h in common[:fixed] if h not in free], one)
            except (ZeroDivisionError, OverflowError):
                continue
            if not ok[0]:
                return False
            if act[0]:
                active += 1
            if t >= P16_SEEDS and active:
                break
    return active > 0


# -- P17 ------------------------------------------------------------------------------------
NAN, INF = float('nan'), float('inf')
BADS = [(NAN, NAN), (INF, INF), (-INF, INF), (NAN, -INF), (INF, NAN), (-INF, -INF), (NAN, 1.0), (1.0, NAN), (INF, 1.0), (1.0, -INF), (-INF, 0.5), (0.25, INF)]


def finite(x):
    return x == x and abs(x) != INF


def near(fn, m, t, depth=0, out=None):
    """loads of floating point values inside of a term, also through local variables"""
    if out is None:
        out = set()
    for a in leaves(t):
        if a[0] == 'fld':
            ad = m.poly(a[2])
            if m.spills is None:
                m.spills = {m.atom(x): v for x, v in fn.spill.items()}
            if ad in m.spills and depth < 6:
                near(fn, m, m.spills[ad], depth + 1, out)
                continue
            out.add((a, ad))
            # the address may be chosen between variables
            for b in leaves(a[2]):
                if b[0] == 'al' and m.atom(b) in m.spills and depth < 6:
                    near(fn, m, m.spills[m.atom(b)], depth + 1, out)
    return out


def p17(r):
    es = encoders(r)
    for e in es:
        if isweight(e):
            continue
        for fn in e.enc:
            key = fn.f.qn.replace('root.', '')
            try:
                p17_one(r, e, fn, key)
            except Bad as x:
                r.bad('%s: %s' % (key, x), '%s %s' % (x.s.where if x.s else '', x))
            except (Undecided, Cant) as x:
                r.undecided(key, '%s' % x)
    r.require(r.cov.get('accumulations', 0) >= 8, 'few accumulations of samples were found')
    try:
        p17_symbols(r)
    except (Undecided, Cant) as x:
        r.undecided('Encode', '%s' % x)


class Acc:
    """one update of a variable: a variable of a loop, or an element of a table"""

    def __init__(self, fn, where, val, guards, loops, old, bb, what):
        self.fn, self.where, self.val, self.guards, self.loops, self.old, self.bb, self.what = fn, where, val, guards, loops, old, bb, what


def accumulations(fn):
    S = fn.S
    out = []
    for i, nx in S.nexts.items():
        inst = fn.f.inst[i]
        if nx is None or inst.t not in FP and inst.t not in ('i32', 'i64', 'i1'):
            continue
        key = ('fphi', i) if inst.t in FP else ('bphi', i) if inst.t == 'i1' else ('phi', i)
        if inst.t not in FP and i in S.forms and S.forms[i] is not None:
            continue
        out.append(Acc(fn, inst.where, nx, None, list(reversed(S.loopof[inst.bb])), ('over', key), inst.bb, 'variable'))
    for s in fn.stores:
        at = s.addr.atoms()
        if any(a[0] == 'al' and s.addr == Poly.atom(a) for a in at):
            continue
        out.append(Acc(fn, s.where, s.val, s, s.loops, ('mem', s.addr), s.bb, 'element'))
    return out


def p17_one(r, e, fn, key):
    S = fn.S
    d = (2, 3, 3, 4)
    m, bases, w, n = setup_enc(e, fn, 'p17', d)
    nantab = set()
    for t in range(3):
        for a in accumulations(fn):
            if isinstance(a.guards, Store) and (argbase(a.guards.addr, 3) is not None or argbase(a.guards.addr, 4) is not None):
                continue
            for k, h in enumerate(a.loops):
                m.over[('k', h)] = Q(1 if t == 0 else (k + t) % 3)
            try:
                p17_acc(r, e, fn, key, m, bases, w, n, a, nantab)
            finally:
                for h in a.loops:
                    m.over.pop(('k', h), None)
    # factors and records
    for s in fn.stores:
        if isinstance(s.val, Poly):
            continue
        for h in s.loops:
            m.over[('k', h)] = Q(1)
        try:
            p17_factor(r, e, fn, key, m, bases, w, n, s)
        finally:
            for h in s.loops:
                m.over.pop(('k', h), None)


def p17_acc(r, e, fn, key, m, bases, w, n, a, nantab):
    ms = a.guards
    if isinstance(ms, Store):
        oldad = m.poly(ms.addr)
        if sample_of(bases, oldad, w, n) is not None:
            return
        conds = [(c, t) for c, t, b in fn.S.guards(ms.bb) if b not in fn.exits and c is not None]
    else:
        oldad = None
        conds = []
    lds = set()
    for c, t in conds:
        near(fn, m, c, 0, lds)
    near(fn, m, a.val, 0, lds)
    # also what an enclosing decision depends on
    sam = sorted({ad for x, ad in lds if sample_of(bases, ad, w, n) is not None})
    tabs = sorted({ad for x, ad in lds if base_of(fn, x[2]) in nantab and ad != oldad})
    isfp = not isinstance(a.val, Poly)
    if isinstance(ms, Store) and isfp and not sam and not tabs:
        # can the table contain a value that is not finite
        z = M0(fn, m)
        try:
            if all(z.cond(c) == t for c, t in conds) and not finite(z.fp(a.val)):
                b = base_of(fn, ms.addr)
                if b is not None and b not in nantab:
                    nantab.add(b)
        except (Cant, ZeroDivisionError):
            pass
        return
    if not sam and not tabs:
        if isinstance(ms, Store) and not isfp and selfdep(ms):
            b = base_of(fn, ms.addr)
            for o in fn.stores:
                if b is not None and base_of(fn, o.addr) == b and not isinstance(o.val, Poly) and o.loops == ms.loops and \
                        any(sample_of(bases, ad, w, n) for x, ad in near(fn, m, o.val)):
                    raise Bad(ms, 'a count includes samples that are not finite')
        return
    if len(sam) > 2:
        raise Undecided('%s: a value depends on several samples' % a.where)
    dep = a.old[1] in leaves(a.val) if a.old[0] == 'over' else selfdep(ms, conds)
    if not dep:
        return
    r.count('accumulations', 1)
    cases = BADS if sam else [(NAN, NAN), (INF, INF)]
    for oldv in (1.0, 0.0, 0.4, 1e30):
        for c in cases:
            for x, v in zip(sam, c):
                m.mem[x] = v
            for x in tabs:
                m.mem[x] = c[0]
            ov = oldv if isfp else Q(3)
            if a.old[0] == 'over':
                m.over[a.old[1]] = ov if a.old[1][0] != 'bphi' else True
            else:
                m.mem[oldad] = ov
            try:
                go = all(m.cond(k) == t for k, t in conds)
                new = (m.any(a.val) if not isinstance(a.val, Poly) else m.poly(a.val)) if go else ov
            finally:
                for x in list(sam) + list(tabs):
                    m.mem.pop(x, None)
                if a.old[0] == 'over':
                    m.over.pop(a.old[1], None)
                else:
                    m.mem.pop(oldad, None)
            s = ms if isinstance(ms, Store) else At(a.where)
            if isfp and not finite(new):
                raise Bad(s, 'a sample that is not finite enters a value that is used for other samples')
            if (len(sam) < 2 or not finite(c[0]) and not finite(c[1])) and not same(float(new), float(ov)):
                raise Bad(s, 'a sample that is not finite changes a value that is used for other samples')
    r.ok('%s: %s' % (key, a.where))


class At:
    def __init__(self, where):
        self.where = where


class M0(M2):
    """everything that is accumulated is zero"""

    def __init__(self, fn, m):
        M2.__init__(self, fn, m.seed)
        self.mem, self.over = dict(m.mem), dict(m.over)

    def load(self, t, ad):
        return Q(0) if t != 'ptr' else M2.load(self, t, ad)

    def fp(self, t):
        if t[0] == 'fld':
            ad = self.poly(t[2])
            if ad not in self.mem:
                return 0.0
        if t[0] == 'fphi' and not nonzero(self.fn, t):
            return 0.0
        return M2.fp(self, t)


def selfdep(s, conds=()):
    for t in [s.val] + [c for c, _ in conds]:
        for a in leaves(t):
            if a[0] == 'fld' and a[2] == s.addr or a[0] == 'ld' and a[2] == s.addr:
                return True
    return False


def p17_factor(r, e, fn, key, m, bases, w, n, s):
    """factors of samples, and what is recorded of them, are finite also if everything that is accumulated is zero"""
    ad = m.poly(s.addr)
    sample = sample_of(bases, ad, w, n) is not None
    meta = argbase(s.addr, 3) is not None
    if not sample and not meta:
        return
    at = sorted({('fld', x[2]) if x[0] == 'fld' else x for x in leaves(s.val) if x[0] == 'fld' and x[2] != s.addr or x[0] == 'fphi'}, key=repr)
    conds = [(c, t) for c, t, b in fn.S.guards(s.bb) if b not in fn.exits and c is not None]
    if len(at) > 7:
        raise Undecided('%s: a factor depends on many values' % s.where)
    m.mem[ad] = 1.0
    try:
        for k in range(2 ** len(at)):
            put, puto = [], []
            for j, x in enumerate(at):
                v = 0.0 if k >> j & 1 else 1.5
                if x[0] == 'fld':
                    a2 = m.poly(x[1])
                    m.mem[a2] = v
                    put.append(a2)
                elif nonzero(fn, x):
                    continue
                else:
                    m.over[x] = v
                    puto.append(x)
            try:
                # conditions that compare other values are not known to hold: assumed
                v = m.fp(s.val)
                known = [(c, t) for c, t in conds if leaves(c) & leaves(s.val)]
                go = all(m.cond(c) == t for c, t in known)
            finally:
                for x in put:
                    m.mem.pop(x, None)
                for x in puto:
                    m.over.pop(x, None)
            if go and not finite(v):
                raise Bad(s, 'a finite sample is scaled by a factor that is not finite' if sample else 'a recorded factor is not finite although the samples are')
        r.count('factors', 1)
        r.ok('%s: %s' % (key, s.where))
    finally:
        m.mem.pop(ad, None)


def nonzero(fn, x):
    """a variable that is never zero is not set to zero: it starts at a constant other than zero and its other values are not known"""
    st = fn.S.starts.get(x[1])
    return isinstance(st, tuple) and st[0] == 'fc' and st[1] != 0.0


def p17_symbols(r):
    mod = num.stochastic()
    fs = [f for f in mod.functions if f.qn.replace('root.', '').split('::')[-1] in ('Encode', 'EncodeWithDithering') and 'StochasticEncoder<float>' in f.dem]
    r.require(len(fs) >= 2, 'encoding functions of the table not found')
    for f in fs:
        fn = Fn(f)
        v = returned(fn)
        if v is None:
            raise Undecided('the returned symbol')
        vt = [k for k, a in enumerate(f.args) if a['t'] == 'float']
        if len(vt) != 1:
            raise Undecided('the argument of %s' % f.dem)
        for size in (3, 15, 255):
            for x in (NAN, INF, -INF):
                m = TableModel(fn, size)
                m.over[('farg', vt[0])] = x
                if m.poly(v) % (1 << 32) != size:
                    r.bad('%s: non-finite' % f.qn.replace('root.', ''), '%s: %r is not encoded as the reserved symbol' % (f.dem, x))
        r.ok('%s: reserved symbol' % f.qn.replace('root.', ''))


# -- tables ---------------------------------------------------------------------------------
FMAX = 3.4028234663852886e+38


def tables_of(mod):
    """offsets of the tables for encoding and decoding: the two dictionaries, in the order in which they are declared"""
    for n, rec in mod.records.items():
        if n.replace('dyscostman::', '').startswith('StochasticEncoder<float'):
            o = [x[1] for x in rec['m'] if x[3].replace('dyscostman::', '') == 'Dictionary']
            if len(o) == 2:
                return o
    raise AnalysisError('the tables of the encoder are not found')


class TableModel(M2):
    """tables of the given size with quantities 0, 1, 2 ... and boundaries 0.5, 1.5 ..."""

    def __init__(self, fn, size, mod=None):
        M2.__init__(self, fn, 'table')
        self.size = size
        enc, dec = tables_of(mod or num.stochastic())
        this = self.atom(('arg', 0))
        self.dict = {}
        for o, vals in ((enc, [j + 0.5 for j in range(size - 1)] + [FMAX]), (dec, [float(j) for j in range(size)] + [NAN])):
            b = self.load('ptr', this + o)
            self.mem[this + o] = b
            self.mem[this + o + 8] = b + 4 * size
            self.dict[this + o] = (b, vals)
            for j, v in enumerate(vals):
                self.mem[b + 4 * j] = v

    def atom_(self, a):
        if a[0] == 'call' and 'Dictionary::lower_bound' in a[1]:
            d, x = self.poly(a[2][0]), self.fp(a[2][1])
            if d not in self.dict:
                raise Undecided('a search in an unknown table')
            b, vals = self.dict[d]
            vals = vals[:self.size]
            return b + 4 * sum(1 for v in vals if v < x)
        return M2.atom_(self, a)
