"""The block buffer: effects of its functions as closed forms, evaluated for all small shapes."""
import re
from vfw import num, build
from vfw.build import AnalysisError
from vfw.scev import Poly, Cant
from numeric import Fn, Q, Undecided, Bad, enumerate_loops, live, returned
from weights import Fold

P = Poly.atom
ROW, VIS, BASE, VBASE = 40, 16, 1 << 34, 1 << 36


def module():
    return num.dump(build.library_units(), [r'^(void |[a-z: ]*)?TimeBlockBuffer<'], [x for x in num.KEEP if 'TimeBlockBuffer' not in x], 'tbuf')


class Known(Fold):
    def load(self, t, ad):
        raise Undecided('a value in memory is not known')


class State:
    """sizes and places of the rows before the call"""

    def __init__(self, np, nc, rows, width):
        self.np, self.nc, self.rows, self.width = np, nc, list(rows), width   # rows: number of values


class Run:
    """the effects of a function on a buffer of a given shape"""

    def __init__(self, b, fn, st, args):
        self.b, self.fn, self.st = b, fn, st
        self.size = len(st.rows)
        self.words = {}         # address of a word -> origin
        self.vec = {}           # row vector address -> number of values
        self.out = None         # size of the output vector
        self.cleared = False
        self.args = args
        self.order = b.order(fn.f)
        self.rank = {x: k for k, x in enumerate(self.order)}
        self.updates = []       # (place, {address: value})
        self.m = m = Known(fn, 5)
        for k, v in args.items():
            m.over[('arg', k)] = Q(v)
        this = args[0]
        m.mem[this + b.np], m.mem[this + b.nc] = st.np, st.nc
        m.mem[this + b.vec], m.mem[this + b.vec + 8] = BASE, BASE + ROW * len(st.rows)
        for i, n in enumerate(st.rows):
            a = BASE + ROW * i
            m.mem[a], m.mem[a + 8] = ((9, 9), (3, 7), (7, 3), (0, 0), (0, 5))[(i + len(st.rows) + st.nc) % 5]
            self.set_row(m.mem, i, n)
        self.base = m.mem

    def set_row(self, mem, i, n):
        a = BASE + ROW * i + VIS
        mem[a] = self.vis(i)
        mem[a + 8] = mem[a + 16] = self.vis(i) + n * self.st.width

    def vis(self, i):
        return VBASE + (i << 16)

    def at(self, b, pos=1 << 30):
        """the model at a place of the function"""
        mem = dict(self.base)
        for (ub, up), u in self.updates:
            if (self.rank[ub], up) < (self.rank[b], pos):
                mem.update(u)
        self.m.mem = mem
        self.m.memo.clear()
        return self.m

    def update(self, u):
        self.updates.append(((self.here.bb, self.here.pos), u))

    def reached(self, b):
        """the block is executed (in this iteration of the loops around it)"""
        if b == 0:
            return True
        fn, S = self.fn, self.fn.S
        for p in fn.f.blocks[b].preds:
            if p not in S.live or p not in self.rank:
                continue
            if b in S.loops and p in S.loops[b]:
                continue
            left = [h for h in S.loopof[p] if h not in S.loopof[b]]
            if left:
                if self.reached(left[-1]):
                    return True
                continue
            if not self.reached(p):
                continue
            t, succ = fn.f.blocks[p].term, fn.f.blocks[p].succ
            if t.op == 'invoke':
                if t.get('unwind') != b:
                    return True
                continue
            if t.op != 'br':
                raise Undecided('a branch is not understood')
            if len(succ) == 1 or p in fn.exits or succ[0] == succ[1]:
                return True
            c = S.cond_of(p)
            if c is None:
                raise Undecided('a condition is not understood')
            if self.at(p).cond(S.leave(c, p, b)) == (succ[0] == b):
                return True
        return False

    def origin(self, m, t, size):
        """origins of the words of a stored value"""
        if isinstance(t, Poly):
            if t == Poly.const(0):
                return [('zero',)] * (size // 4)
            at = list(t.atoms())
            if len(at) == 1 and t == P(at[0]):
                a = at[0]
                if a[0] == 'arg' and size == 8:
                    return [('arg', a[1], 0), ('arg', a[1], 4)]
                if a[0] == 'ld':
                    ad = m.poly(a[2])
                    return [self.words.get(ad + 4 * j, ('mem', ad + 4 * j)) for j in range(size // 4)]
                if a[0] == 'ite':
                    return self.origin(m, a[2] if m.cond(a[1]) else a[3], size)
            if not at:
                return [('const', t)] * (size // 4)
            raise Undecided('a stored value is not understood')
        if t == ('fc', 0.0):
            return [('zero',)] * (size // 4)
        if t[0] == 'fld':
            ad = m.poly(t[2])
            return [self.words.get(ad + 4 * j, ('mem', ad + 4 * j)) for j in range(size // 4)]
        if t[0] == 'fite':
            return self.origin(m, t[2] if m.cond(t[1]) else t[3], size)
        if self.b.convert and size == 8 and t[0] == 'fpext' and t[-1][0] == 'fld':
            return [('mem', m.poly(t[-1][2]))] * 2
        return [('computed',)] * (size // 4)

    def put(self, ad, origins):
        for j, o in enumerate(origins):
            self.words[ad + 4 * j] = o

    def copy(self, dst, src, n):
        if n < 0 or n > 1 << 15 or n.denominator != 1:
            raise Bad(self.here, 'the number of bytes that are copied is %s' % n)
        for j in range(0, int(n), 4):
            self.words[dst + j] = self.words.get(src + j, ('mem', src + j))

    def fill(self, dst, n, val):
        if n < 0 or n > 1 << 13 or n.denominator != 1:
            raise Bad(self.here, 'the number of values that are set is %s' % n)
        w = self.st.width
        one = [self.words.get(val + j, ('mem', val + j)) for j in range(0, w, 4)]
        for j in range(int(n)):
            self.put(dst + j * w, one)

    def begin(self, v, n):
        """start of the values of the row vector at v, after it got n values"""
        if v == self.outvec():
            return None
        i = (v - VIS - BASE) / ROW
        if i.denominator == 1 and i >= 0 and v < BASE + (1 << 20):
            if i >= self.size:
                raise Bad(self.here, 'a row outside of the buffer is used')
            return self.vis(int(i))
        j = self.outrow(v - VIS)
        if j is not None:
            return self.ovis(j)
        raise Undecided('a vector is not understood')

    def outvec(self):
        return self.args.get(1) if self.b.convert else None

    OB, OV = 1 << 38, 1 << 40

    def outrow(self, a):
        if not self.b.convert:
            return None
        i = (a - self.OB) / ROW
        return int(i) if i.denominator == 1 and 0 <= i < 1 << 12 else None

    def ovis(self, i):
        return self.OV + (i << 16)

    def call(self, i, m):
        d = i.cdem or i.callee or ''
        S = self.fn.S
        if d.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.assume', 'llvm.experimental')) or re.match(r'llvm\.(u|s)(max|min)', d):
            return
        a = []
        for x in i.args:
            v = S.use(x, i.bb)
            a.append(v)

        def p(k):
            if not isinstance(a[k], Poly):
                raise Undecided('an argument of a call is not understood')
            return m.poly(a[k])
        if d.startswith(('llvm.memcpy', 'llvm.memmove')):
            return self.copy(p(0), p(1), p(2))
        if d.startswith('llvm.memset'):
            if not isinstance(a[1], Poly):
                raise Undecided('memset')
            z = a[1] == Poly.const(0)
            for j in range(0, int(p(2)), 4):
                self.words[p(0) + j] = ('zero',) if z else ('computed',)
            return
        n = re.sub(r'<[^<>]*>', '', d)
        while re.search(r'<[^<>]*>', n):
            n = re.sub(r'<[^<>]*>', '', n)
        fun = re.match(r'(?:[\w:*&]+ )*([\w:~*]+)\(', n)
        fun = fun.group(1) if fun else n
        if re.search(r'std::(fill_n|__fill_n_a1?)$', fun):
            return self.fill(p(0), p(1), p(2))
        if re.search(r'std::(fill|__fill_a1?)$', fun):
            return self.fill(p(0), (p(1) - p(0)) / self.st.width, p(2))
        if re.search(r'std::(copy|__copy_move_a[12]?|uninitialized_copy)$', fun):
            return (self.copyconv if self.b.convert else self.copy)(p(2), p(0), p(1) - p(0))
        if re.search(r'std::(copy_n|__copy_n(_a)?)$', fun):
            return (self.copyconv if self.b.convert else self.copy)(p(2), p(0), p(1) * self.st.width)
        if fun.startswith('std::vector'):
            f = fun.split('::')[-1]
            v = p(0)
            D = self.args[0] + self.b.vec
            if v == D:
                if f == 'resize':
                    return self.resize(i, p(1))
                if f == 'clear':
                    self.cleared = True
                    return
                if f == 'reserve':
                    return
            elif v == self.outvec():
                if f == 'resize':
                    self.out = p(1)
                    return
                if f == 'reserve':
                    return
            else:
                if f == 'reserve':
                    return
                if f == 'clear':
                    return self.sized(v, 0)
                if f == 'resize':
                    self.begin(v, p(1))
                    return self.sized(v, p(1))
                if f == 'assign':
                    if self.b.convert and ', ' in d.rsplit('(', 1)[-1] and len(a) == 3 and 'unsigned long' not in d.rsplit('(', 1)[-1]:
                        self.copyconv(self.begin(v, None), p(1), p(2) - p(1))
                        return self.sized(v, (p(2) - p(1)) / self.st.width)
                    if 'unsigned long' in d.rsplit('(', 1)[-1]:
                        self.fill(self.begin(v, p(1)), p(1), p(2))
                        return self.sized(v, p(1))
                    self.copy(self.begin(v, None), p(1), p(2) - p(1))
                    return self.sized(v, (p(2) - p(1)) / self.st.width)
        raise Undecided('the call of %s is not understood' % d.split('(')[0][-60:])

    def copyconv(self, dst, src, n):
        if n < 0 or n > 1 << 15:
            raise Bad(self.here, 'the number of bytes that are copied is %s' % n)
        # one double for one float
        for j in range(0, int(n), 4):
            for k in (0, 4):
                self.words[dst + 2 * j + k] = ('mem', src + j)

    def resize(self, i, n):
        if n < self.size:
            raise Bad(i, 'rows are removed')
        if n.denominator != 1 or n > 1000:
            raise Bad(i, 'the number of rows becomes %s' % n)
        u = {self.args[0] + self.b.vec + 8: BASE + ROW * int(n)}
        for k in range(int(self.size), int(n)):
            u[BASE + ROW * k] = u[BASE + ROW * k + 8] = 0
            self.set_row(u, k, 0)
        self.size = n
        self.update(u)

    def sized(self, v, n):
        self.vec[v] = n
        i = (v - VIS - BASE) / ROW
        if i.denominator == 1 and 0 <= i < 1000:
            u = {}
            self.set_row(u, int(i), n)
            self.update(u)

    def run(self):
        fn, f = self.fn, self.fn.f
        eff = [(b, i) for b in self.order if b in fn.S.live for i in f.blocks[b].insts if i.op in ('store', 'call', 'invoke')]
        k = 0
        while k < len(eff):
            nest = tuple(reversed(fn.S.loopof[eff[k][0]]))
            g = [eff[k]]
            # all effects in the same outer loop are followed iteration by iteration
            while nest and k + 1 < len(eff) and tuple(reversed(fn.S.loopof[eff[k + 1][0]]))[:1] == nest[:1]:
                k += 1
                g.append(eff[k])
            k += 1
            self.nest(g, 0)
        return self

    def nest(self, g, depth):
        """effects g, in all iterations of the loops from the given depth"""
        k = 0
        while k < len(g):
            l = tuple(reversed(self.fn.S.loopof[g[k][0]]))[depth:]
            if not l:
                self.one(*g[k])
                k += 1
                continue
            h = l[0]
            e = k
            while e < len(g) and h in self.fn.S.loopof[g[e][0]]:
                e += 1
            T = self.fn.S.trip(h)
            if T is None:
                raise Undecided('the number of iterations of a loop is not known')
            if self.reached(h):
                t = self.at(h).poly(T[0])
                if t.denominator != 1 or t > 5000:
                    raise Bad(g[k][1], 'a loop has %s iterations' % t)
                for j in range(int(t)):
                    self.m.over[('k', h)] = Q(j)
                    self.nest(g[k:e], depth + 1)
                self.m.over.pop(('k', h), None)
            k = e

    def one(self, b, i):
        fn = self.fn
        self.here = i
        if not self.reached(b):
            return
        m = self.at(b, i.pos)
        if i.op == 'call' or i.op == 'invoke':
            return self.call(i, m)
        if (i.get('size') or 0) % 4:
            return
        ad = fn.S.use(i.ops[1], i.bb)
        if not isinstance(ad, Poly):
            raise Undecided('a stored address is not understood')
        self.put(m.poly(ad), self.origin(m, fn.S.use(i.ops[0], i.bb), i.get('size')))


class Buf:
    def __init__(self, mod, ty):
        self.ty = ty
        self.fs = {}
        pre = 'TimeBlockBuffer<%s>::' % ty
        for f in mod.functions:
            d = re.sub(r'^[a-z]+ (?=TimeBlockBuffer)', '', f.dem)
            if d.startswith(pre):
                self.fs.setdefault(d[len(pre):].split('(')[0].split('<')[0], []).append(f)
        self.width = 4 if ty == 'float' else 8
        self.np, self.nc, self.vec = self.layout()
        self.cache = {}

    def fn(self, name):
        l = self.fs.get(name)
        if not l:
            return None
        if name not in self.cache:
            self.cache[name] = Fn(l[0])
        return self.cache[name]

    def layout(self):
        c = self.fs.get('TimeBlockBuffer')
        if not c:
            raise AnalysisError('the constructor of TimeBlockBuffer<%s> was not found' % self.ty)
        f = Fn(c[0])
        got = {}
        for s in f.stores:
            for k in (1, 2):
                if s.val == P(('arg', k)):
                    got[k] = s.addr - P(('arg', 0))
        nums = []
        for k in (1, 2):
            if k not in got or any(got[k].atoms()):
                raise Undecided('the constructor does not keep the dimensions')
            nums.append(int(Fold(f, 1).poly(got[k])))
        free = sorted({0, 8, 16, 24, 32} - set(nums))
        for v in free:
            if v + 8 in free and v + 16 in free:
                return nums[0], nums[1], v
        raise Undecided('the members of the buffer are not understood')

    def order(self, f):
        """blocks in reverse postorder"""
        seen, out = set(), []

        def go(b):
            seen.add(b)
            for s in f.blocks[b].succ:
                if s not in seen:
                    go(s)
            out.append(b)
        go(0)
        return out[::-1]


SHAPES = ((1, 1), (1, 3), (2, 2), (4, 3))
THIS, ARG = 1 << 20, 1 << 30


def rows_of(nv):
    return [[], [nv], [0], [nv, nv], [nv, 0, nv], [0, 0, nv, nv], [0] * 3, [nv] * 5]


def expect(run, what, ad, want, n=1):
    for j in range(n):
        o = run.words.get(ad + 4 * j)
        w = want(j)
        if o is None:
            raise Bad(None, '%s is not set' % what)
        if o != w:
            raise Bad(None, '%s is set to %s instead of %s' % (what, tell(o), tell(w)))


def tell(o):
    if o == ('zero',):
        return 'zero'
    if o[0] == 'arg':
        return 'argument %d' % o[1]
    if o[0] == 'mem':
        a = int(o[1])
        if a < BASE:
            return 'word %d of the data' % ((a - ARG) // 4)
        if a < VBASE:
            return 'antenna %d of row %d' % ((a - BASE) % ROW // 8 + 1, (a - BASE) // ROW)
        return 'word %d of the visibilities of row %d' % ((a & 0xffff) // 4, (a - VBASE) >> 16)
    return 'something else'


def only(run, ok):
    for a in run.words:
        if a < 1 << 42 and a >= ARG and not ok(a):
            raise Bad(None, '%s is changed' % tell(('mem', a)))


def setdata(r, b, fn):
    for np, nc in SHAPES:
        nv = np * nc
        for rows in rows_of(nv):
            for row in (0, 1, 2, 4, 6):
                a1, a2 = ((11, 22), (22, 11), (5, 5))[(row + len(rows)) % 3]
                x = Run(b, fn, State(np, nc, rows, b.width), {0: THIS, 1: row, 2: a1, 3: a2, 4: ARG}).run()
                r.count('cases', 1)
                if x.size != max(len(rows), row + 1):
                    raise Bad(None, 'the buffer has %s rows after row %d of %d was set' % (x.size, row, len(rows)))
                a = BASE + ROW * row
                expect(x, 'antenna 1', a, lambda j: ('arg', 2, 4 * j), 2)
                expect(x, 'antenna 2', a + 8, lambda j: ('arg', 3, 4 * j), 2)
                n = x.vec.get(a + VIS, rows[row] if row < len(rows) else 0)
                if n != nv:
                    raise Bad(None, 'the row has %s instead of %d visibilities' % (n, nv))
                expect(x, 'a visibility', x.vis(row), lambda j: ('mem', ARG + 4 * j), nv * b.width // 4)
                only(x, lambda y: a <= y < a + 16 or x.vis(row) <= y < x.vis(row) + nv * b.width)


def getdata(r, b, fn):
    for np, nc in SHAPES:
        nv = np * nc
        for rows in rows_of(nv):
            for row in (0, 1, 2, 4):
                x = Run(b, fn, State(np, nc, rows, b.width), {0: THIS, 1: row, 2: ARG}).run()
                r.count('cases', 1)
                if row < len(rows) and rows[row]:
                    expect(x, 'a returned value', ARG, lambda j: ('mem', x.vis(row) + 4 * j), nv * b.width // 4)
                else:
                    expect(x, 'a returned value of a row that was not set', ARG, lambda j: ('zero',), nv * b.width // 4)
                only(x, lambda y: ARG <= y < ARG + nv * b.width)


def missing(r, b, fn):
    for np, nc in SHAPES:
        nv = np * nc
        for rows in rows_of(nv):
            for n in (0, 1, 3, 6):
                x = Run(b, fn, State(np, nc, rows, b.width), {0: THIS, 1: n}).run()
                r.count('cases', 1)
                if x.size != max(len(rows), n):
                    raise Bad(None, 'the buffer has %s rows instead of %d' % (x.size, max(len(rows), n)))
                for i in range(int(x.size)):
                    a = BASE + ROW * i
                    if i < len(rows) and rows[i]:
                        only(x, lambda y: not (a <= y < a + ROW or x.vis(i) <= y < x.vis(i) + nv * b.width))
                        if x.vec.get(a + VIS, nv) != nv:
                            raise Bad(None, 'a row that was set is resized')
                        continue
                    expect(x, 'an antenna of a row that was not set', a, lambda j: ('zero',), 4)
                    if x.vec.get(a + VIS, 0) != nv:
                        raise Bad(None, 'a row that was not set has %s instead of %d visibilities' % (x.vec.get(a + VIS, 0), nv))
                    # values of a vector that grows are zero
                    for j in range(nv * b.width // 4):
                        if x.words.get(x.vis(i) + 4 * j, ('zero',)) != ('zero',):
                            raise Bad(None, 'a visibility of a row that was not set is not zero')


def convert(r, b, fn):
    b.convert = True
    try:
        for np, nc in SHAPES:
            nv = np * nc
            for rows in rows_of(nv):
                x = Run(b, fn, State(np, nc, rows, b.width), {0: THIS, 1: THIS + 4096})
                x.m.mem[THIS + 4096] = x.OB
                x.m.mem[THIS + 4104] = x.OB + ROW * len(rows)
                for i in range(len(rows)):
                    x.m.mem[x.OB + ROW * i + VIS] = x.ovis(i)
                    x.m.mem[x.OB + ROW * i + VIS + 8] = x.ovis(i) + 2 * nv * b.width
                x.run()
                r.count('cases', 1)
                if x.out != len(rows):
                    raise Bad(None, 'the converted block has %s instead of %d rows' % (x.out, len(rows)))
                for i in range(len(rows)):
                    a, o = BASE + ROW * i, x.OB + ROW * i
                    for k in (0, 8):
                        expect(x, 'antenna %d' % (k // 8 + 1), o + k, lambda j: ('mem', a + k + 4 * j), 2)
                    if x.vec.get(o + VIS, 0) != rows[i]:
                        raise Bad(None, 'a converted row has %s instead of %d visibilities' % (x.vec.get(o + VIS, 0), rows[i]))
                    for j in range(rows[i] * b.width // 4):
                        expect(x, 'a converted visibility', x.ovis(i) + 8 * j, lambda _: ('mem', x.vis(i) + 4 * j), 2)
    finally:
        b.convert = False


def biggest(r, b, fn):
    t = returned(fn)
    if not isinstance(t, Poly):
        raise Undecided('the returned value is not understood')
    for n in range(0, 4):
        for pat in range(3 ** (2 * n) if n < 3 else 64):
            ants = [(pat // 3 ** j * (1 if n < 3 else 7)) % 3 * 5 for j in range(2 * n)]
            x = Run(b, fn, State(1, 1, [1] * n, b.width), {0: THIS})
            m = x.m
            for i in range(n):
                m.mem[BASE + ROW * i], m.mem[BASE + ROW * i + 8] = ants[2 * i], ants[2 * i + 1]
            r.count('cases', 1)
            v = m.poly(t)
            if v != max(ants, default=0):
                raise Bad(None, 'the largest antenna index of %s is %s' % ([tuple(ants[2 * i:2 * i + 2]) for i in range(n)], v))


def simple(r, b, name, fn):
    for rows in rows_of(2):
        x = Run(b, fn, State(1, 2, rows, b.width), {0: THIS, 1: 3})
        r.count('cases', 1)
        if name == 'Empty':
            t = returned(fn)
            if x.m.cond(t) != (not rows):
                raise Bad(None, 'a buffer with %d rows is %sempty' % (len(rows), '' if rows else 'not '))
        elif name == 'NRows':
            if x.m.poly(returned(fn)) != len(rows):
                raise Bad(None, 'the number of rows is %s instead of %d' % (x.m.poly(returned(fn)), len(rows)))
        elif name == 'operator[]':
            if x.m.poly(returned(fn)) != BASE + 3 * ROW:
                raise Bad(None, 'the address of row 3 is not that of row 3')
        elif name == 'GetVector':
            if x.m.poly(returned(fn)) != THIS + b.vec:
                raise Bad(None, 'another vector is returned')
        elif name == 'ResetData':
            if not x.run().cleared:
                raise Bad(None, 'the rows are not removed')


FUN = [('SetData', setdata), ('GetData', getdata), ('FillMissingRows', missing), ('ConvertVector', convert), ('MaxAntennaIndex', biggest)]


def earlier(fn, a, b):
    """b can be executed after a"""
    return a.bb == b.bb and a.pos < b.pos or fn.reaches(a.bb, b.bb)


def ids(i):
    return [o for o in list(i.ops) + list(i.args) if not isinstance(o, dict)] + [x[0] for x in i.get('inc', []) if not isinstance(x[0], dict)]


def stale(fn):
    """uses, after a change of the size of the rows, of an address in the rows that was loaded before it"""
    f, S = fn.f, fn.S
    for g in f.insts():
        if g.op not in ('call', 'invoke') or not re.match(r'std::vector<TimeBlockBuffer<.*DataRow.*>::(resize|push_back|emplace_back|reserve|insert|clear)', g.cdem):
            continue
        vec = S.use(g.args[0], g.bb)
        old = {i.id for i in f.insts() if i.op == 'load' and S.use(i.ops[0], i.bb) == vec and earlier(fn, i, g)}
        ch = True
        while ch:
            ch = False
            for i in f.insts():
                if i.op in ('getelementptr', 'phi', 'select', 'bitcast', 'freeze') and i.id not in old and any(o in old for o in ids(i)):
                    old.add(i.id)
                    ch = True
        for i in f.insts():
            if i.op in ('load', 'store', 'call', 'invoke') and earlier(fn, g, i) and any(o in old for o in ids(i)):
                if not any(x.op == 'phi' and x.id in ids(i) for x in f.insts() if x.id in old):
                    yield i


def p34_parts(r, names=None):
    mod = module()
    n = 0
    for ty in ('std::complex<float>', 'float'):
        b = Buf(mod, ty)
        b.convert = False
        short = ty.replace('std::', '')
        for name, f in FUN:
            if names and name not in names:
                continue
            fn = b.fn(name)
            if fn is None:
                if name in ('SetData', 'GetData', 'MaxAntennaIndex') or ty != 'float' and name == 'ConvertVector':
                    r.require(False, '%s of TimeBlockBuffer<%s> was not found' % (name, short))
                continue
            guard(r, '%s of %s' % (name, short), 'TimeBlockBuffer<%s>::%s' % (short, name), lambda: whole(r, b, fn, f))
            n += 1
        for name in ('Empty', 'NRows', 'operator[]', 'GetVector', 'ResetData'):
            if names:
                continue
            fn = b.fn(name)
            if fn is not None:
                guard(r, '%s of %s' % (name, short), 'TimeBlockBuffer<%s>::%s' % (short, name), lambda: simple(r, b, name, fn))
                n += 1
    return n


def whole(r, b, fn, f):
    for i in stale(fn):
        raise Bad(i, 'an address in the rows is used after the rows were moved')
    f(r, b, fn)


def guard(r, name, key, f):
    try:
        f()
        r.ok(name)
    except Bad as x:
        r.bad('%s: %s' % (key, re.sub(r'\d+', 'N', x.args[0])), '%s %s: %s' % (getattr(x.s, 'where', ''), key, x))
    except (Undecided, Cant) as x:
        r.undecided(name, '%s' % x)


def p34(r):
    n = p34_parts(r)
    r.require(n >= 12, 'only %d functions of the block buffer were found' % n)
