"""Rules about the storage manager: the file header, the settings, the file positions and the structural
operations (P04, P05, P07, P08, P09, P24, P26, P27, P28), decided on all paths of the member functions."""
import re

from vfw import ap, build, flow, roles, s1, vslot, randint
from vfw.flow import C, NULL, ZERO, split, padd, any_sub, contains
from vfw.ir import AnalysisError

STR = re.compile(r'^(std::(__cxx11::)?basic_string<.*>|casacore::String)$')
STREAM = re.compile(r'^std::(basic_)?[io]?(f|o|i|io)?stream(<.*>)?$|^std::(basic_)?ios(<.*>)?$|^std::ios_base$|^std::basic_[a-z]*stream<.*>$')


class Path:
    __slots__ = ('kind', 'ops', 'mem', 'facts', 'str', 'where', 'user', 'eng', 'st', 'ret')


class Mgr(flow.Rule):
    begin_is_empty = True

    def __init__(self, R, fn):
        self.R, self.fn = R, fn
        self.paths = []
        self.nexts = {}
        self.accs = {}
        self.sites = {}
        self.unk = False

    def keep(self, e, st, f):
        return True

    def tracked(self, e, f):
        return True

    def start(self, e, st):
        st.user['ops'] = ()
        st.user['str'] = ()
        st.user['io'] = ()
        st.user['sets'] = frozenset()

    def on_memop(self, e, st, i, args):
        if i.cdem.startswith('llvm.memset'):
            self.op(st, ('fill', i.id, args[0], 'count', args[2], args[1]))
            self.site(i, 'fill', st, None, args)

    def on_store(self, e, st, i, addr, v, old):
        self.accs.setdefault(addr, set()).add((old, v, i.id))
        if addr[0] == 'gv':
            self.op(st, ('sti', i.id, addr, v))
        b = split(addr)[0]
        if b[0] not in ('al', 'new'):
            f = e.field(addr)
            if f:
                st.user['sets'] = st.user['sets'] | {(f[0], f[1], v, b)}
                self.site(i, 'store', st, f, (v, b))
            else:
                self.site(i, 'store', st, (None, split(addr)[1]), (v, b))

    # ------------------------------------------------------------ strings
    def content(self, st, addr):
        for a, c in st.user['str']:
            if a == addr:
                return c
        return ('strc', addr)

    def setstr(self, st, addr, c):
        d = dict(st.user['str'])
        d[addr] = c
        st.user['str'] = tuple(sorted(d.items(), key=repr))

    def string(self, e, st, i, cls, m, args):
        b = m.split('<')[0].split('[abi')[0]
        if b in ('size', 'length'):
            return ('pure', ('ssize', self.content(st, args[0])))
        if b in ('c_str', 'data') or b in ('operator[]', 'front') and (len(args) < 2 or args[1] == ZERO):
            return ('pure', ('sdata', args[0]))
        if b in ('basic_string', 'String'):
            if len(args) == 1 or 'allocator' in i.cdem and len(args) == 2 and args[1][0] == 'al':
                self.setstr(st, args[0], ('empty',))
                return ('pure', None)
            self.setstr(st, args[0], self.source(e, st, i, args))
            return ('pure', None)
        if b in ('operator=', 'assign'):
            self.setstr(st, args[0], self.source(e, st, i, args))
            return ('pure', args[0])
        if b.startswith('~'):
            return ('pure', None)
        if b in ('empty',):
            return ('pure', ('sempty', self.content(st, args[0])))
        if b in ('resize', 'append', 'push_back', 'operator+=', 'clear', 'insert', 'erase', 'replace'):
            self.setstr(st, args[0], ('u', i.id))
            return None
        return None

    def source(self, e, st, i, args):
        a = args[1]
        if a[0] == 'buf' or a[0] == 'new' or a[0] == 'sdata':
            for x, c in st.user['str']:
                if x == ('buf', a) or a[0] == 'sdata' and x == a[1]:
                    # the whole of what was read
                    if len(args) < 3 or c[0] != 'rdstr' or a[0] == 'sdata' or self.same(args[2], c[2]):
                        return c
        if a[0] == 'sdata':
            return self.content(st, a[1])
        if a[0] in ('glob', '+') and split(a)[0][0] == 'glob':
            return ('lit', a)
        if a[0] in ('c', 'k', 'u', 'r', 'scan', 'find', 'end', 'node', 'vc', 'tr'):
            return ('u', i.id)
        if re.search(r'char const\*', i.cdem) and not re.search(r'String const&|basic_string<char, std::char_traits<char>, std::allocator<char>>( const)?&', i.cdem.split('(', 1)[-1]):
            return ('u', i.id)
        return self.content(st, a)

    def same(self, a, b):
        return strip_w(a) == strip_w(b)

    # ------------------------------------------------------------ streams
    def op(self, st, o):
        if any(x[1] == o[1] for x in st.user['ops']):
            st.user['ops'] = tuple(o if x[1] == o[1] and x[0] == o[0] and x[0] != 'r' else x for x in st.user['ops'])
            if o[0] == 'seek':
                pass
            return
        st.user['ops'] = st.user['ops'] + (o,)

    def sbase(self, t):
        while t[0] == 'gv':
            t = t[1]
        return split(t)[0]

    def io(self, st, s, v=None):
        d = dict(st.user['io'])
        if v is None:
            return d.get(s)
        d[s] = v
        st.user['io'] = tuple(sorted(d.items(), key=repr))

    def stream(self, e, st, i, m, args):
        b = m.split('<')[0]
        s = self.sbase(args[0])
        if self.isstring(e, i):
            return None
        if b == 'write':
            v = self.value(e, st, args[1], args[2], i)
            self.op(st, ('w', i.id, args[2], v, args[1]))
            self.touch(st, s)
            self.site(i, 'write', st, s, args)
            return ('pure', args[0])
        if b == 'read':
            rd = ('rd', i.id)
            e.redefine(st, rd)
            self.op(st, ('r', i.id, args[2], args[1]))
            self.touch(st, s)
            self.site(i, 'read', st, s, args)
            d, o = split(args[1])
            if args[1][0] == 'sdata':
                self.setstr(st, args[1][1], ('rdstr', i.id, args[2]))
            elif d[0] == 'new':
                self.setstr(st, ('buf', args[1]), ('rdstr', i.id, args[2]))
            elif args[2][0] == 'c':
                st.mem = {k: v for k, v in st.mem.items() if not (k[0] == d and o <= k[1] < o + args[2][1])}
                st.mem[(d, o)] = rd
            else:
                e.havoc_obj(st, args[1], i.id)
            return ('pure', args[0])
        if b in ('seekg', 'seekp'):
            pos = args[1]
            wh = args[2] if len(args) > 2 else ZERO
            # a streampos is passed as two values
            self.op(st, ('seek', i.id, b[-1], pos, wh if wh[0] == 'c' else ZERO, 'pos' if len(args) > 2 and 'fpos' in i.cdem else ''))
            self.touch(st, s)
            self.site(i, b, st, s, args)
            return ('pure', args[0])
        if b in ('fail', 'operator!', 'bad', 'good', 'operator bool', 'eof'):
            t = ('sfail', i.id, s, b)
            e.redefine(st, t)
            t = ('eq', t, ZERO)
            return ('pure', flow.mk_not(t) if b in ('fail', 'operator!', 'bad', 'eof') else t)
        if b == 'clear':
            self.op(st, ('clear', i.id))
            now = self.io(st, s)
            self.io(st, s, {'failed': 'cleared', 'unchecked': 'lost'}.get(now, now or 'clean'))
            self.site(i, 'clear', st, s, args)
            return ('pure', None)
        if b in ('tellg', 'tellp'):
            return ('pure', ('r', i.id))
        if b == 'gcount':
            return ('pure', ('gcount', s))
        if b == 'flush':
            self.touch(st, s)
            return ('pure', args[0])
        return None

    def isstring(self, e, i):
        return bool(re.search(r'stringstream', i.cdem.split('(')[0]))

    def touch(self, st, s):
        now = self.io(st, s)
        self.io(st, s, now if now in ('failed', 'lost') else 'unchecked')

    def site(self, i, what, st, s, args):
        self.sites.setdefault((what, i.id), []).append((i, s, args, dict(st.user), frozenset(st.facts.items())))

    def on_assume(self, e, st, t, val):
        if t[0] == 'eq' and t[1][0] == 'sfail' and t[2] == ZERO:
            s, b = t[1][2], t[1][3]
            if b in ('fail', 'operator!', 'good', 'operator bool'):
                # the value of the function is zero
                good = val if b in ('fail', 'operator!') else val
                # terms are built so that 'eq' means success
                if self.io(st, s) != 'lost':
                    self.io(st, s, 'clean' if val else 'failed')

    def value(self, e, st, p, n, i):
        if p[0] == 'sdata':
            return self.content(st, p[1])
        b, o = split(p)
        v = st.mem.get((b, o))
        if v is not None:
            return v
        if b[0] in ('arg', 'm') and e.field(p):
            return e.load(st, p, 8, i)
        return ('?', p)

    # ------------------------------------------------------------ calls
    def on_call(self, e, st, i, nm, args):
        if nm.startswith('bool ') or nm.startswith('void '):
            nm = nm[5:]
        cls, m = e.cls_of(nm)
        if STR.match(cls) and args:
            r = self.string(e, st, i, cls, m, args)
            if r is not None:
                return r
        if STREAM.match(cls) and args:
            if re.match(r'^(basic_)?fstream(<.*>)?$', m):
                self.touch(st, self.sbase(args[0]))
                self.site(i, 'open', st, self.sbase(args[0]), args)
                return None
            r = self.stream(e, st, i, m, args)
            if r is not None:
                return r
        b = m.split('<')[0]
        if b == 'operator[]' and cls.startswith('std::vector<') and len(args) == 2:
            return ('pure', ('elem', args[0], args[1]))
        if b in ('operator[]', 'operator()') and cls == 'casacore::IPosition':
            return ('pure', ('ixp', args[0], args[1]))
        if re.match(r'^std::(__)?fill(_n)?\b', nm) and len(args) >= 3:
            val = st.mem.get(split(args[2]), args[2])
            self.op(st, ('fill', i.id, args[0], 'count' if 'fill_n' in nm else 'end', args[1], val))
            self.site(i, 'fill', st, None, args)
            return None
        if b == '__cxa_throw':
            return None
        # a stream handed to another function
        return self.other(e, st, i, nm, args)

    def other(self, e, st, i, nm, args):
        return None

    def on_vcall(self, e, st, i, tg, args):
        names = {self.R.base(self.R.mod.byname[t]) for t in tg or [] if t in self.R.mod.byname}
        if len(names) == 1:
            n = names.pop()
            self.op(st, ('v', i.id, n, tuple(args)))
            self.site(i, 'v:' + n, st, None, args)
            fs = [self.R.mod.byname[t] for t in tg if t in self.R.mod.byname]
            if all(f.dem.rstrip().endswith(' const') for f in fs) and i.t not in ('void', 'ptr'):
                return ('vc', n) + tuple(args)
            for a in args[1:]:
                if a[0] != 'c' and self.io(st, self.sbase(a)) is not None:
                    self.touch(st, self.sbase(a))
        return None

    def on_next(self, e, st, phi, old, new):
        self.nexts.setdefault(phi.id, set()).add((old, new))

    def on_exit(self, e, st, i, kind):
        p = Path()
        p.kind, p.ops, p.mem, p.facts, p.str = kind, st.user['ops'], dict(st.mem), dict(st.facts), dict(st.user['str'])
        p.where, p.user, p.eng, p.st = i.where, dict(st.user), e, st
        p.ret = e.term(st, i.ops[0]) if kind == 'ret' and i.ops else None
        self.paths.append(p)


def strip_w(t):
    """without conversions"""
    while t[0] == 'tr':
        t = t[2]
    return t


def run(R, fn, rule=None):
    rule = rule or Mgr(R, fn)
    e = flow.Engine(R.mod, R.T, fn, rule)
    e.run()
    return rule, e


# ---------------------------------------------------------------- analysis of all functions
class Data:
    pass


_data = None


def data():
    """all paths of the functions of the manager"""
    global _data
    if _data is None:
        d = _data = Data()
        d.mod = s1.load()
        d.R = roles.Roles(d.mod)
        d.runs = {}
        d.states = 0
    return _data


def analyse(d, fn):
    if fn.name not in d.runs:
        d.runs[fn.name] = run(d.R, fn)
        d.states += d.runs[fn.name][1].visited
    return d.runs[fn.name]


def mgr_roots(d):
    return [f for f in d.mod.functions if d.R.cls(f) == d.R.mgrclass and f.blocks]


def col_roots(d):
    R = d.R
    return [f for f in d.mod.functions if f.blocks and (R.cls(f) in R.colclasses or any(b in R.colclasses for b in R.T.bases(R.cls(f))))]


def concrete(d):
    """column classes that objects are made of"""
    return [c for c in vslot.vtables(d.mod) if any(b in d.R.colclasses for b in d.R.T.bases(c)) and
            not any('__cxa_pure_virtual' in (s or '') for s in vslot.vtables(d.mod)[c])]


def method(d, cls, name):
    for s in vslot.vtables(d.mod)[cls]:
        f = d.mod.byname.get(s)
        if f is not None and d.R.base(f) == name:
            return f
    return None


def loops(e):
    """instructions that are in a loop"""
    fn = e.fn
    inloop = set()
    for b, h in e.header:
        body, todo = {h}, [b]
        while todo:
            x = todo.pop()
            if x in body:
                continue
            body.add(x)
            todo += fn.blocks[x].preds
        inloop |= body
    return {i.id for b in inloop for i in fn.blocks[b].insts}


def nops(f, what):
    n = 0
    for i in f.calls():
        if re.match(r'^std::(basic_)?%s(<.*>)?::%s$' % ('ostream' if what == 'write' else 'istream', what), ap.strip_args(i.cdem)):
            n += 1
    return n


def occurrences(t, k):
    if not isinstance(t, tuple):
        return 0
    return int(t[:1] == (k,)) + sum(occurrences(x, k) for x in t if isinstance(x, tuple))


def ordered(p, lp):
    """header operations before, in and after the loop over the columns"""
    a, b, c = [], [], []
    for o in p.ops:
        if o[0] in ('w', 'r', 'seek') or o[0] == 'v':
            if o[1] in lp:
                b.append(o)
            elif b and any(x[0] in ('w', 'r') for x in b):
                c.append(o)
            else:
                a.append(o)
    return a, b, c


class Writer:
    pass


def header_writers(d):
    """functions that write the header: (function, engine, [Writer per path])"""
    out = []
    for f in mgr_roots(d):
        if nops(f, 'write') < 6:
            continue
        rule, e = analyse(d, f)
        lp = loops(e)
        entry = f in d.R.entries
        ws = []
        for p in rule.paths:
            if p.kind != 'ret':
                continue
            w = Writer()
            w.p, w.e = p, e
            w.fixed, w.loop, w.after = ordered(p, lp)
            w.seek = [o for o in w.fixed if o[0] == 'seek']
            w.ops = [o for o in w.fixed if o[0] == 'w']
            w.cops = [o for o in w.loop if o[0] == 'w' or o[0] == 'v' and any(split(a)[0] in dict(p.user['io']) for a in o[3][1:])]
            if w.ops:
                ws.append(w)
        if not ws:
            continue
        if not entry and (not any(w.seek for w in ws) or not any(w.cops for w in ws)):
            continue        # a part of the work
        out.append((f, e, ws, rule))
    return out


def header_readers(d):
    out = []
    for f in mgr_roots(d):
        if nops(f, 'read') < 6:
            continue
        rule, e = analyse(d, f)
        lp = loops(e)
        rs = []
        for p in rule.paths:
            if p.kind != 'ret':
                continue
            w = Writer()
            w.p, w.e = p, e
            w.fixed, w.loop, w.after = ordered(p, lp)
            w.ops = [o for o in w.fixed if o[0] == 'r']
            w.cops = [o for o in w.loop if o[0] in ('r', 'seek') or o[0] == 'v' and any(split(a)[0] in dict(p.user['io']) for a in o[3][1:])]
            w.others = rs
            if w.ops:
                rs.append(w)
        if not rs or f not in d.R.entries:
            continue
        out.append((f, e, rs, rule))
    return out


def w_(t):
    return t[1] if t[0] == 'c' else None


def sum_terms(ts):
    r = C(0)
    for t in ts:
        r = ('add', r, t)
    return r


def members(e, p, val):
    """members of the object whose value at the end of the path is this term"""
    out = set()
    v = strip_w(val)
    if v[0] == 'm' and v[1] == ('arg', 0) and len(v) == 3 and (v[1], v[2]) not in p.mem:
        out.add(v[2])
    if v[0] == 'strc':
        b, o = split(v[1])
        if b == ('arg', 0):
            out.add(o)
    for (b, o), x in p.mem.items():
        if b == ('arg', 0) and x[0] != 'c' and strip_w(x) == v:
            out.add(o)
    for a, x in p.str.items():
        b, o = split(a)
        if b == ('arg', 0) and x == v:
            out.add(o)
    return out


def mname(d, e, off):
    f = e.field(padd(('arg', 0), off))
    return f[1] if f else str(off)


def width_of(d, e, off):
    t = e.btype(('arg', 0))
    path, mt, rest = d.R.T.member(t, off)
    sz = {'double': 8, 'float': 4, 'unsigned int': 4, 'int': 4, 'unsigned long': 8, 'bool': 1, 'unsigned char': 1, 'unsigned short': 2, 'long': 8}
    return mt, sz.get(mt)


def compare_fields(d, r, prop, label, e, w, we, wops, rops, p, strict=True):
    """the sequence of values that are read is the one that is written; returns {op index: read term}"""
    if len(wops) != len(rops):
        r.bad('%s: number of header fields' % label, '%d values are written to the header (%s) but %d are read' % (len(wops), label, len(rops)))
        return None
    rds = {}
    for k, (a, b) in enumerate(zip(wops, rops)):
        if a[0] == 'v' or b[0] == 'v':
            continue
        rds[k] = ('rd', b[1])
        aw, bw = a[2], b[2]
        if aw[0] == 'c' and bw[0] == 'c':
            r.check(aw == bw, '%s: width of header field %d' % (label, k), 'field %d of the header is written with %d bytes but read with %d' % (k, aw[1], bw[1]) if aw != bw else '%d bytes' % aw[1])
            continue
        ok = None
        src = strip_w(bw)
        if src[0] == 'rd':
            for q in range(k):
                if rds.get(q) == src:
                    ok = strip_w(wops[q][3]) == strip_w(aw)
        if ok is None and aw[0] != 'c':
            # a function of the values that were read before
            try:
                ok = True
                for seed in range(8):
                    we_ = randint.Env(w.e, seed, small=20)
                    re_ = randint.Env(e, seed, {rds[x]: we_.value(wops[x][3]) & ((1 << 8 * wops[x][2][1]) - 1) for x in range(k) if x in rds and wops[x][2][0] == 'c'}, small=20)
                    if we_.value(aw) != re_.value(bw):
                        ok = False
            except randint.Unknown:
                ok = None
        if ok is None:
            if aw[0] == 'c' or bw[0] == 'c':
                ok = False
            else:
                r.undecided(label, 'length of header field %d' % k)
                continue
        r.check(ok, '%s: width of header field %d' % (label, k), 'the length of field %d that is read is not the length that was recorded when it was written' % k if not ok else 'recorded length')
    return rds


def meaning(d, r, label, w, p, we, e, wops, rops, rds, skip):
    """values are restored to the members they were taken from"""
    restored = {}
    for k, (a, b) in enumerate(zip(wops, rops)):
        if a[0] == 'v' or k in skip or k not in rds:
            continue
        v = strip_w(a[3])
        if v[0] in ('c', 'size', 'ssize'):
            continue
        mw = members(we, w.p, a[3])
        rd = rds[k]
        mr = {o for (bb, o), x in p.mem.items() if bb == ('arg', 0) and strip_w(x) == rd}
        mr |= {split(aa)[1] for aa, x in p.str.items() if split(aa)[0] == ('arg', 0) and x[0] == 'rdstr' and x[1] == rd[1]}
        if not mw:
            if v[0] in ('u', '?'):
                r.undecided(label, 'meaning of header field %d' % k)
                continue
        nm = ', '.join(sorted(mname(d, we, o) for o in mw)) or 'computed value'
        if not mr and v[0] in ('strc',) and any(split(aa)[0] == ('arg', 0) and x[0] not in ('rdstr', 'strc') for aa, x in p.str.items()):
            r.undecided(label, 'meaning of header field %d (%s)' % (k, nm))
            continue
        if not mr:
            r.bad('%s: header field %s is not restored' % (label, nm), 'field %d of the header holds %s, but when the table is opened the value that is read is not stored in that member' % (k, nm))
            continue
        ok = bool(mw & mr)
        r.check(ok, '%s: header field %s is restored' % (label, nm),
                'field %d of the header holds %s but is restored as %s' % (k, nm, ', '.join(sorted(mname(d, e, o) for o in mr))) if not ok else 'field %d' % k)
        for o in mw & mr:
            restored[o] = k
            mt, sz = width_of(d, we, o)
            n = w_(a[2])
            if n is not None and sz is not None and n < sz and not small_member(d, o):
                r.check(sz == 8 and mt != 'double' and a[3][0] == 'tr' and n == 4 and label != d.R.mgr, '%s: width of %s' % (label, nm),
                        '%s (%s) is stored in %d bytes' % (nm, mt, n))
            if a[3][0] == 'tr' and n is not None and int(a[3][1][1:]) < 8 * n and not small_member(d, o):
                r.bad('%s: %s is cut off' % (label, nm), '%s is reduced to %s before it is written' % (nm, a[3][1]))
            x = p.mem.get((('arg', 0), o))
            if x is not None and x[0] == 'tr' and n is not None and int(x[1][1:]) < 8 * n:
                r.bad('%s: %s is cut off' % (label, nm), '%s is reduced to %s after it was read' % (nm, x[1]))
    return restored


def small_member(d, off):
    """bit counts are at most 16 (P03)"""
    return off in bit_members(d)


def bit_members(d):
    """members of the manager that configure the bit count of columns"""
    if not hasattr(d, 'bits'):
        d.bits = set()
        for f in mgr_roots(d):
            if d.R.base(f) != 'prepare':
                continue
            rule, e = analyse(d, f)
            for (what, iid), l in rule.sites.items():
                if what != 'store':
                    continue
                for y in l:
                    if y[1][0] != d.R.mgr:
                        x = strip_w(y[2][0])
                        if x[0] == 'm' and x[1] == ('arg', 0):
                            d.bits.add(x[2])
    return d.bits


def header(r, prop):
    d = data()
    R = d.R
    writers, readers = header_writers(d), header_readers(d)
    r.require(writers, 'no function that writes the file header was found')
    r.require(readers, 'no function that reads the file header was found')
    n = 0
    restored = {}
    # bytes of the part of each column
    extra = extra_headers(d, r, prop)
    for f, e, rs, rrule in readers:
        for wf, we, ws, wrule in writers:
            label = R.mgr
            done = set()
            for w in ws:
                if w.seek:
                    s = w.seek[0]
                    r.check(w.fixed.index(s) < w.fixed.index(w.ops[0]) and s[3] == ZERO and s[4] == ZERO, '%s: position of the header' % R.label(wf),
                            'the header is not written at the start of the file')
                else:
                    r.bad('%s: position of the header' % R.label(wf), 'the header is written without moving to the start of the file')
                kw = tuple((o[2], o[3]) for o in w.ops)
                for q in rs:
                    kr = tuple((o[1], o[2]) for o in q.ops)
                    key = (kw, kr, len(w.cops), len(q.cops), tuple(sorted(q.p.mem.items(), key=repr)))
                    if key in done:
                        continue
                    done.add(key)
                    rds = compare_fields(d, r, prop, label, e, w, we, w.ops, q.ops, q.p)
                    n += 1
                    if rds is None:
                        continue
                    off = column_offset(d, r, w, q, e, we, rds, rrule, label)
                    skip = {off} if off is not None else set()
                    res = meaning(d, r, label, w, q.p, we, e, w.ops, q.ops, rds, skip)
                    restored.setdefault('all', []).append(set(res))
                    sizes(d, r, w, q, we, e, rds, off, res, extra, label, rrule, wrule)
    c = getattr(d, 'counted', set())
    if c and 'many' not in c:
        r.bad('%s: recorded header size, next column' % R.mgr, 'the recorded header size does not grow with every column, so that blocks overwrite the column headers')
    r.count('pairs of writing and reading paths', n)
    r.count('states', d.states)
    return d, writers, readers, restored


def offset_field(q, rrule):
    sk = [o for o in q.cops if o[0] == 'seek']
    if not sk:
        return None
    pos = strip_w(sk[0][3])
    if pos[0] == 'u':
        for old, new in rrule.nexts.get(pos[1], ()):
            if strip_w(old)[0] == 'rd':
                pos = strip_w(old)
    rds = [('rd', o[1]) for o in q.ops]
    return rds.index(pos) if pos in rds else None


def column_offset(d, r, w, q, e, we, rds, rrule, label):
    """index of the field that holds the position of the column headers"""
    sk = [o for o in q.cops if o[0] == 'seek']
    if not q.cops or not sk:
        # without columns the field is not used: it is the one that the other paths use
        ks = {offset_field(o, rrule) for o in q.others}
        ks.discard(None)
        return list(ks)[0] if len(ks) == 1 else None
    pos = strip_w(sk[0][3])
    if pos[0] == 'u':
        # later iterations: look at the start of the loop
        for old, new in rrule.nexts.get(pos[1], ()):
            if strip_w(old)[0] == 'rd':
                pos = strip_w(old)
    if pos[0] != 'rd' or pos not in rds.values():
        r.undecided(label, 'position of the first column header')
        return None
    k = [x for x, v in rds.items() if v == pos][0]
    total = sum_terms([o[2] for o in w.ops])
    eq = randint.equal(we, w.ops[k][3], we, total, small=20)
    if eq is None:
        r.undecided(label, 'value of the position of the column headers')
    else:
        r.check(eq, '%s: recorded position of the column headers' % label, 'the recorded position of the column headers is not the number of bytes that are written before them')
    return k


def sizes(d, r, w, q, we, e, rds, off, res, extra, label, rrule, wrule):
    if not w.cops:
        return
    if not q.cops:
        return
    wr = [o for o in w.cops]
    rr = [o for o in q.cops if o[0] != 'seek']
    sk = [o for o in q.cops if o[0] == 'seek']
    kinds = lambda l: [o[0] == 'v' for o in l]
    if kinds(wr) != kinds(rr):
        r.bad('%s: sequence of the column headers' % label, 'the values of a column header are written and read in a different sequence')
        return
    crds = compare_fields(d, r, None, label + ' column', e, w, we, wr, rr, q.p)
    if crds is None:
        return
    # recorded size
    step = None
    if sk:
        # the positions on all visits, and how what holds them changes
        seen = {strip_w(x[2][1]) for x in rrule.sites.get(('seekg', sk[0][1]), [])}
        first = [t for t in seen if t[0] == 'rd']
        ups = [(old, new) for l in rrule.nexts.values() for old, new in l] + \
              [(old, new) for l in rrule.accs.values() for old, new, _ in l if old is not None] + [(None, t) for t in seen]
        for old, new in ups:
            if new[0] == 'add' and len(new) >= 3:
                xs = [strip_w(x) for x in new[1:3]]
                rest = [x for x in xs if x not in crds.values()]
                if len(rest) == 1 and (old is None or rest[0] == strip_w(old)) and (rest[0] in seen):
                    step = [k for k, v in crds.items() if v in xs][0]
        if step is None:
            if seen == set(first):
                r.bad('%s: position of the next column header' % label, 'the position of the next column header is not moved by the recorded size of a column header')
            else:
                r.undecided(label, 'position of the next column header')
            return
        r.ok('%s: the next column header is found with the recorded size' % label)
    calls = [o for o in wr if o[0] == 'v']
    for cls in concrete(d):
        b = extra.get(cls)
        if b is None:
            continue
        nbytes, esize = b
        total = sum_terms([o[2] for o in wr if o[0] == 'w'] + [C(nbytes)] * len(calls))
        bind = {}
        for o in list(w.p.ops):
            if o[0] == 'v':
                bind[('vc', o[2]) + tuple(o[3])] = esize if o[2] == 'ExtraHeaderSize' else None
        bind = {k: v for k, v in bind.items() if v is not None}
        if step is not None:
            val = subst(wr[step][3], bind)
            eq = randint.equal(we, val, we, total)
            if eq is None:
                r.undecided(label, 'recorded size of a column header')
            else:
                r.check(eq, '%s: recorded size of the header of %s' % (label, ap.short(cls)), 'the recorded size of a column header is not the number of bytes that are written for it')
        # the blocks start after the headers
        hs = header_size(d, w, res)
        if hs is None:
            continue
        k, val = hs
        v = strip_w(val)
        if v[0] == 'm':
            ok = any(not y and x[0] == 'eq' and x[2] == ZERO and x[1][0] == 'm' and fld2(we, x[1]) in d.R.mgrwritten for x, y in w.p.facts.items())
            r.check(ok, '%s: header size of a file without blocks' % label, 'the recorded header size is not computed although the file has no blocks')
            continue
        n = occurrences(val, 'vc')
        many = n > 1 or any(t[0] == 'u' for t in subterms(val))
        d.counted = getattr(d, 'counted', set()) | {'many' if many or not n and any(t[0] == 'mul' for t in subterms(val)) else n}
        if any(t[0] == 'u' for t in subterms(val)):
            # more columns: the change in every iteration
            ups = steps(we, wrule, val)
            if not ups:
                r.undecided(label, 'recorded header size')
            for rest in ups:
                eq = randint.atleast(we, vcs(sum_terms(rest), esize), total, small=12) if rest is not None else None
                if eq is None:
                    r.undecided(label, 'recorded header size')
                else:
                    r.check(eq, '%s: recorded header size, next column' % label, 'the recorded header size is not increased by at least the size of the header of a column, so that blocks overwrite the column headers')
            continue
        bnd = {('size', x): n for x in [t[1] for t in subterms(val) if t[0] == 'size']}
        if not n and bnd:
            continue        # a product with the number of columns
        eq = randint.atleast(we, subst(val, bind), sum_terms([o[2] for o in w.ops] + [total] * n), bind=bnd, small=12)
        if eq is None:
            r.undecided(label, 'recorded header size')
        else:
            r.check(eq, '%s: recorded header size' % label, 'the recorded header size is less than the number of bytes that are written for the header and the column headers, so that blocks overwrite it')


def expand(e, t):
    """what an unknown value stands for"""
    out, todo, seen = set(), [t], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        y = strip_w(x)
        if y[0] == 'u' and y in e.olds:
            todo += list(e.olds[y])
        elif y[0] != 'u':
            out.add(x)
    return out


def steps(e, rule, val):
    """by how much an accumulated value changes in an iteration: lists of addends"""
    ups = set()
    lp = loops(e)
    for t in addends(val):
        if t[0] != 'u':
            continue
        todo, group = [t], {t}
        pairs = set()
        while todo:
            x = todo.pop()
            if x[1] == 'stale':
                l = {(old, new) for old, new, iid in rule.accs.get(padd(*x[2]), ()) if iid in lp and old is not None}
            else:
                l = set(rule.nexts.get(x[1], ()))
                for phi, q in rule.nexts.items():
                    if any(strip_w(o) == x or strip_w(n) == x for o, n in q):
                        l |= q
                        if ('u', phi) not in group:
                            group.add(('u', phi))
                            todo.append(('u', phi))
            pairs |= l
            for old, new in l:
                for y in (strip_w(old), strip_w(new)):
                    if y[0] == 'u' and y not in group:
                        group.add(y)
                        todo.append(y)
        starts = group | {o for o, n in pairs} | {n for o, n in pairs}
        for old, new in pairs:
            for x in (expand(e, new) if strip_w(new)[0] == 'u' else {new}):
                ups.add(diff(x, [old] + sorted(starts, key=repr)))
    return ups


def diff(new, olds):
    """the addends of a value that are not in one of the other values"""
    a = addends(new)
    for o in olds:
        rest = list(a)
        try:
            for x in addends(o):
                rest.remove(x)
        except ValueError:
            continue
        if o != new or len(olds) == 1:
            return tuple(rest)
    # an unrelated value: it does not accumulate
    return None if any(x[0] == 'u' for x in a) else ()


def vcs(t, n):
    if t[:2] == ('vc', 'ExtraHeaderSize'):
        return C(n)
    return tuple(vcs(x, n) if isinstance(x, tuple) else x for x in t)


def addends(t):
    if t[0] == 'tr':
        return addends(t[2])
    if t[0] == 'add':
        return addends(t[1]) + addends(t[2])
    return [t]


def subterms(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


def subst(t, m):
    if t in m:
        v = m[t]
        return C(v) if isinstance(v, int) else v
    if isinstance(t, tuple):
        return tuple(subst(x, m) if isinstance(x, tuple) else x for x in t)
    return t


def fld2(e, t):
    f = e.field(padd(t[1], t[2]))
    return (f[0], f[1]) if f else None


def header_size(d, w, res):
    """the field that tells where the blocks start"""
    m = position_members(d)
    for o, k in res.items():
        if mname(d, w.e, o) in m['base']:
            return k, w.ops[k][3]
    return None


def position_members(d):
    """members of the manager in the position of a block: added and multiplied by the block number"""
    if not hasattr(d, 'posm'):
        base, mul = set(), set()
        for f in mgr_roots(d):
            if not (nops(f, 'write') == 1 or nops(f, 'read') == 1):
                continue
            rule, e = analyse(d, f)
            for p in rule.paths:
                for o in p.ops:
                    if o[0] == 'seek':
                        for t in subterms(o[3]):
                            if t[0] == 'm' and t[1] == ('arg', 0):
                                x = e.field(padd(t[1], t[2]))
                                inmul = any(y[0] == 'mul' and contains(y, t) for y in subterms(o[3]))
                                (mul if inmul else base).add(x[1])
        d.posm = {'base': base, 'mul': mul}
    return d.posm


def extra_headers(d, r, prop):
    """per class: bytes of the extra header that are written, and the announced size"""
    R = d.R
    out = {}
    for cls in concrete(d):
        w, q, s = method(d, cls, 'SerializeExtraHeader'), method(d, cls, 'UnserializeExtraHeader'), method(d, cls, 'ExtraHeaderSize')
        if w is None or q is None:
            r.undecided(ap.short(cls), 'functions of the column header')
            continue
        label = ap.short(cls) + ' header'
        wr, we = analyse(d, w)
        qr, qe = analyse(d, q)
        es = 0
        if s is not None:
            sr, se = analyse(d, s)
            rets = {p.ret for p in sr.paths if p.kind == 'ret'}
            if len(rets) != 1 or list(rets)[0][0] != 'c':
                r.undecided(label, 'size of the extra header')
                continue
            es = list(rets)[0][1]
        tot = set()
        for p in wr.paths:
            if p.kind != 'ret':
                continue
            wops = [o for o in p.ops if o[0] == 'w']
            if any(o[2][0] != 'c' for o in wops):
                tot.add(None)
                continue
            tot.add(sum(o[2][1] for o in wops))
            wp = Writer()
            wp.p = p
            for z in qr.paths:
                if z.kind != 'ret':
                    continue
                rops = [o for o in z.ops if o[0] == 'r']
                rds = compare_fields(d, r, prop, label, qe, wp, we, wops, rops, z)
                if rds is not None:
                    meaning(d, r, label, wp, z, we, qe, wops, rops, rds, ())
        if len(tot) != 1 or None in tot:
            r.undecided(label, 'bytes of the extra header')
            continue
        out[cls] = (list(tot)[0], es)
    return out


ASSUME = ['stream operations behave as the C++ standard prescribes; sizes and counts are below 2^31',
          'two terms are taken to be equal when they agree for several random values of their atoms']


def p04(r):
    r.assumptions += ASSUME
    d, writers, readers, restored = header(r, 'P04')
    for f, e, rs, rule in readers:
        # the columns are visited in the same order
        order_of_columns(d, r, readers, writers)
    r.require(len(r.obligations) >= 25, 'only %d obligations' % len(r.obligations))


def order_of_columns(d, r, readers, writers):
    for f, e, l, rule in readers + writers:
        start, step = set(), set()
        for q in l:
            for o in q.cops:
                if o[0] == 'v':
                    t = o[3][0]
                    for x in subterms(t):
                        if x[0] == 'elem':
                            if x[2][0] == 'c':
                                start.add(x[2][1])
                            else:
                                for old, new in rule.nexts.get(x[2][1], ()) if x[2][0] == 'u' else ():
                                    if old[0] != 'c':
                                        step.add(new == ('add', old, C(1)))
        r.check(start <= {0} and step <= {True}, '%s: order of the columns' % d.R.label(f), 'the headers of the columns are not processed from the first to the last column')


def p05(r):
    r.assumptions += ASSUME
    d, writers, readers, restored = header(r, 'P05')
    R = d.R
    common = None
    for s in restored.get('all', []):
        common = s if common is None else common & s
    common = common or set()
    prep = [f for f in mgr_roots(d) if R.base(f) == 'prepare']
    r.require(prep, 'no function that prepares the columns')
    used = 0
    for f in prep:
        rule, e = analyse(d, f)
        for (what, iid), l in sorted(rule.sites.items(), key=str):
            if what.startswith('v:') or what == 'store':
                i, s, args, u, fa = l[0]
                for a in args:
                    a = strip_w(a) if isinstance(a, tuple) else a
                    if isinstance(a, tuple) and a[0] == 'm' and a[1] == ('arg', 0) and len(a) == 3:
                        x = e.field(padd(a[1], a[2]))
                        if x and x[0] == R.mgr and what.startswith('v:') or what == 'store' and s[0] != R.mgr:
                            used += 1
                            r.check(a[2] in common, 'setting %s is restored' % x[1],
                                    'the columns are prepared with %s (%s), which is not restored from the header when a table is opened' % (x[1], i.where))
        # the layout of the blocks is used
        mul = position_members(d)['mul']
        for p in rule.paths:
            if p.kind != 'ret':
                continue
            known = [y for x, y in p.facts.items() if x[0] == 'eq' and x[2] == ZERO and x[1][0] == 'm' and x[1][1] == ('arg', 0) and
                     mname(d, e, x[1][2]) in layout_members(d)]
            laid = any(s[0] == R.mgr and s[1] in mul for s in p.user['sets'])
            if known and not known[-1]:
                r.check(laid, '%s: layout of the blocks of an existing table' % R.label(f), 'a table with a known number of rows per block is prepared without telling this to the columns (%s)' % p.where)
            elif known:
                pass
            elif not laid:
                r.bad('%s: layout of the blocks of an existing table' % R.label(f), 'the columns of a table can be prepared without the layout of the blocks that was restored')
    r.count('settings used by prepare', used)
    r.require(used >= 4, 'only %d settings are passed to the columns' % used)


def layout_members(d):
    """members of the manager that hold arguments of the size of a block"""
    if not hasattr(d, 'laym'):
        d.laym = set()
        for f in mgr_roots(d):
            if d.R.base(f) != 'prepare':
                continue
            rule, e = analyse(d, f)
            for p in rule.paths:
                for x in p.facts:
                    if x[0] == 'eq' and x[2] == ZERO and x[1][0] == 'm' and x[1][1] == ('arg', 0):
                        d.laym.add(mname(d, e, x[1][2]))
        d.laym -= {mname(d, None, o) for o in ()}
        for o in bit_members(d):
            f = [g for g in mgr_roots(d) if d.R.base(g) == 'prepare'][0]
            d.laym.discard(mname(d, analyse(d, f)[1], o))
    return d.laym


def p07(r):
    r.assumptions += ASSUME
    d = data()
    R = d.R
    writers, readers = header_writers(d), header_readers(d)
    r.require(writers and readers, 'the functions that write and read the header were not found')
    n = 0
    always = None
    for wf, we, ws, wrule in writers:
        for w in ws:
            c = {(k, strip_w(o[3])) for k, o in enumerate(w.ops) if strip_w(o[3])[0] == 'c'}
            always = c if always is None else always & c
    for f, e, rs, rrule in readers:
        for wf, we, ws, wrule in writers:
            done = set()
            for w in ws:
                kw = tuple((o[2], o[3]) for o in w.ops)
                if kw in done:
                    continue
                done.add(kw)
                for q in rs:
                    if len(w.ops) != len(q.ops):
                        r.bad('%s: number of header fields' % R.mgr, 'the header is read with another number of fields than it is written')
                        continue
                    consts = 0
                    for k, o in enumerate(w.ops):
                        rd = ('rd', q.ops[k][1])
                        v = strip_w(o[3])
                        if (k, v) in always:
                            consts += 1
                            n += 1
                            r.check(holds(q, rd, v), '%s: version field %d' % (R.label(f), k),
                                    'a table whose header has another value than %d in field %d (format version) can be opened (path to %s)' % (v[1], k, q.p.where))
                        elif v[0] == 'size':
                            n += 1
                            r.check(holds(q, rd, v), '%s: number of columns' % R.label(f), 'a table with another number of columns than recorded in its header can be opened')
                    r.require(consts, 'the header has no version')
                    # reading failed
                    last = max((x for x in range(len(q.p.ops)) if q.p.ops[x][0] == 'r' and q.p.ops[x] in q.ops), default=None)
        for q in rs:
            bad = [v for s, v in q.p.user['io'] if v != 'clean' and q.p.mem.get((('arg', 0), d.R.mgroff[d.R.stream[1]])) == s]
            n += 1
            r.check(not bad, '%s: incomplete header' % R.label(f), 'a table can be opened although its header could not be read completely')
    r.count('paths', sum(len(rs) for f, e, rs, _ in readers))
    r.require(n >= 6, 'only %d obligations' % n)


def holds(q, a, b):
    """equality is known to hold at the end of the path"""
    e = q.e
    for x, y in q.p.facts.items():
        if x[0] == 'eq' and y:
            p, s = strip_w(x[1]), strip_w(x[2])
            if (p, s) in ((a, b), (b, a)):
                return True
    return False


def is_stream_call(i):
    return bool(re.match(r'^std::(basic_)?[io]?f?stream(<.*>)?::', ap.strip_args(i.cdem))) and not re.search('stringstream', i.cdem.split('(')[0])


def p09(r):
    r.assumptions += ASSUME
    d = data()
    R = d.R
    n = 0
    for f in mgr_roots(d) + [g for g in col_roots(d) if R.base(g) in ()]:
        has = any(is_stream_call(i) for i in f.calls())
        if not has or R.is_dtor(f):
            continue
        if f not in R.entries:
            # parts of entry functions are judged there; what others call is judged here
            mine = {(i.where, i.cdem) for i in f.calls() if is_stream_call(i) and '::seek' in i.cdem}
            if not any((i.where, i.cdem) in mine for g in d.mod.functions if g.blocks and R.cls(g) != R.mgrclass for i in g.calls()):
                continue
        rule, e = analyse(d, f)
        for p in rule.paths:
            if p.kind != 'ret':
                continue
            for s, v in p.user['io']:
                if s[0] == 'arg':
                    continue        # the caller has the stream
                cur = p.mem.get((('arg', 0), R.mgroff[R.stream[1]]))
                if cur is not None and s != cur and s[0] == 'new':
                    continue        # replaced by another stream
                if s[0] not in ('m', 'new', 'v'):
                    continue
                n += 1
                if v == 'cleared':
                    tolerated(d, r, f, rule, e, p)
                    continue
                r.check(v == 'clean', '%s: failures are reported' % R.label(f),
                        'the function may return normally (%s) although an operation on the file failed%s' % (p.where, {'unchecked': ' without anyone looking', 'lost': ': the error state is reset without having been looked at', 'failed': ' and this was noticed'}.get(v, '')))
    r.count('states', d.states)
    r.require(n >= 8, 'only %d obligations' % n)


def tolerated(d, r, f, rule, e, p):
    """a failed read is only accepted for the last block, and the rest of the buffer is cleared"""
    R = d.R
    nb = list(R.mgrwritten)
    ok = False
    reads = [o for o in p.ops if o[0] == 'r']
    seeks = [o for o in p.ops if o[0] == 'seek']
    for x, y in p.facts.items():
        if x[0] == 'eq' and y or x[0] in ('ult',) :
            a, b = strip_w(x[1]), strip_w(x[2])
            for u, v in ((a, b), (b, a)):
                if u[0] in ('m', 'v') and (fld2(e, u) in R.mgrwritten):
                    # v + 1 == count: v is the number of the block in the position
                    if x[0] == 'eq' and v[0] == 'add' and v[2] == C(1) and any(contains(o[3], v[1]) for o in seeks):
                        ok = True
                    if x[0] == 'ult' and (v[0] == 'add' and v[2] == C(1) and any(contains(o[3], v[1]) for o in seeks)) and y is False and x[1] == v:
                        ok = True       # count <= block + 1
                if v[0] == 'add' and v[2] == C((1 << 64) - 1) and v[1][0] in ('m', 'v') and fld2(e, v[1]) in R.mgrwritten and x[0] == 'eq' and any(contains(o[3], u) for o in seeks):
                    ok = True           # block == count - 1
    r.check(ok, '%s: only the last block may be incomplete' % R.label(f), 'a failed read is accepted for a block that is not the last one')
    after = lambda o: p.ops.index(o) > p.ops.index(reads[-1])
    fills = [o for o in p.ops if o[0] == 'fill']
    good = None
    for fl in fills:
        good = zero_fill(d, e, p, reads[-1], fl, after(fl))
    lo = [o for o in p.ops if o[0] == 'sti' and after(o) and o[3] == ZERO]
    nothing = any(y and x[0] == 'eq' and {strip_w(x[1]), strip_w(x[2])} >= {strip_w(reads[-1][2])} and any(is_gc(strip_w(z)) for z in x[1:3]) for x, y in p.facts.items())
    if good is None and nothing:
        r.ok('%s: nothing is missing' % R.label(f))
    elif good is None and not fills and not lo:
        r.bad('%s: missing part reads as zeros' % R.label(f), 'after an incomplete read the rest of the buffer keeps what was in it before')
    elif good is None:
        # a loop is not followed further
        r.undecided(R.label(f), 'range that is cleared after an incomplete read')
    else:
        r.check(good, '%s: missing part reads as zeros' % R.label(f), 'after an incomplete read not exactly the missing rest of the buffer is cleared')


def is_gc(t):
    return t[0] == 'gcount' or t[0] == 'm' and len(t) >= 3 and t[2] == 8 and t[1][0] in ('m', 'new', 'arg')


def zero_fill(d, e, p, rd, fl, after):
    dst, size = rd[3], rd[2]

    def off(t):
        if t == dst:
            return C(0)
        if t[0] == 'gv' and t[1] == dst and len(t[3]) == 1:
            return ('add', t[3][0], C(t[2])) if t[2] else t[3][0]
        if t[0] == '+' and t[1] == dst:
            return C(t[2])
        return None
    if fl[5] != ZERO:
        return False if fl[5][0] == 'c' else None
    a = off(fl[2])
    if a is None:
        return None
    b = off(fl[4]) if fl[3] == 'end' else ('add', a, fl[4])
    if b is None:
        return None
    if not after:
        # cleared before: the part that was read is overwritten
        return True if a == C(0) and randint.equal(e, b, e, size) else False
    if a == C(0) or not is_gc(strip_w(a)):
        return False         # what was read is lost
    return randint.equal(e, b, e, size)


