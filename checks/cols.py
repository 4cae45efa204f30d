"""Rules about the columns: rows, blocks, antennas (P08, P26, P28)."""
import re

from vfw import ap, flow, randint
from vfw.flow import C, ZERO, split, padd, contains, any_sub
from vfw.ir import AnalysisError
import mgr
from mgr import Mgr, data, strip_w, subterms, run

FAR = (1 << 64) - 1


class Col(Mgr):
    """keeps the facts that decide which row and block a call is about, and records calls with their values"""
    slt = False
    DROP = ('pred', 'r', 'u', 'sfail', 'ev', 'node', 'scan', 'find', 'size', 'sempty', 'new', 'al', 'lp')

    def __init__(self, R, fn, members, colmembers):
        Mgr.__init__(self, R, fn)
        self.members, self.colmembers = members, colmembers
        self.watch = []

    def start(self, e, st):
        Mgr.start(self, e, st)
        st.user['pos'] = None
        st.user['due'] = False
        st.user['enc'] = None

    def tracked(self, e, f):
        return bool(f) and (f[0], f[1]) in self.members or (f[0], f[1]) in self.colmembers if f else False

    def keep(self, e, st, f):
        return self.relevant(e, f)

    def relevant(self, e, f):
        ok = False
        for t in subterms(f):
            if t[0] in self.DROP:
                return False
            if t[0] == 'slt' and not self.slt:
                return False
            if t[0] == 'm' and isinstance(t[2], int):
                x = e.field(padd(t[1], t[2]))
                if x and (x[0] == self.R.mgr or x[:2] in self.colmembers):
                    ok = True
            if t[0] == 'arg' and t[1] > 0:
                ok = True
            if t[0] == 'cell' or t[0] == 'vc' and t[1] == 'usesAntennaIndices':
                ok = True
            if t[0] == 'tb' and t[1] == 'Empty':
                ok = True
        return ok

    def on_enter(self, e, st):
        st.facts = {f: v for f, v in st.facts.items() if self.relevant(e, f)}
        h = set()
        for b, lo, hi, n in st.hav:
            f = e.field(padd(b, lo)) if hi - lo <= 8 and not e.is_local(b) else None
            h.add((b, lo, hi, n if f and self.tracked(e, f) else '?'))
        st.hav = frozenset(h)
        for k, v in list(st.regs.items()):
            if v[0] == 'lp':
                st.regs[k] = ('u', k)
        p = st.user['pos']
        if p is not None and flow.depth(p) > 9:
            st.user['pos'] = None

    def on_store(self, e, st, i, addr, v, old):
        f = e.field(addr)
        if f and split(addr)[0][0] not in ('al', 'new'):
            self.here(e, st, i, 'store', (f, v, split(addr)[0], old))
            if (f[0], f[1]) in self.members and f[0] == self.R.mgr:
                st.user['due'] = True

    def setstr(self, st, addr, c):
        pass

    def op(self, st, o):
        if o[0] == 'seek':
            st.user['pos'] = o[3] if o[4] == ZERO and o[5] == '' else None
        elif o[0] in ('w',):
            st.user['due'] = False

    def io(self, st, s, v=None):
        return None

    def site(self, i, what, st, s, args):
        if what in ('read', 'write') or what.startswith('v:') or what.startswith('tb:') or what == 'fill':
            self.here(self.eng, st, i, what, args)

    def here(self, e, st, i, what, args):
        """records a place with the values of the members that decide the layout"""
        vals = {}
        for (b, o), v in st.mem.items():
            f = e.field(padd(b, o))
            if f and (f[:2] in self.members or f[:2] in self.colmembers):
                vals[f[:2]] = v
        k = (what, i.id, tuple(args) if isinstance(args, (list, tuple)) else args, frozenset(vals.items()), frozenset(st.facts.items()),
             st.user['pos'], st.user['due'], st.user['enc'])
        self.sites.setdefault(what, {}).setdefault(k, i)

    def on_call(self, e, st, i, nm, args):
        self.eng = e
        if nm.startswith('bool ') or nm.startswith('void '):
            nm = nm[5:]
        cls, m = e.cls_of(nm)
        b = m.split('<')[0]
        if cls.startswith('casacore::ScalarColumn<') and b in ('operator()', 'asfloat', 'asdouble', 'asInt'):
            return ('pure', ('cell', args[0], args[1]))
        if cls.startswith('casacore::ScalarColumn<') and b == 'get' and len(args) >= 3 and args[2][0] in ('al', '+'):
            st.mem[split(args[2])] = ('cell', args[0], args[1])
            return ('pure', None)
        if cls.endswith('BytePacker'):
            self.here(e, st, i, 'bp:' + b, args)
        if cls.startswith('TimeBlockBuffer<'):
            self.here(e, st, i, 'tb:' + b, args)
            if b in ('Empty', 'MaxAntennaIndex', 'NRows', 'NPolarizations', 'NChannels'):
                return ('pure', ('tb', b, args[0]))
        return Mgr.on_call(self, e, st, i, nm, args)

    def on_vcall(self, e, st, i, tg, args):
        self.eng = e
        if any(self.R.base(self.R.mod.byname[t]) == 'encode' for t in tg or [] if t in self.R.mod.byname):
            st.user['enc'] = tuple(args)
        return Mgr.on_vcall(self, e, st, i, tg, args)

    def on_exit(self, e, st, i, kind):
        if kind == 'ret':
            self.here(e, st, i, 'ret', ())


class Site:
    def __init__(self, e, k, i, f):
        self.what, _, self.args, v, fa, self.pos, self.due, self.enc = k
        self.vals, self.facts, self.i, self.e, self.f = dict(v), dict(fa), i, e, f

    def now(self, field):
        return self.vals.get(field, ('cur', field))


class View:
    """what the rules call the members of the manager and of a column"""


def view(d):
    if hasattr(d, 'view'):
        return d.view
    R = d.R
    v = View()
    lay = mgr.layout_members(d)
    if len(lay) != 1:
        raise AnalysisError('the member that tells that the layout is fixed is not identified: %s' % sorted(lay))
    v.rpb = (R.mgr, list(lay)[0])
    pos = mgr.position_members(d)
    if len(pos['base']) != 1 or len(pos['mul']) != 1:
        raise AnalysisError('the members in the position of a block are not identified: %s' % pos)
    v.hs, v.bs = (R.mgr, list(pos['base'])[0]), (R.mgr, list(pos['mul'])[0])
    v.count = list(R.mgrwritten)[0]
    v.cur = R.current
    layout(d, v)
    d.view = v
    return v


def layout(d, v):
    """the function that computes the offsets: members that hold its arguments"""
    v.layouts = []
    for f in mgr.mgr_roots(d):
        rule, e = mgr.analyse(d, f)
        if any(o[0] == 'v' and o[2] == 'CalculateBlockSize' for p in rule.paths for o in p.ops):
            v.layouts.append((f, rule, e))
    v.ants = None
    for f, rule, e in v.layouts:
        names = set()
        for p in rule.paths:
            for o in p.ops:
                if o[0] == 'v' and o[2] == 'CalculateBlockSize':
                    for (b, off), val in p.mem.items():
                        if b == ('arg', 0) and strip_w(val) == strip_w(o[3][2]) and val[0] != 'c':
                            x = e.field(padd(b, off))
                            if x and (x[0], x[1]) != v.rpb:
                                names.add((x[0], x[1]))
        if len(names) == 1:
            v.ants = names.pop()
    if v.ants is None:
        raise AnalysisError('the member with the number of antennas of the layout is not identified')


def entry_points(d):
    """the virtual functions of the concrete columns, and the encoding threads"""
    R = d.R
    out, names = [], set()
    for c in mgr.concrete(d):
        for s in mgr.vslot.vtables(d.mod)[c]:
            f = d.mod.byname.get(s)
            if f is not None and f.blocks and f.name not in names:
                names.add(f.name)
                out.append(f)
    return out + list(R.threadroots)


def colruns(d):
    if not hasattr(d, 'colruns'):
        R, v = d.R, view(d)
        d.colruns = []
        d.colcap = []
        T = {f.name for f in R.threadroots}
        for f in entry_points(d):
            rule = Col(R, f, {v.rpb, v.ants}, {v.cur})
            e = flow.Engine(R.mod, R.T, f, rule)
            rule.eng = e
            e.run()
            d.states += e.visited
            sites = [Site(e, k, i, f) for w, l in rule.sites.items() for k, i in l.items()]
            d.colruns.append((f, e, sites, f.name in T))
            if e.capped:
                d.colcap.append(f)
    return d.colruns


# ---------------------------------------------------------------- evaluation
class Judge:
    """compares values at one place under the conditions that led there, by small interpretations"""

    def __init__(self, d, site, n=400, want=60):
        v = view(d)
        self.v, self.s = v, site
        self.bind = {}
        for k in (v.rpb, v.ants, v.cur):
            self.bind[('cur', k)] = '%s.%s' % k
        names = {k: '%s.%s' % k for k in (v.rpb, v.ants, v.cur)}
        self.names = names
        self.envs = list(randint.samples(site.e, site.facts.items(), n, self.bind, names, 3, None, want))

    def all(self, fn):
        """True when fn(env) holds for all samples, False with a counterexample, None when nothing could be decided"""
        n = 0
        for v in self.envs:
            try:
                r = fn(v.value)
            except (randint.Unknown, TypeError, ValueError):
                return None
            if r is None:
                continue
            n += 1
            if not r:
                return False
        return True if n else None


def verdict(r, res, name, ok, bad, und=None):
    if res is True:
        r.ok(name)
    elif res is False:
        r.bad(name, bad)
    else:
        r.undecided(name, und or ok)


def group(results):
    """the worst of several answers"""
    results = list(results)
    if any(x is False for x in results):
        return False
    if not results or any(x is None for x in results):
        return None
    return True


ROW = ('arg', 1)


def rowmap(v, now, val, row):
    k = val(now)
    return val(row) % k if k else val(row)


def p08(r):
    d = data()
    positions(d, r)
    block_count(d, r)
    open_count(d, r)
    offsets(d, r)
    widths(d, r)
    rows(d, r)
    r.count('states', d.states)
    if d.colcap:
        r.undecided('states', 'too many states in %s' % ', '.join(d.R.label(f) for f in d.colcap))


def positions(d, r):
    """manager functions that read or write one block"""
    R, v = d.R, view(d)
    n = 0
    for f in mgr.mgr_roots(d):
        rule, e = mgr.analyse(d, f)
        for what, kind, seek in (('reads', 'r', 'g'), ('writes', 'w', 'p')):
            seen = set()
            for p in rule.paths:
                pos = None
                for o in p.ops:
                    if o[0] == 'seek':
                        pos = o
                    if o[0] == kind and pos is not None and any(t[0] == 'mul' for t in subterms(pos[3])):
                        seen.add((pos, o))
            if not seen:
                continue
            lab = R.label(f)
            for pos, o in seen:
                n += 1
                res = position_ok(d, e, f, pos[3])
                name = '%s: position of the block it %s' % (lab, what)
                if pos[4] != ZERO:
                    res = False
                verdict(r, res, name, 'the position is header size + block * block size + offset of the column',
                        'the position is not header size + block * block size + offset of the column: %s' % show(e, pos[3]))
    r.require(n >= 2, 'no functions that read and write a block at a computed position were found')


def show(e, t, depth=0):
    """readable form of a term"""
    if not isinstance(t, tuple):
        return str(t)
    if t[0] == 'c':
        return str(t[1])
    if t[0] == 'm' and isinstance(t[2], int):
        f = e.field(padd(t[1], t[2]))
        return f[1] if f else 'value'
    if t[0] == 'arg':
        a = e.fn.args[t[1]].get('name') if isinstance(e.fn.args[t[1]], dict) else None
        return a or 'argument %d' % t[1]
    op = {'add': '+', 'mul': '*', 'sub': '-', 'udiv': '/', 'urem': '%'}.get(t[0])
    if op:
        return '(%s %s %s)' % (show(e, t[1]), op, show(e, t[2]))
    if t[0] == 'tr':
        return show(e, t[2])
    if t[0] in ('vc', 'tb'):
        return t[1] + '()'
    if t[0] == 'cell':
        return 'cell'
    return '?'


def position_ok(d, e, f, term):
    v = view(d)
    args = [('arg', k) for k in range(1, len(f.args))]
    cols = set()
    for t in subterms(term):
        if t[0] == 'm' and t[1][0] in ('arg', 'elem', 'm') and isinstance(t[2], int):
            x = e.field(padd(t[1], t[2]))
            if x and x[0] != d.R.mgr:
                cols.add(t)
    hs = ('fieldval', v.hs)
    best = None
    for a in args:
        for c in cols:
            res = True
            for s in range(6):
                env = randint.Env(e, s, None, 20, {v.hs: 'hs', v.bs: 'bs'})
                try:
                    want = env.atom(('bind', 'hs')) + env.atom(('bind', 'bs')) * env.value(a) + env.value(c)
                    if env.value(term) != want & randint.M64:
                        res = False
                        break
                except randint.Unknown:
                    res = None
                    break
            if res:
                d.coloff = getattr(d, 'coloff', set()) | {e.field(padd(c[1], c[2]))[:2]}
                d.coloffn = getattr(d, 'coloffn', set()) | {c[2]}
                return True
            best = res if best is None else best
    return best if best is not None else (False if not cols else None)


def block_count(d, r):
    """a block that was written is counted"""
    R, v = d.R, view(d)
    n = 0
    for f in mgr.mgr_roots(d):
        rule, e = mgr.analyse(d, f)
        idx = None
        bad, und, good = [], [], 0
        for p in rule.paths:
            pos, w = None, False
            for o in p.ops:
                if o[0] == 'seek':
                    pos = o
                if o[0] == 'w' and pos is not None and any(t[0] == 'mul' for t in subterms(pos[3])):
                    w = pos
            if not w or p.kind != 'ret':
                continue
            idx = None
            for t in subterms(w[3]):
                if t[0] == 'mul':
                    for x in t[1:3]:
                        if not (x[0] == 'm' and x[1] == ('arg', 0)) and x[0] != 'c':
                            idx = x
            if idx is None:
                continue
            old, new = None, None
            fin = ('m', ('arg', 0), R.mgroff[v.count[1]])
            for (b, o), val in p.mem.items():
                x = e.field(padd(b, o))
                if x and x[:2] == v.count:
                    fin = val
            ok = 0
            for env in randint.samples(e, p.facts.items(), 300, None, {v.count: 'count'}, 3, None, 80):
                try:
                    k, o_, nw = env.value(idx), env.atom(('bind', 'count')), env.value(fin)
                except (randint.Unknown, TypeError):
                    ok = None
                    break
                if nw != max(o_, k + 1):
                    ok = False
                    break
                ok += 1
            if ok is False:
                bad.append(p)
            elif ok is None or ok == 0:
                und.append(p)
            else:
                good += 1
        if idx is None:
            continue
        n += 1
        name = '%s: a written block is counted' % R.label(f)
        verdict(r, False if bad else None if und else True, name, 'the number of blocks is at least the number of the block plus one',
                'after writing block k the number of blocks is not the maximum of what it was and k + 1')
    r.require(n, 'no function that writes a block was found')


def open_count(d, r):
    """the number of blocks in an existing file"""
    R, v = d.R, view(d)
    n = 0
    for f in mgr.mgr_roots(d):
        if R.base(f) not in ('open', 'open64'):
            continue
        rule, e = mgr.analyse(d, f)
        res = []
        for p in rule.paths:
            if p.kind != 'ret':
                continue
            fin = None
            for (b, o), val in p.mem.items():
                x = e.field(padd(b, o))
                if x and x[:2] == v.count and b == ('arg', 0):
                    fin = val
            if fin is None:
                res.append(None)
                continue
            size = None
            for t in list(subterms(fin)) + [y for x in p.facts for y in subterms(x)]:
                if t[0] == 'ev' and t[1][0] == 'r' and 'tell' in inst(e, t[1][1]):
                    size = t
                elif t[0] == 'r' and 'tell' in inst(e, t[1]) and size is None:
                    size = t
            seeks = [o for o in p.ops if o[0] == 'seek']
            if size is not None and not (seeks and seeks[-1][3] == ZERO and seeks[-1][4] == C(2)):
                res.append(False)
                continue
            hs, bs = final(e, p, v.hs, d), final(e, p, v.bs, d)
            cnt = 0
            for s in range(800):
                env = randint.Env(e, s, None, 3)
                randint.force(env, p.facts.items())
                # all sizes of files up to a few blocks
                if size is not None:
                    env.small = 5
                    env.memo[size] = env.atom('size')
                    env.small = 3
                try:
                    if any((env.value(x) & 1) != int(y) for x, y in p.facts.items() if evaluable(env, x)):
                        continue
                    h, b, sz = env.value(hs), env.value(bs), env.memo[size] if size is not None else 0
                    got = env.value(fin)
                except (randint.Unknown, TypeError):
                    cnt = None
                    break
                if size is None and b != 0:
                    # nothing is known about the size of the file
                    cnt = False if got == 0 else None
                    break
                want = -(-(sz - h) // b) if b and sz > h else 0
                if got != want:
                    cnt = False
                    break
                cnt += 1
            res.append(None if cnt is None else False if cnt is False else True if cnt else 'none')
        res = [x for x in res if x != 'none']
        n += 1
        verdict(r, group(res), '%s: number of blocks in the file' % R.label(f), 'every block of which a part is in the file is counted',
                'the number of blocks is not (size of the file - header size) / block size, rounded up')
    r.require(n, 'the function that opens a file was not found')


def inst(e, iid):
    for b in e.fn.blocks.values() if isinstance(e.fn.blocks, dict) else e.fn.blocks:
        for i in b.insts:
            if i.id == iid:
                return i.cdem or ''
    return ''


def evaluable(env, x):
    try:
        env.value(x)
        return True
    except (randint.Unknown, TypeError, ValueError):
        return False


def final(e, p, field, d):
    for (b, o), val in p.mem.items():
        x = e.field(padd(b, o))
        if x and x[:2] == field and b == ('arg', 0):
            return val
    return ('m', ('arg', 0), d.R.mgroff[field[1]])


def offsets(d, r):
    """columns follow each other in a block"""
    R, v = d.R, view(d)
    n = 0
    for f, rule, e in v.layouts:
        lab = R.label(f)
        # what is added for each column
        vcsites = {}
        for (w, iid), l in rule.sites.items():
            if w == 'v:CalculateBlockSize':
                for y in l:
                    vcsites.setdefault(iid, set()).add(tuple(y[2]))
        if not vcsites:
            continue
        n += 1
        args = {a[1:] for l in vcsites.values() for a in l}
        ok = len(args) == 1
        a = list(args)[0]
        layret = [p for p in rule.paths if p.kind == 'ret']
        same = []
        for p in layret:
            fr, fa = final(e, p, v.rpb, d), final(e, p, v.ants, d)
            same.append(randint.equal(e, fr, e, a[0], n=6, small=16) and randint.equal(e, fa, e, a[1], n=6, small=16))
        verdict(r, group(same) if ok else False, '%s: sizes are calculated for the layout that is recorded' % lab,
                'the arguments of the calculation are the recorded rows per block and antenna count',
                'the size of a column in a block is calculated for another number of rows or antennas than is recorded in the manager')
        iterations(d, r, f, lab, a)
    r.require(n, 'the function that computes the offsets of the columns was not found')


class Lay(Mgr):
    """what happens in one iteration over the columns"""

    def __init__(self, R, fn, v, coloff, coloffn):
        Mgr.__init__(self, R, fn)
        self.v, self.co, self.con = v, coloff, coloffn
        self.its = {}
        self.outs = []
        self.prep = set()

    def start(self, e, st):
        Mgr.start(self, e, st)
        self.e = e
        st.user['it'] = ()

    def tracked(self, e, f):
        return bool(f) and f[:2] in (self.v.bs, self.v.rpb, self.v.ants)

    def keep(self, e, st, f):
        return False

    def on_store(self, e, st, i, addr, val, old):
        f = e.field(addr)
        b, o = split(addr)
        if f and f[:2] in self.co or not f and o in self.con and any_sub(b, lambda t: t[0] in ('node', 'elem')):
            st.user['it'] = st.user['it'] + (('off', b, val),)
        if f and f[:2] == self.v.bs:
            st.user['it'] = st.user['it'] + (('bs', b, val),)

    def on_back(self, e, st, header, phis):
        self.its.setdefault(header, set()).add((st.user['it'], tuple(sorted(phis.items())), self.bs(e, st)))
        st.user['it'] = ()

    def on_enter(self, e, st):
        if len(st.user['it']) > 12:
            st.user['it'] = st.user['it'][:12]

    def bs(self, e, st):
        return self.now(e, st, self.v.bs)

    def now(self, e, st, field):
        for (b, o), v in st.mem.items():
            f = e.field(padd(b, o))
            if f and f[:2] == field:
                return v
        return None

    def op(self, st, o):
        if o[0] == 'v':
            k = self.setter.get(o[2])
            if k:
                val = o[3][k[0]]
                for w in k[1]:
                    val = ('tr', w, val)
                st.user['it'] = st.user['it'] + (('off', o[3][0], val),)
            st.user['it'] = st.user['it'] + (('v', o[2], o[3]),)

    def site(self, i, what, st, s, args):
        if what == 'v:InitializeAfterNRowsPerBlockIsKnown':
            self.prep.add(tuple(self.now(self.e, st, x) or ('m', ('arg', 0), self.R.mgroff[x[1]]) for x in (self.v.rpb, self.v.ants)))

    def setstr(self, st, addr, c):
        pass

    def io(self, st, s, v=None):
        return None

    def on_exit(self, e, st, i, kind):
        if kind == 'ret':
            self.outs.append(self.bs(e, st))


def setters(d, fields):
    """virtual functions that store an argument in one of the members: name -> number of the argument"""
    out = {}
    for f in mgr.col_roots(d) + [f for f in d.mod.functions if f.blocks and any(b in d.R.T.bases(c) for c in mgr.concrete(d) for b in [d.R.cls(f)])]:
        rule, e = mgr.analyse(d, f) if len(f.blocks) < 4 else (None, None)
        if rule is None:
            continue
        for p in rule.paths:
            for x in p.user['sets']:
                if x[:2] in fields and strip_w(x[2])[0] == 'arg' and strip_w(x[2])[1] > 0:
                    out[d.R.base(f)] = strip_w(x[2])[1], [t[1] for t in subterms(x[2]) if t[0] == 'tr' and int(t[1][1:]) < 32]
    return out


INIT = 'InitializeAfterNRowsPerBlockIsKnown'


def prepares(it):
    return any(x[0] == 'v' and x[1] == INIT and (x[2][0][0] in ('node', 'elem') or any_sub(x[2][0], lambda t: t[0] in ('node', 'elem'))) for x in it)


def iterations(d, r, f, lab, args):
    R, v = d.R, view(d)
    rule = Lay(R, f, v, d.coloff, d.coloffn)
    rule.setter = setters(d, d.coloff)
    e = flow.Engine(R.mod, R.T, f, rule)
    e.run()
    if e.capped:
        r.undecided(lab, 'too many states')
        return
    loops = {k: l for k, l in rule.its.items() if any(x[0] == 'off' for it in l for x in it[0])}
    if not loops:
        r.undecided(lab, 'no loop that sets the offsets of the columns')
    for k, l in loops.items():
        cand = None
        skipped = False
        called = True
        for it, nx, bs in l:
            off = [x for x in it if x[0] == 'off']
            if len(off) != 1:
                skipped = True
                continue
            node, val = off[0][1:]
            call = [x for x in it if x[0] == 'v' and x[1] == 'CalculateBlockSize']
            good = set()
            for x in call:
                if split(x[2][0])[0] != node and x[2][0] != node:
                    continue
                want = ('add', val, ('vc', 'CalculateBlockSize') + tuple(x[2]))
                last = [x[2] for x in it if x[0] == 'bs'][-1:]
                for nm, t in [('bs', y) for y in last] + [(q, y) for q, t in nx for y in mgr.expand(e, t)]:
                    if same_sum(e, t, want):
                        good.add(nm)
            cand = good if cand is None else cand & good
            if not any(x[0] == 'v' and x[1] == INIT and x[2][0] == node for x in it):
                called = False
        # or in a loop of its own
        called = called or any(all(prepares(it[0]) for it in l2) for l2 in rule.its.values())
        verdict(r, not skipped, '%s: every column gets an offset' % lab, '', 'the offset of a column in the block is not set for every column')
        verdict(r, bool(cand), '%s: columns follow each other in a block' % lab, '',
                'the offset of a column plus its calculated size is not the offset of the next column')
        verdict(r, called, '%s: every column is prepared for the layout' % lab, '',
                'not every column is told to prepare for the number of rows per block')
        # the last value is the size of a block, and the first offset is zero
        ok = None
        if cand:
            if 'bs' in cand:
                ok = True
            else:
                phis = {x for x in cand if x != 'bs'}
                outs = {b for b in rule.outs}
                ok = all(b is not None and (b == ZERO or any(val_of(b) == ('u', q) for q in phis) or
                                            any(contains(b, ('u', q)) for q in phis) or same_any(e, b, [dict(nx).get(q) for it, nx, bs in l for q in phis]))
                         for b in outs) or None
            verdict(r, ok, '%s: the size of a block is the sum of the sizes of the columns' % lab, 'the sum is stored as block size', '')
            zero = any(strip_w(x[2]) == ZERO for it, nx, bs in l for x in it if x[0] == 'off')
            verdict(r, zero, '%s: the first column is at the start of the block' % lab, '',
                    'the offset of the first column in a block is not zero')
        r.count('iterations', len(l))
    if loops:
        res = [randint.equal(e, x[k], e, args[k], n=6, small=16) for x in rule.prep for k in (0, 1)]
        verdict(r, group(res), '%s: columns are prepared for the recorded layout' % lab, '',
                'columns are told to prepare for the number of rows per block before it is recorded in the manager')


def val_of(t):
    return strip_w(t)


def same_any(e, b, l):
    return any(x is not None and randint.equal(e, b, e, x) for x in l)


def same_sum(e, a, b):
    """equality of sums in which unknown values are taken as symbols"""
    us = {t: 'u%s' % repr(t) for x in (a, b) for t in subterms(x) if t[0] == 'u'}
    return all(randint.equal(e, a, e, b, us, us, 6, k) for k in (16, 28))


# ---------------------------------------------------------------- widths
def col_members(d):
    """members of a column that repeat the layout: the antenna count and the size of its part of a block"""
    if hasattr(d, 'colm'):
        return d.colm
    R, v = d.R, view(d)
    m = View()
    m.inits = []
    for f in entry_points(d):
        if R.base(f) != 'InitializeAfterNRowsPerBlockIsKnown':
            continue
        rule, e = mgr.analyse(d, f)
        for p in rule.paths:
            if p.kind != 'ret':
                continue
            fin = {}
            for (b, o), val in p.mem.items():
                x = e.field(padd(b, o))
                if x and b == ('arg', 0):
                    fin[x[:2]] = val
            m.inits.append((f, e, fin, p))
    m.ants = {k for f, e, fin, p in m.inits for k, val in fin.items() if is_field(e, val, v.ants)}
    m.sizes = set()
    for f, e, sites, thr in colruns(d):
        for s in sites:
            if s.what in ('read', 'write') and s.pos is not None and any(t[0] == 'mul' for t in subterms(s.pos)):
                x = member(e, s.args[2])
                if x:
                    m.sizes.add(x)
    d.colm = m
    return m


def member(e, t):
    t = wide(t)
    if t[0] == 'm' and isinstance(t[2], int):
        x = e.field(padd(t[1], t[2]))
        return x[:2] if x else None
    return None


def is_field(e, t, field):
    t = strip_w(t)
    if t[0] != 'm' or not isinstance(t[2], int):
        return False
    x = e.field(padd(t[1], t[2]))
    return bool(x) and x[:2] == field


def size_terms(d):
    """what the function that calculates the size of a column in a block returns"""
    out = []
    for f in entry_points(d):
        if d.R.base(f) == 'CalculateBlockSize':
            rule, e = mgr.analyse(d, f)
            out += [(f, e, p) for p in rule.paths if p.kind == 'ret' and p.ret is not None]
    return out


def same_size(d, e, t, facts, outs, names):
    """a term is the calculated size"""
    t = wide(t)
    if t[0] == 'vc' and t[1] == 'CalculateBlockSize':
        a = t[3:]
        return group([eq_named(e, a[0], 'rows', names), eq_named(e, a[1], 'ants', names)])
    # compared as a result of the function and as the expression that it returns
    if any(x[0] == 'vc' and x[1] == 'CalculateBlockSize' for x in subterms(t)):
        return False
    res = []
    for f, e2, p in outs:
        ok = True
        for s in range(12):
            # sizes stay below 2^32
            E, k = (randint.Env, (12, 16)[s % 2]) if s < 8 else (Counts, 8)
            a = E(e, s, None, k, names)
            b = E(e2, s, {('arg', 1): 'rows', ('arg', 2): 'ants'}, k, names)
            try:
                if a.value(t) != b.value(p.ret):
                    ok = False
                    break
            except (randint.Unknown, TypeError):
                ok = None
                break
        res.append(ok)
    return group(res)


class Counts(randint.Env):
    """many symbols of few bits"""

    def atom(self, key, bits=None):
        small, self.small = self.small, 21 if key[0] == 'vc' else self.small
        try:
            return randint.Env.atom(self, key, bits)
        finally:
            self.small = small


def wide(t):
    """without conversions that do not shorten sizes and counts"""
    while t[0] == 'tr' and int(t[1][1:]) >= 32:
        t = t[2]
    return t


def eq_named(e, t, name, names):
    for s in range(5):
        a = randint.Env(e, s, None, 20, names)
        try:
            if a.value(t) != a.atom(('bind', name)):
                return False
        except (randint.Unknown, TypeError):
            return None
    return True


def layout_names(d):
    v, m = view(d), col_members(d)
    names = {v.rpb: 'rows', v.ants: 'ants'}
    names.update({k: 'ants' for k in m.ants})
    return names


def widths(d, r):
    R, v, m = d.R, view(d), col_members(d)
    outs = size_terms(d)
    r.require(outs, 'the function that calculates the size of a column in a block was not found')
    r.require(m.ants, 'no member of a column that receives the antenna count was found')
    names = layout_names(d)
    nw = nr = 0
    for f, e, sites, thr in colruns(d):
        lab = R.label(f)
        res = []
        for s in sites:
            if s.what == 'write' and s.pos is not None and any(t[0] == 'mul' for t in subterms(s.pos)):
                res.append(True if member(e, s.args[2]) in m.sizes else same_size(d, e, s.args[2], s.facts, outs, names))
        if res:
            nw += 1
            verdict(r, group(res), '%s: size of a written block' % lab, 'it is the size that was reserved',
                    'the number of bytes that are written is not the size that is reserved for the column in a block')
        for s in sites:
            if s.what == 'read' and s.pos is not None and any(t[0] == 'mul' for t in subterms(s.pos)):
                ok = True if member(e, s.args[2]) in m.sizes else same_size(d, e, s.args[2], s.facts, outs, names)
                nr += 1
                verdict(r, ok, '%s: size of a block that is read' % lab, 'it is the size that was reserved',
                        'the number of bytes that are read is not the size that is reserved for the column in a block')
    for k in m.sizes:
        res = [same_size(d, e, fin[k], p.facts, outs, names) if k in fin else False for f, e, fin, p in m.inits]
        verdict(r, group(res), 'size of a block that is read or written: %s' % k[1], 'it is set to the calculated size for the layout of the manager',
                '%s is not set to the size that the manager reserves for the column' % k[1])
    r.require(nw and nr, 'no write and read of a block was found in the columns')


# ---------------------------------------------------------------- rows
def rows(d, r):
    R, v = d.R, view(d)
    n = {}
    for f, e, sites, thr in colruns(d):
        lab = R.label(f)
        out = {}
        for s in sites:
            if thr:
                if s.what == 'write' and s.pos is not None:
                    out.setdefault(('block that is written', 'write'), []).append(thread_pos(d, e, s))
                continue
            if s.what in ('tb:SetData', 'tb:GetData') and len(f.args) >= 2:
                j = Judge(d, s)
                nm = 'stored in the block' if s.what == 'tb:SetData' else 'taken from the block'
                out.setdefault(('row within the block that is ' + nm, s.what), []).append(
                    j.all(lambda val: val(s.args[1]) == rowmap(v, s.now(v.rpb), val, ROW)))
                out.setdefault(('block that is in the buffer when a row is ' + nm, s.what), []).append(
                    j.all(lambda val: None if not val(s.now(v.rpb)) else val(s.now(v.cur)) == val(ROW) // val(s.now(v.rpb))))
            if s.what == 'read' and s.pos is not None and any(t[0] == 'mul' for t in subterms(s.pos)):
                out.setdefault(('block that is read', s.what), []).append(read_pos(d, e, s))
            if s.what == 'v:decode' and len(s.args) >= 6:
                out.setdefault(('rows of which the antennas are used', s.what), []).append(decode_rows(d, e, s))
        for (nm, what), res in out.items():
            n[what] = n.get(what, 0) + 1
            # places that can not be reached give no answer; at least one must
            res2 = [x for x in res if x is not None]
            verdict(r, False if False in res2 else True if res2 else None, '%s: %s' % (lab, nm), 'row / rows per block, row % rows per block', {
                'tb:SetData': 'the row is not stored as row % rows per block of block row / rows per block',
                'tb:GetData': 'the row is not taken from row % rows per block of block row / rows per block',
                'read': 'the position that is read is not that of block row / rows per block',
                'write': 'the position that is written is not that of the block that was encoded',
                'v:decode': 'a row of the block is decoded with the antennas of another row of the table'}[what])
            r.count('places', len(res))
    for w in ('tb:SetData', 'tb:GetData', 'read', 'write', 'v:decode'):
        r.require(n.get(w), 'no place with %s was found' % w)


def offval(d, e, env, term):
    """the offset of the column within the block, as it occurs in a position"""
    for t in subterms(term):
        if t[0] == 'm' and isinstance(t[2], int):
            x = e.field(padd(t[1], t[2]))
            if x and x[:2] in d.coloff or t[2] in d.coloffn and not x:
                return env.value(t)
    return None


def pos_is(d, e, s, idx, n=6):
    v = view(d)
    names = {v.hs: 'hs', v.bs: 'bs', v.rpb: 'rows'}
    for k in range(n):
        env = randint.Env(e, k, None, 12, names)
        try:
            if idx(env) is None:
                continue
            off = offval(d, e, env, s.pos)
            if off is None:
                return False
            if env.value(s.pos) != (env.atom(('bind', 'hs')) + env.atom(('bind', 'bs')) * idx(env) + off) & randint.M64:
                return False
        except (randint.Unknown, TypeError):
            return None
    return True


def read_pos(d, e, s):
    v = view(d)

    def idx(env):
        k = env.value(s.now(v.rpb)) if s.now(v.rpb)[0] != 'cur' else env.atom(('bind', 'rows'))
        return env.value(ROW) // k if k else None
    return pos_is(d, e, s, idx)


def nodes(t):
    return {x for x in subterms(t) if x[0] == 'node'}


def thread_pos(d, e, s):
    ks = {t for t in subterms(s.pos) if t[0] == 'm' and t[1][0] == 'node'}
    if len(ks) != 1 or s.enc is None:
        return None
    k = ks.pop()
    ok = pos_is(d, e, s, lambda env: env.value(k))
    if ok and nodes(s.enc[2]) != nodes(k):
        return False if nodes(s.enc[2]) else None
    return ok


def decode_rows(d, e, s):
    v = view(d)
    b = s.args[3]
    cells = [t for t in s.args[4:6]]
    us = {t for x in list(s.args[3:6]) for t in subterms(x) if t[0] == 'u'}
    own = {t for t in subterms(b) if t[0] == 'u'}
    res = []
    for c in cells:
        c = strip_w(c)
        while c[0] in ('sext', 'zext', 'tr'):
            c = c[-1]
        if c[0] != 'cell':
            return None
        if {t for t in subterms(c[2]) if t[0] == 'u'} - own:
            return None
        bind = {t: repr(t) for t in us}
        bind[('cur', v.rpb)] = 'rows'
        ok, n = True, 0
        for k in range(300):
            env = randint.Env(e, k, bind, 3 if k < 200 else 20, {v.rpb: 'rows'})
            try:
                rp = env.value(s.now(v.rpb))
                if not rp or env.value(b) >= rp:
                    continue
                n += 1
                if env.value(c[2]) != env.value(ROW) // rp * rp + env.value(b):
                    return False
            except (randint.Unknown, TypeError):
                return None
        res.append(True if n else None)
    return group(res)


# ---------------------------------------------------------------- names of the columns of the table
class Names(Mgr):
    """members that hold a column of the table -> name of that column"""

    def start(self, e, st):
        Mgr.start(self, e, st)
        st.user['tc'] = ()
        self.outs = []

    def site(self, i, what, st, s, args):
        pass

    def on_call(self, e, st, i, nm, args):
        x = nm[5:] if nm.startswith(('bool ', 'void ')) else nm
        cls, m = e.cls_of(x)
        if cls.startswith('casacore::ScalarColumn<') and m.split('<')[0] in ('ScalarColumn', 'attach') and len(args) >= 3:
            c = self.content(st, args[2])
            g = (self.R.mod.globals.get(c[1][1]) or {}) if c[0] == 'lit' and c[1][0] == 'glob' else {}
            t = args[0]
            st.user['tc'] = tuple(y for y in st.user['tc'] if y[0] != t) + ((t, g.get('str', '?')),)
            if m.split('<')[0] == 'ScalarColumn':
                return None
        return Mgr.on_call(self, e, st, i, nm, args)

    def on_exit(self, e, st, i, kind):
        if kind == 'ret':
            m = {}
            tc = dict(st.user['tc'])
            for (b, o), v in st.mem.items():
                if b == ('arg', 0) and v in tc:
                    m[o] = tc[v]
            self.outs.append(m)


def table_columns(d):
    """offset of a member of a column -> name of the column of the table"""
    if hasattr(d, 'tabcols'):
        return d.tabcols
    R = d.R
    res = {}
    n = 0
    for f in entry_points(d):
        if R.base(f) != 'Prepare':
            continue
        rule = Names(R, f)
        e = flow.Engine(R.mod, R.T, f, rule)
        e.run()
        for m in rule.outs:
            n += 1
            for o, s in m.items():
                res.setdefault(o, set()).add(s)
    if not n:
        raise AnalysisError('the function that opens the columns of the table was not found')
    d.tabcols = {o: list(s)[0] for o, s in res.items() if len(s) == 1}
    need = {'TIME', 'FIELD_ID', 'DATA_DESC_ID', 'ANTENNA1', 'ANTENNA2'}
    # columns of which the name is not known might be any
    d.tabmissing = need - set(d.tabcols.values()) if all('?' not in s for s in res.values()) else set()
    return d.tabcols


def cell(d, t):
    """(name of the column of the table, row) when a term is a cell of it"""
    while t[0] in ('tr', 'sx'):
        t = t[2]
    if t[0] == 'cell' and t[1][0] == 'm' and t[1][1] == ('arg', 0):
        n = table_columns(d).get(t[1][2])
        if n:
            return n, t[2]
    return None


KEYS = ('TIME', 'FIELD_ID', 'DATA_DESC_ID')


class Cut(Col):
    """also keeps what is known about the cells of a row, of which the number may not be known"""
    slt = True

    def on_load(self, e, st, i, addr, v):
        # values that come from a local array can be any of its elements
        if i.t == 'i32' and any_sub(addr, lambda t: t[0] == 'gv' and split(t[1])[0][0] == 'al'):
            st.facts[('blur',)] = True
        Mgr.on_load(self, e, st, i, addr, v)

    def relevant(self, e, f):
        if f == ('blur',):
            return True

        def hide(t):
            if isinstance(t, tuple):
                return ('cell', t[1], ('arg', 1)) if t and t[0] == 'cell' else tuple(hide(x) for x in t)
            return t
        return Col.relevant(self, e, hide(f))


def putruns(d):
    """the functions that put a row, with the members that remember the previous row"""
    if hasattr(d, 'putr'):
        return d.putr
    R, v = d.R, view(d)
    table_columns(d)
    d.putr = []
    d.remember = {}
    fs = [f for f, e, sites, thr in colruns(d) if not thr and any(s.what == 'tb:SetData' for s in sites)]
    for f, e, sites, thr in colruns(d):
        if f in fs:
            for s in sites:
                if s.what == 'store' and s.args[2] == ('arg', 0):
                    c = cell(d, s.args[1])
                    if c and c[0] in KEYS:
                        d.remember.setdefault(c[0], set()).add(s.args[0][:2])
    rem = {k for l in d.remember.values() for k in l}
    for f in fs:
        rule = Cut(R, f, {v.rpb, v.ants}, {v.cur} | rem)
        e = flow.Engine(R.mod, R.T, f, rule)
        rule.eng = e
        e.run()
        d.states += e.visited
        d.putr.append((f, e, [Site(e, k, i, f) for w, l in rule.sites.items() for k, i in l.items()]))
    return d.putr


# ---------------------------------------------------------------- P26
def p26(r):
    d = data()
    R, v = d.R, view(d)
    runs = putruns(d)
    r.require(runs, 'no function that puts a row was found')
    if d.tabmissing & set(KEYS):
        r.bad('columns of the table', 'a column of the table is not opened: %s' % ', '.join(sorted(d.tabmissing & set(KEYS))))
    for n in KEYS:
        l = d.remember.get(n, set())
        if len(l) == 1:
            r.ok('the %s of the first row is remembered' % n)
        elif not l and n in d.tabcols.values():
            r.bad('the %s of the first row is remembered' % n, 'the %s of the first row of a block is not stored' % n)
        else:
            r.undecided('the %s of the first row is remembered' % n, 'in one member')
    if all(len(d.remember.get(n, ())) == 1 for n in KEYS):
        rem = {n: list(d.remember[n])[0] for n in KEYS}
        for f, e, sites in runs:
            if e.capped:
                r.undecided(R.label(f), 'too many states')
                continue
            cuts(d, r, f, e, sites, rem)
    relayout(d, r)
    r.count('states', d.states)


def cells_of(d, sites):
    """the terms of the cells of the row that is put"""
    out = {}
    for s in sites:
        for t in [s.args[1]] if s.what == 'store' else []:
            c = cell(d, t)
            if c and c[0] in KEYS:
                out.setdefault(c[0], set()).add(t)
    return {k: list(l)[0] for k, l in out.items() if len(l) == 1}


def cuts(d, r, f, e, sites, rem):
    R, v = d.R, view(d)
    lab = R.label(f)
    ct = cells_of(d, sites)
    if len(ct) != 3 or any(cell(d, t)[1] != ROW for t in ct.values()):
        r.undecided(lab, 'the cells of the row were not recognised')
        return
    short = [n for n, t in ct.items() if any(x[0] == 'tr' and int(x[1][1:]) < 32 for x in subterms(t))]
    verdict(r, not short, '%s: remembered values' % lab, 'they have the width of the columns',
            'the %s of the first row is remembered with fewer bits than it has' % ', '.join(sorted(short)))

    def same(val, n, prev):
        return val(prev) == val(ct[n])

    def prev(s, n):
        x = s.now(rem[n])
        return x if x[0] != 'cur' else ('cur', rem[n])

    res = {'cut': [], 'rows': [], 'ants': [], 'late': [], 'first': [], 'hdr': []}
    for s in sites:
        if s.what == 'store' and s.args[0][:2] == v.rpb:
            j = PutJudge(d, s, rem)
            old = ('cur', v.rpb)
            res['cut'].append(j.all(lambda val: val(old) == val(s.args[1]) or val(old) == 0 and not val(j.empty()) & 1 and
                                    any(not same(val, n, ('cur', rem[n])) for n in KEYS)))
            res['rows'].append(j.all(lambda val: val(s.args[1]) == val(ROW) or val(old) == val(s.args[1])))
        if s.what == 'store' and s.args[0][:2] == v.ants:
            j = PutJudge(d, s, rem)
            t = [x for x in subterms(s.args[1]) if x[0] == 'tb' and x[1] == 'MaxAntennaIndex']
            old = ('cur', v.ants)
            res['ants'].append(j.all(lambda val: val(s.args[1]) == val(old) or len(t) == 1 and val(s.args[1]) == val(t[0]) + 1))
        if s.what == 'tb:SetData' and not s.due:
            j = PutJudge(d, s, rem)
            # the rows of the first block are put in sequence
            res['late'].append(j.all(lambda val: None if val(s.now(v.rpb)) or not val(ROW) else bool(val(j.empty()) & 1) or
                                     all(same(val, n, ('cur', rem[n])) for n in KEYS)))
            res['first'].append(j.all(lambda val: None if val(s.now(v.rpb)) or not val(j.empty()) & 1 else
                                      all(same(val, n, prev(s, n)) for n in KEYS)))
            res['hdr'].append(j.all(lambda val: None if val(s.now(v.rpb)) or val(j.empty()) & 1 else
                                    all(s.now(rem[n])[0] == 'cur' or same(val, n, prev(s, n)) for n in KEYS)))
        if s.what in ('tb:SetData', 'ret') and s.due:
            res.setdefault('due', []).append(False)
    txt = {'cut': ('where a block is cut', 'rows per block are fixed at a row that does not differ in time, field or data description from the rows before it, or when no row was put before it'),
           'rows': ('number of rows of a block', 'the number of rows per block is not the index of the row that starts the second block'),
           'ants': ('number of antennas', 'the antenna count is not one more than the highest antenna index of the first block'),
           'late': ('rows of the first block', 'a row is added to the first block although its time, field or data description differs from that of the rows before it'),
           'first': ('first row', 'the time, field and data description of the first row are not remembered'),
           'hdr': ('further rows', 'the remembered time, field or data description changes while the first block is filled')}
    for k, (nm, bad) in txt.items():
        l = [x for x in res[k] if x is not None]
        if not res[k]:
            r.undecided('%s: %s' % (lab, nm), 'no place was found')
            continue
        verdict(r, False if False in l else True if l else None, '%s: %s' % (lab, nm), 'decided at every place', bad)
        r.count('places', len(res[k]))
    if any(s.what == 'store' and s.args[0][:2] == v.rpb for s in sites):
        verdict(r, 'due' not in res, '%s: the layout is recorded' % lab, '', 'the header is not written after the layout was fixed and before the next row is added')


class PutJudge(Judge):
    def __init__(self, d, site, rem):
        v = view(d)
        self.v, self.s = v, site
        ks = (v.rpb, v.ants, v.cur) + tuple(rem.values())
        self.bind = {('cur', k): '%s.%s' % k for k in ks}
        self.names = {k: '%s.%s' % k for k in ks}
        self.envs = list(randint.samples(site.e, site.facts.items(), 900, self.bind, self.names, 2, None, 80))

    def empty(self):
        for f in self.s.facts:
            if f[0] == 'tb' and f[1] == 'Empty':
                return f
        return ('tb', 'Empty', ('?',))


def relayout(d, r):
    """elsewhere the layout is only set when there is none, or to what it is, or from a file that is opened"""
    R, v = d.R, view(d)
    n = 0
    fs = [(f, Col) for f in mgr.mgr_roots(d)]
    for f, C_ in fs:
        rule0, e0 = mgr.analyse(d, f)
        if not any(x[:2] in (v.rpb, v.ants) for p in rule0.paths for x in p.user['sets']) or R.base(f) == R.mgr.split('::')[-1] or R.base(f) == d.R.mgr:
            continue
        rule = Cut(R, f, {v.rpb, v.ants}, {v.cur})
        e = flow.Engine(R.mod, R.T, f, rule)
        rule.eng = e
        e.run()
        sites = [Site(e, k, i, f) for w, l in rule.sites.items() for k, i in l.items()]
        res = []
        for s in sites:
            if s.what == 'store' and s.args[0][:2] in (v.rpb, v.ants):
                k = s.args[0][:2]
                if any(t[0] == 'rd' for t in subterms(s.args[1])):
                    continue
                j = PutJudge(d, s, {})
                res.append(j.all(lambda val: val(('cur', k)) == val(s.args[1]) or val(('cur', v.rpb)) == 0))
        if res:
            n += 1
            l = [x for x in res if x is not None]
            verdict(r, False if False in l else True if l else None, '%s: the layout is fixed once' % R.label(f),
                    'a layout is not replaced by another one', 'the rows per block or the antenna count can be set to another value while there is a layout')
    r.require(n, 'no function of the manager that sets the layout was found')


# ---------------------------------------------------------------- P28
ANT = ('ANTENNA1', 'ANTENNA2')


def s32(x):
    x &= 0xffffffff
    return x - (1 << 32) if x >> 31 else x


def p28(r):
    import buffer
    buffer.p34_parts(r, ('MaxAntennaIndex',))
    d = data()
    R, v = d.R, view(d)
    table_columns(d)
    if d.tabmissing & set(ANT):
        r.bad('columns of the table', 'a column of the table is not opened: %s' % ', '.join(sorted(d.tabmissing & set(ANT))))
        return
    n = {}
    names = layout_names(d)
    for f, e0, sites0, thr in colruns(d):
        lab = R.label(f)
        if thr:
            for s in sites0:
                if s.what in ('v:encode',):
                    count(d, r, n, e0, s, lab, names)
            continue
        for s in sites0:
            if s.what == 'v:initializeDecode':
                count(d, r, n, e0, s, lab, names)
        if not any(s.what in ('tb:SetData', 'v:decode') for s in sites0):
            continue
        rule = Cut(R, f, {v.rpb, v.ants}, {v.cur} | {m for m in col_members(d).ants})
        e = flow.Engine(R.mod, R.T, f, rule)
        rule.eng = e
        e.run()
        d.states += e.visited
        if e.capped:
            r.undecided(lab, 'too many states')
            continue
        sites = [Site(e, k, i, f) for w, l in rule.sites.items() for k, i in l.items()]
        for what, nm, pos in (('tb:SetData', 'a row that is put', (2, 3)), ('v:decode', 'a row that is decoded', (4, 5))):
            res, own = [], []
            for s in sites:
                if s.what != what:
                    continue
                cs = [cell(d, s.args[p]) if p < len(s.args) else None for p in pos]
                if None in cs:
                    own.append(None)
                    continue
                own.append(tuple(c[0] for c in cs) in (ANT, ANT[::-1]) and cs[0][1] == cs[1][1])
                if what == 'tb:SetData':
                    own[-1] = own[-1] and cs[0][1] == ROW
                res.append(valid(d, s, [s.args[p] for p in pos], what))
            if not own:
                continue
            n[what] = n.get(what, 0) + 1
            verdict(r, group(own), '%s: antennas of %s' % (lab, nm), 'the two antenna indices of its row', 'the antenna indices are not those of the two antennas of the row')
            l = [x for x in res if x is not None]
            if any(('blur',) in s.facts for s in sites) and False not in l:
                l = []
            verdict(r, False if False in l else True if l else None, '%s: antenna indices of %s are valid' % (lab, nm), '',
                    'an antenna index that is negative or not below the antenna count of the blocks is accepted when the normalization uses antenna indices')
            r.count('places', len(res))
    for w in ('tb:SetData', 'v:decode', 'v:encode', 'v:initializeDecode'):
        r.require(n.get(w), 'no place with %s was found' % w)
    r.count('states', d.states)


def count(d, r, n, e, s, lab, names):
    """the antenna count that an encoder or decoder gets is that of the layout"""
    t = s.args[-1]
    n[s.what] = n.get(s.what, 0) + 1
    ok = eq_named(e, t, 'ants', names)
    nm = '%s: antenna count of %s' % (lab, s.what[2:])
    if (nm, ok) in d.__dict__.setdefault('seen28', set()):
        return
    d.seen28.add((nm, ok))
    verdict(r, ok, nm, 'the antenna count of the layout', 'values are encoded or decoded for another number of antennas than that of the layout')


def valid(d, s, terms, what):
    v = view(d)
    j = AntJudge(d, s, [strip_w(t) for t in terms])
    uses = ('vc', 'usesAntennaIndices', ('arg', 0))

    def fn(val):
        if not val(uses) & 1:
            return None
        a = [s32(val(strip_w(t))) for t in terms]
        rpb = val(s.now(v.rpb))
        if min(a) < 0:
            return False
        return True if not rpb and what == 'tb:SetData' else max(a) < val(s.now(v.ants))
    x = j.all(fn)
    return None if x is False and ('blur',) in s.facts else x


class AntJudge(Judge):
    """antenna indices are negative, below, at or above the count"""

    def __init__(self, d, site, terms):
        v, m = view(d), col_members(d)
        ks = (v.rpb, v.ants, v.cur)
        self.v, self.s = v, site
        names = {k: '%s.%s' % k for k in ks}
        names.update({k: '%s.%s' % v.ants for k in m.ants})
        self.bind = {('cur', k): '%s.%s' % k for k in ks}

        def special(env, k):
            for q, t in enumerate(terms):
                c = [-1, -2, 0, 1, 2, 3, 4, -2 ** 31, 2 ** 31 - 1][(k // (1 if q == 0 else 9)) % 9]
                env.over[env.canon(t)] = c & randint.M64
        self.envs = list(randint.samples(site.e, site.facts.items(), 81 * 8, self.bind, names, 2, special, 400))
