"""Path-sensitive abstract interpretation of one root (typestate analysis).

A state holds terms for the live values, terms for memory slots, facts (branch conditions that were
taken), the set of held locks and the state of the rule.  States are propagated over the control flow
graph until no new state appears; terms are kept finite by widening at loop headers and by a depth
limit.  There is no solver: a condition is known only when it was taken itself or follows from constants.
"""
import re
from . import ap, vslot
from .ir import is_int, int_val

MAXDEPTH = 11
CAP = 1500


def depth(t):
    if not isinstance(t, tuple):
        return 0
    d = 0
    for x in t[1:]:
        if isinstance(x, tuple):
            k = depth(x)
            if k > d:
                d = k
    return d + 1


def contains(t, s):
    if t == s:
        return True
    if isinstance(t, tuple):
        for x in t[1:]:
            if isinstance(x, tuple) and contains(x, s):
                return True
    return False


def any_sub(t, pred):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str) and pred(t):
            return True
        for x in t[1:]:
            if isinstance(x, tuple) and any_sub(x, pred):
                return True
    return False


def atoms(t, out):
    """atomic symbols of a term"""
    if not isinstance(t, tuple) or not t:
        return
    if t[0] in ('arg', 'al', 'r', 'u', 'm', 'v', 'h', 'ld', 'new', 'glob', 'lp', 'scan'):
        out.add(t)
        if t[0] in ('m', 'v'):
            atoms(t[1], out)
        return
    for x in t[1:]:
        if isinstance(x, tuple):
            atoms(x, out)


C = lambda n: ('c', n)
NULL = ('null',)
ZERO = C(0)


def split(t):
    """pointer term -> (base, constant offset)"""
    if t[0] == '+':
        return t[1], t[2]
    return t, 0


def padd(t, off):
    b, o = split(t)
    return ('+', b, o + off) if o + off else b


def mk_not(t):
    if t[0] == 'not':
        return t[1]
    if t[0] == 'c':
        return C(1 - (t[1] & 1))
    return ('not', t)


def order(a, b):
    # constants on the right
    if a[0] in ('c', 'null') and b[0] not in ('c', 'null'):
        return b, a
    if b[0] in ('c', 'null'):
        return a, b
    return (a, b) if repr(a) <= repr(b) else (b, a)


def simple_getter(f):
    if len(f.blocks) != 1 or len(f.args) != 1:
        return None
    val = {}
    for i in f.insts():
        if i.op == 'getelementptr' and not i.get('var') and i.get('off') is not None:
            p = i.ops[0]
            b = 0 if p in f.argids else val.get(p, (None,))[0] if isinstance(p, int) else None
            if b is None:
                return None
            val[i.id] = (b + i.raw['off'], 'p')
        elif i.op == 'load':
            p = i.ops[0]
            if not isinstance(p, int):
                return None
            b = 0 if p in f.argids else val.get(p, (None, None))
            if b != 0 and b[1] != 'p':
                return None
            val[i.id] = (b if b == 0 else b[0], i.get('size', 8))
        elif i.op in ('trunc', 'zext', 'icmp'):
            if i.op == 'icmp' and not (i.raw['pred'] == 'ne' and isinstance(i.ops[1], dict) and str(i.ops[1].get('v')) == '0'):
                return None
            if i.ops[0] not in val or val[i.ops[0]][1] == 'p':
                return None
            val[i.id] = val[i.ops[0]]
        elif i.op == 'ret':
            v = val.get(i.ops[0]) if i.ops and isinstance(i.ops[0], int) else None
            return None if v is None or v[1] == 'p' else v
        else:
            return None
    return None


class State:
    __slots__ = ('regs', 'mem', 'hav', 'facts', 'locks', 'user', 'path', 'ver')

    def copy(self):
        s = State.__new__(State)
        s.regs = dict(self.regs)
        s.mem = dict(self.mem)
        s.hav = self.hav
        s.facts = dict(self.facts)
        s.locks = self.locks
        s.user = dict(self.user)
        s.path = self.path
        s.ver = self.ver
        return s

    def key(self):
        return (frozenset(self.regs.items()), frozenset(self.mem.items()), self.hav, frozenset(self.facts.items()),
                self.locks, frozenset(self.user.items()), self.ver)


class Engine:
    def __init__(self, mod, types, fn, rule, volatile=None):
        self.mod, self.types, self.fn, self.rule = mod, types, fn, rule
        self.P = ap.Paths(fn, types)
        self.bt = {}
        for k in range(len(fn.args)):
            t = self.P.btype.get(('arg', k))
            if t:
                self.bt[('arg', k)] = t
        self.volatile = volatile or {}
        self.visited = 0
        self.capped = False
        self.begins = set()
        self.olds = {}      # what the terms for unknown values stood for
        self.ignore_unwind = False
        self.cur = None
        self.liveness()
        self.sig = {}

    # ---------------------------------------------------------------- liveness
    def liveness(self):
        fn = self.fn
        use, de = {}, {}
        for b in fn.blocks.values():
            u, d = set(), set()
            for i in b.insts:
                if i.op == 'phi':
                    d.add(i.id)
                    continue
                for o in self.operands(i):
                    if o not in d:
                        u.add(o)
                d.add(i.id)
            use[b.id], de[b.id] = u, d
        live = {b: set() for b in fn.blocks}
        ch = True
        order_ = sorted(fn.blocks, reverse=True)
        while ch:
            ch = False
            for b in order_:
                out = set()
                for s in fn.blocks[b].succ:
                    out |= live[s]
                    for i in fn.blocks[s].insts:
                        if i.op == 'phi':
                            for v, p in i.raw['in']:
                                if p == b and isinstance(v, int):
                                    out.add(v)
                new = use[b] | (out - de[b])
                if new != live[b]:
                    live[b] = new
                    ch = True
        # live at block entry after the phis
        self.live = {}
        for b in fn.blocks.values():
            ph = {i.id for i in b.insts if i.op == 'phi'}
            self.live[b.id] = live[b.id] | ph
        dom = fn.dominators()
        self.header = set()
        for b in fn.blocks.values():
            for s in b.succ:
                x = b.id
                while True:
                    if x == s:
                        self.header.add((b.id, s))
                        break
                    if x == 0 or x not in dom:
                        break
                    x = dom[x]

    def operands(self, i):
        r = []

        def add(o):
            if isinstance(o, int) and o not in self.fn.argids:
                r.append(o)
        for o in i.ops:
            add(o)
        for o in i.args:
            add(o)
        for k in ('cv', 'cond'):
            add(i.get(k))
        for v in i.get('var') or []:
            add(v[0] if isinstance(v, (list, tuple)) else v)
        return r

    # ---------------------------------------------------------------- terms
    def term(self, st, o):
        if isinstance(o, dict):
            k = o['k']
            if k == 'int':
                return C(int(o['v']))
            if k == 'null' or k == 'zero':
                return NULL
            if k == 'fp':
                return ('fp', o['v'])
            if k == 'glob':
                return ('glob', o['n'])
            if k == 'fn':
                return ('fn', o['n'])
            if k == 'gepc':
                return padd(self.term(st, o['b']), o['off'])
            if k == 'undef':
                return ('undef',)
            return ('k', str(o.get('v')))
        if o in self.fn.argids:
            return ('arg', self.fn.argids[o])
        t = st.regs.get(o)
        return t if t is not None else ('u', o)

    def fresh(self, st, kind, i):
        a = (kind, i.id)
        self.redefine(st, a)
        return a

    def redefine(self, st, a):
        """the atom gets a new meaning: forget what was known about it"""
        self.rule.on_redefine(self, st, a)
        dead = [f for f in st.facts if contains(f, a)]
        known = {}
        for k, v in list(st.regs.items()):
            if contains(v, a):
                c = None
                if dead and k in self.fn.inst and self.fn.inst[k].t == 'i1':
                    c = self.eval(st, v)
                known[k] = ('u', k) if c is None else C(int(c))
                self.olds.setdefault(('u', k), set()).add(v)
        for f in dead:
            del st.facts[f]
        for k, v in list(st.mem.items()):
            if contains(k[0], a):
                del st.mem[k]
            elif contains(v, a) and v != a:
                self.olds.setdefault(('u', 'stale', k), set()).add(v)
                st.mem[k] = ('u', 'stale', k)
        st.regs.update(known)

    def limit(self, st, t, i):
        if depth(t) > (MAXDEPTH + 8 if i.t == "i1" else MAXDEPTH):
            self.olds.setdefault(('u', i.id), set()).add(t)
            return self.fresh(st, 'u', i)
        return t

    # ---------------------------------------------------------------- types
    def btype(self, base):
        t = self.bt.get(base)
        if t is None and base[0] in ('m', 'v'):
            bt = self.btype(base[1])
            if bt:
                m = self.types.member(bt, base[2])[1]
                if m and m[-1:] in '*&':
                    t = ap.norm_type(m[:-1])
                    self.bt[base] = t
        if t is None and base[0] == 'node':
            t = self.node_type(base[1])
            if t:
                self.bt[base] = t
        return t

    def node_type(self, it):
        if it[0] in ('find', 'scan'):
            m = self.obj_type(it[1])
            if m and m.startswith('std::map<'):
                a = ap.targs(m)
                return ap.norm_type('std::pair<%s const, %s>' % (a[0], a[1])) if False else ap.norm_type('std::pair<const %s, %s>' % (a[0], a[1]))
        return None

    def obj_type(self, addr):
        """type of the object that starts at this address"""
        b, o = split(addr)
        t = self.btype(b)
        if t is None:
            return None
        if o == 0:
            return t
        # outermost member that starts here
        off = o
        while True:
            r = self.types.get(t)
            if r is None:
                return None
            best = None
            for nm, mo, ms, mt in r['m']:
                if nm == '<base>':
                    br = self.types.get(mt)
                    ms = br['size'] if br else 0
                if mo <= off < mo + max(ms, 1) and (best is None or ms > best[2]):
                    best = (nm, mo, ms, mt)
            if best is None:
                return None
            t, off = ap.norm_type(best[3]), off - best[1]
            if off == 0 and best[0] != '<base>':
                return t
            if off == 0 and best[0] == '<base>':
                # first member of a base
                continue
    def field(self, addr):
        """(owner class, member, rest) of the innermost member of a class of this library"""
        b, o = split(addr)
        t = self.btype(b)
        if t is None:
            return None
        path, mt, rest = self.types.member(t, o)
        own = [k for k, (ow, m) in enumerate(path) if not ap.STD.match(ow) and m != '<base>']
        if not own:
            return None
        k = own[-1]
        return (ap.short(path[k][0]), path[k][1], '.'.join(m for _, m in path[k + 1:] if m != '<base>'))

    # ---------------------------------------------------------------- memory
    def load(self, st, addr, size, i):
        b, o = split(addr)
        k = (b, o)
        v = st.mem.get(k)
        if v is not None:
            return v
        f = self.field(addr)
        vol = f and (f[0], f[1]) in self.volatile
        if vol:
            v = ('v', b, o, st.ver)
        else:
            v = ('m', b, o)
            ns = {n for (hb, lo, hi, n) in st.hav if hb == b and lo <= o < hi}
            if ns:
                v = ('m', b, o, tuple(sorted(ns, key=str)))
        return v

    def is_local(self, b):
        return b[0] in ('al', 'new')

    def store(self, st, addr, val, size, i):
        b, o = split(addr)
        if not self.is_local(b):
            f = self.field(addr)
            for k in list(st.mem):
                if k[1] == o and k[0] != b and not self.is_local(k[0]):
                    # may be the same object when the types agree or are not known
                    g = self.field(padd(k[0], k[1]))
                    if f is None or g is None or f == g:
                        if f is None and g is not None:
                            continue
                        del st.mem[k]
                        self.havoc(st, k[0], k[1], k[1] + 1, i.id)
        # overlapping slots
        for k in list(st.mem):
            if k[0] == b and k[1] != o and o < k[1] < o + size:
                del st.mem[k]
                self.havoc(st, b, k[1], k[1] + 1, i.id)
        st.mem[(b, o)] = val

    def havoc(self, st, b, lo, hi, n):
        self.redefine_hav(st, b, lo, hi, n)
        for k in list(st.mem):
            if k[0] == b and lo <= k[1] < hi:
                del st.mem[k]
        st.hav = frozenset([h for h in st.hav if not (h[0] == b and lo <= h[1] and h[2] <= hi)] + [(b, lo, hi, n)])

    def redefine_hav(self, st, b, lo, hi, n):
        p = lambda t: t[0] == 'm' and len(t) == 4 and t[1] == b and lo <= t[2] < hi and n in t[3]
        for f in [f for f in st.facts if any_sub(f, p)]:
            del st.facts[f]
        for k, v in list(st.mem.items()):
            if any_sub(v, p):
                st.mem[k] = ('u', 'stale', k)
        for k, v in list(st.regs.items()):
            if any_sub(v, p):
                self.olds.setdefault(('u', k), set()).add(v)
                st.regs[k] = ('u', k)

    def havoc_obj(self, st, addr, n):
        b, o = split(addr)
        size = 1 << 20
        if b[0] != 'al':
            t = self.obj_type(addr)
            r = self.types.get(t) if t else None
            if r:
                size = r['size']
            elif t:
                size = 8
        self.havoc(st, b, o, o + size, n)

    def havoc_fields(self, st, fields, n, keep=()):
        """forget the values of these members of all objects"""
        for k in list(st.mem):
            if self.is_local(k[0]):
                continue
            f = self.field(padd(k[0], k[1]))
            if f and (f[0], f[1]) in fields:
                del st.mem[k]
                self.havoc(st, k[0], k[1], k[1] + 1, n)

    def bump(self, st, n, fields=None):
        """values shared with other threads may have changed"""
        for f in [f for f in st.facts if any_sub(f, lambda t: t[0] in ('pred', 'v'))]:
            del st.facts[f]
        for k, v in list(st.mem.items()):
            if any_sub(k[0], lambda t: t[0] == 'node') and not any_sub(k[0], lambda t: t[0] == 'u'):
                # the key and the item pointer of a node do not change; the content of the item might
                if k[0][0] != 'node':
                    del st.mem[k]
                    self.havoc(st, k[0], k[1], k[1] + 1, n)
            elif any_sub(v, lambda t: t[0] == 'v'):
                del st.mem[k]
            elif any_sub(v, lambda t: t[0] == 'pred'):
                st.mem[k] = ('u', 'stale', k)
            elif not self.is_local(k[0]):
                f = self.field(padd(k[0], k[1]))
                if f and (f[0], f[1]) in self.volatile:
                    del st.mem[k]
        for k, v in list(st.regs.items()):
            if any_sub(v, lambda t: t[0] in ('pred', 'v')):
                st.regs[k] = ('u', k)
        st.ver = n

    # ---------------------------------------------------------------- conditions
    def cmp(self, st, pred, a, b):
        if pred in ('eq', 'ne'):
            if a == b and a[0] != 'undef':
                t = C(1)
            else:
                a, b = order(a, b)
                if a[0] == 'c' and b[0] == 'c':
                    t = C(int(a[1] == b[1]))
                elif b == NULL and self.nonnull(a):
                    t = C(0)
                elif a[0] in ('pred', 'not') and b[0] == 'c':
                    t = a if b[1] == 1 else mk_not(a)
                else:
                    t = self.special(st, a, b) or ('eq', a, b)
            return mk_not(t) if pred == 'ne' else t
        s, r = pred[0], pred[1:]
        if r in ('gt', 'ge'):
            a, b = b, a
            r = {'gt': 'lt', 'ge': 'le'}[r]
        if r == 'le':
            return mk_not(self.cmp(st, s + 'lt', b, a))
        if a[0] == 'c' and b[0] == 'c':
            x, y = a[1], b[1]
            return C(int(x < y))
        if a == b:
            return C(0)
        if s == 'u' and b == C(1):
            return self.cmp(st, 'eq', a, ZERO)
        if s == 'u' and a == ZERO:
            return mk_not(self.cmp(st, 'eq', b, ZERO))
        if a[0] == 'size':
            return mk_not(('pred', 'full', a[1], None, st.ver))
        if b[0] == 'size':
            return ('pred', 'full', b[1], None, st.ver)
        return (s + 'lt', a, b)

    def special(self, st, a, b):
        for x, y in ((a, b), (b, a)):
            if y[0] == 'end' and x[0] in ('find', 'scan') and x[1] == y[1]:
                if x[0] == 'find':
                    return ('pred', 'absent', x[1], x[2], st.ver)
                if x[2] in self.begins and self.rule.begin_is_empty:
                    return ('pred', 'empty', x[1], None, st.ver)
                return ('pred', 'exhausted', x[1], None, st.ver)
            if x[0] == 'size' and y == ZERO:
                return ('pred', 'empty', x[1], None, st.ver)
            if x[0] == 'count' and y == ZERO:
                return ('pred', 'absent', x[1], x[2], st.ver)
        return None

    def rescan(self, st, M):
        """another position: whether it is the end is not known"""
        for f in [f for f in st.facts if f[0] == 'pred' and f[1] == 'exhausted' and f[2] == M]:
            del st.facts[f]
        for k, v in list(st.regs.items()):
            if any_sub(v, lambda t: t[0] == 'pred' and t[1] == 'exhausted'):
                st.regs[k] = ('u', k)

    def nonnull(self, t):
        b, o = split(t)
        return b[0] in ('al', 'new', 'glob', 'fn', 'node') or (b == ('arg', 0)) or (o != 0)

    def eval(self, st, t):
        """True, False or None"""
        neg = False
        while t[0] == 'not':
            t, neg = t[1], not neg
        v = None
        if t[0] == 'c':
            v = bool(t[1] & 1)
        elif t in st.facts:
            v = st.facts[t]
        elif t[0] == 'eq':
            a, b = t[1], t[2]
            if b[0] in ('c', 'null'):
                for f, val in st.facts.items():
                    if f[0] == 'eq' and f[1] == a and val and f[2][0] in ('c', 'null'):
                        v = (f[2] == b)
                        break
                if v is None and a[0] == 'ite':
                    pass
        elif t[0] == 'and':
            x, y = self.eval(st, t[1]), self.eval(st, t[2])
            v = False if x is False or y is False else (True if x and y else None)
        elif t[0] == 'or':
            x, y = self.eval(st, t[1]), self.eval(st, t[2])
            v = True if x or y else (False if x is False and y is False else None)
        elif t[0] in ('ult', 'slt'):
            # x < c with a known value of x
            a, b = t[1], t[2]
            va, vb = self.known(st, a), self.known(st, b)
            if va is not None and vb is not None:
                v = va < vb
        if v is None:
            v = self.rule.on_eval(self, st, t)
        if v is None:
            return None
        return v != neg

    def known(self, st, a):
        if a[0] == 'c':
            return a[1]
        for f, val in st.facts.items():
            if val and f[0] == 'eq' and f[1] == a and f[2][0] == 'c':
                return f[2][1]
        return None

    def assume(self, st, t, val):
        """adds the fact; False when it contradicts what is known"""
        while t[0] == 'not':
            t, val = t[1], not val
        e = self.eval(st, t)
        if e is not None and e != val:
            return False
        if t[0] == 'c':
            return True
        if t[0] == 'and' and val:
            return self.assume(st, t[1], True) and self.assume(st, t[2], True)
        if t[0] == 'or' and not val:
            return self.assume(st, t[1], False) and self.assume(st, t[2], False)
        st.facts[t] = val
        self.rule.on_assume(self, st, t, val)
        # combined conditions of which one part is known now
        for f, fv in list(st.facts.items()):
            if f[0] == 'or' and fv or f[0] == 'and' and not fv:
                for x, y in ((f[1], f[2]), (f[2], f[1])):
                    if self.eval(st, x) is (not fv) and self.eval(st, y) is not fv:
                        if not self.assume(st, y, fv):
                            return False
        return True

    # ---------------------------------------------------------------- driver
    def run(self, init=None):
        st = State.__new__(State)
        st.regs, st.mem, st.hav, st.facts = {}, {}, frozenset(), {}
        st.locks, st.user, st.path, st.ver = frozenset(), {}, None, 0
        self.rule.start(self, st)
        if init:
            init(self, st)
        seen = {b: set() for b in self.fn.blocks}
        work = [(0, st)]
        seen[0].add(st.key())
        while work:
            b, s = work.pop()
            self.visited += 1
            for nb, ns in self.block(b, s):
                ns = self.enter(nb, ns, b)
                k = ns.key()
                if k in seen[nb]:
                    continue
                if len(seen[nb]) > CAP:
                    self.capped = True
                    continue
                seen[nb].add(k)
                ns.path = (nb, s.path)
                work.append((nb, ns))
        self.seen = seen
        return self

    def enter(self, nb, st, pb):
        blk = self.fn.blocks[nb]
        back = (pb, nb) in self.header
        new, raw = {}, {}
        for i in blk.insts:
            if i.op != 'phi':
                break
            for v, p in i.raw['in']:
                if p == pb:
                    t = self.term(st, v)
                    break
            else:
                t = ('u', i.id)
            raw[i.id] = t
            if back and i.t != 'i1':
                old = st.regs.get(i.id)
                if old is not None:
                    self.rule.on_next(self, st, i, old, t)
                if old is not None and t != old and (t[0] == 'c' and i.t != 'i8' or t[0] != 'c' and old[0] != 'c' and contains(t, old) or depth(t) > 5
                                                     or old[0] == 'c' and t[0] != 'c' and i.t != 'i8'):
                    t = None
            new[i.id] = t
        if back:
            self.rule.on_back(self, st, nb, raw)
        for r, t in new.items():
            if t is None:
                a = ('u', r)
                self.redefine(st, a)
                new[r] = a
        st.regs.update(new)
        lv = self.live[nb]
        st.regs = {k: v for k, v in st.regs.items() if k in lv}
        self.project(st)
        # memory that can not be reached any more
        at = set()
        for v in st.regs.values():
            atoms(v, at)
        todo = list(st.mem.items())
        mem = {}
        ch = True
        while ch and todo:
            ch = False
            rest = []
            for k, v in todo:
                ba = set()
                atoms(k[0], ba)
                if all(x in at for x in ba if x[0] in ('r', 'u', 'new', 'lp', 'al', 'scan')):
                    mem[k] = v
                    atoms(v, at)
                    ch = True
                else:
                    rest.append((k, v))
            todo = rest
        st.mem = mem
        if st.hav:
            hv = []
            for h in st.hav:
                ba = set()
                atoms(h[0], ba)
                if all(x in at for x in ba if x[0] in ('r', 'u', 'new', 'lp', 'al', 'scan')):
                    hv.append(h)
            st.hav = frozenset(hv)
        # facts about values that are gone
        if st.facts:
            keep = {}
            for f, v in st.facts.items():
                if f[0] == 'pred':
                    keep[f] = v
                    continue
                fa = set()
                atoms(f, fa)
                fa = {x for x in fa if x[0] in ('r', 'u', 'lp', 'scan')}
                if fa and fa <= at or self.rule.keep(self, st, f) or any(contains(x, f) for x in st.regs.values()):
                    keep[f] = v
            st.facts = keep
        self.rule.on_enter(self, st)
        return st

    def project(self, st):
        """forgets members the rule does not need"""
        drop = []
        for k in st.mem:
            if self.is_local(k[0]):
                continue
            f = self.field(padd(k[0], k[1]))
            if not self.rule.tracked(self, f):
                drop.append(k)
        for k in drop:
            del st.mem[k]
            st.hav = frozenset([h for h in st.hav if not (h[0] == k[0] and h[1] == k[1] and h[2] == k[1] + 1)] + [(k[0], k[1], k[1] + 1, '?')])
        if drop:
            p = lambda t: t[0] == 'm' and len(t) == 4 and '?' in t[3]
            for f in [f for f in st.facts if any_sub(f, p)]:
                del st.facts[f]
            for k, v in list(st.regs.items()):
                if any_sub(v, p):
                    st.regs[k] = ('u', k)

    def block(self, b, st):
        st = st.copy()
        blk = self.fn.blocks[b]
        for i in blk.insts:
            op = i.op
            if op == 'phi':
                continue
            self.cur = i
            if op in ('call', 'invoke'):
                res = self.call(st, i)
                if op == 'invoke':
                    out = []
                    if res != 'noreturn':
                        out.append((i.raw['normal'], st))
                    if not i.get('nounwind') and not self.ignore_unwind and self.unw is not None:
                        s2 = self.unw
                        out.append((i.raw['unwind'], s2))
                    return out
                if not i.get('nounwind') and not i.get('intr') and not self.ignore_unwind and self.unw is not None:
                    self.rule.on_exit(self, self.unw, i, 'throw')
                if res == 'noreturn':
                    return []
                continue
            if op == 'br':
                if len(blk.succ) == 1 or 'cond' not in i.raw and not isinstance(i.ops[0], (int, dict)):
                    return [(blk.succ[0], st)]
                c = self.term(st, i.ops[0])
                # operands are cond, false, true
                f, t = i.ops[1]['v'], i.ops[2]['v']
                return self.fork(st, c, t, f)
            if op == 'switch':
                c = self.term(st, i.raw['cond'])
                out, rest = [], st.copy()
                for v, tgt in i.raw['cases']:
                    s2 = rest.copy()
                    q = self.cmp(s2, 'eq', c, C(int(v)))
                    if self.assume(s2, q, True):
                        out.append((tgt, s2))
                    if not self.assume(rest, q, False):
                        rest = None
                        break
                if rest is not None:
                    out.append((i.raw['default'], rest))
                return out
            if op == 'ret':
                self.rule.on_exit(self, st, i, 'ret')
                return []
            if op == 'resume':
                self.rule.on_exit(self, st, i, 'unwind')
                return []
            if op == 'unreachable':
                return []
            self.simple(st, i)
        return [(s, st.copy()) for s in blk.succ]

    def fork(self, st, c, t, f):
        if t == f:
            return [(t, st)]
        e = self.eval(st, c)
        out = []
        if e is not False:
            s = st.copy()
            if self.assume(s, c, True):
                out.append((t, s))
        if e is not True:
            s = st.copy()
            if self.assume(s, c, False):
                out.append((f, s))
        return out

    def simple(self, st, i):
        op = i.op
        if op == 'alloca':
            st.regs[i.id] = ('al', i.id)
        elif op == 'load':
            a = self.term(st, i.ops[0])
            v = self.load(st, a, i.get('size', 8), i)
            if i.t in ('i8', 'i1') and v[0] in ('pred', 'not', 'eq', 'ult', 'slt', 'and', 'or'):
                pass
            self.rule.on_load(self, st, i, a, v)
            st.regs[i.id] = v
        elif op == 'store':
            a = self.term(st, i.ops[1])
            v = self.limit(st, self.term(st, i.ops[0]), i)
            old = st.mem.get(split(a))
            self.rule.on_store(self, st, i, a, v, old)
            self.store(st, a, v, i.get('size', 8), i)
        elif op == 'getelementptr':
            p = self.term(st, i.ops[0])
            if i.get('var'):
                t = ('gv', p, i.get('off', 0), tuple(self.term(st, v[0] if isinstance(v, (list, tuple)) else v) for v in i.raw['var']))
                st.regs[i.id] = self.limit(st, t, i)
            else:
                o = i.get('off')
                st.regs[i.id] = padd(p, o) if o is not None else self.fresh(st, 'u', i)
        elif op in ('zext', 'sext', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'addrspacecast'):
            st.regs[i.id] = self.term(st, i.ops[0])
        elif op == 'trunc':
            t = self.term(st, i.ops[0])
            if i.t == 'i1':
                # the library only stores 0 and 1 in booleans
                if t[0] not in ('c', 'pred', 'not', 'eq', 'ult', 'slt', 'and', 'or'):
                    t = mk_not(self.cmp(st, 'eq', t, ZERO))
                st.regs[i.id] = t
            elif t[0] == 'c':
                w = int(i.t[1:]) if i.t[1:].isdigit() else 64
                st.regs[i.id] = C(t[1] & ((1 << w) - 1))
            else:
                st.regs[i.id] = self.limit(st, ('tr', i.t, t), i)
        elif op == 'icmp':
            a, b = self.term(st, i.ops[0]), self.term(st, i.ops[1])
            bools = ('pred', 'not', 'eq', 'ult', 'slt', 'and', 'or')
            if a[0] in bools and b[0] == 'c' and i.raw['pred'] in ('eq', 'ne'):
                t = a if (b[1] & 1) == (i.raw['pred'] == 'eq') else mk_not(a)
            else:
                t = self.cmp(st, i.raw['pred'], a, b)
            st.regs[i.id] = self.limit(st, t, i)
        elif op == 'select':
            c = self.term(st, i.ops[0])
            e = self.eval(st, c)
            a, b = self.term(st, i.ops[1]), self.term(st, i.ops[2])
            if e is not None:
                t = a if e else b
            elif a == b:
                t = a
            elif i.t == 'i1' and b == ZERO:
                t = ('and', c, a)
            elif i.t == 'i1' and a == C(1):
                t = ('or', c, b)
            else:
                t = ('ite', c, a, b)
            st.regs[i.id] = self.limit(st, t, i)
        elif op in ('add', 'sub', 'mul', 'udiv', 'urem', 'sdiv', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            st.regs[i.id] = self.limit(st, self.arith(st, i, op, self.term(st, i.ops[0]), self.term(st, i.ops[1])), i)
        elif op == 'landingpad':
            st.regs[i.id] = self.fresh(st, 'lp', i)
        elif op == 'extractvalue':
            st.regs[i.id] = ('ev', self.term(st, i.ops[0]), tuple(i.get('idx', [])))
        elif op == 'atomicrmw':
            a = self.term(st, i.ops[0])
            self.rule.on_atomic(self, st, i, a)
            st.regs[i.id] = self.fresh(st, 'u', i)
        elif op in ('insertvalue', 'fence'):
            st.regs[i.id] = self.fresh(st, 'u', i)
        else:
            args = tuple(self.term(st, o) for o in i.ops)
            st.regs[i.id] = self.limit(st, (op,) + args, i) if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext', 'fptrunc', 'fcmp') and args else self.fresh(st, 'u', i)
            if op == 'fcmp':
                st.regs[i.id] = self.limit(st, ('fcmp', i.raw['pred']) + tuple(args), i)

    def arith(self, st, i, op, a, b):
        w = int(i.t[1:]) if i.t[1:].isdigit() else 64
        M = (1 << w) - 1
        if i.t == 'i1':
            if op == 'xor' and b == C(1):
                return mk_not(a)
            if op == 'and':
                if b == C(1):
                    return a
                return ('and', a, b)
            if op == 'or':
                if b == ZERO:
                    return a
                return ('or', a, b)
        if a[0] == 'c' and b[0] == 'c':
            x, y = a[1] & M, b[1] & M
            try:
                r = {'add': x + y, 'sub': x - y, 'mul': x * y, 'shl': x << min(y, 64), 'lshr': x >> y, 'and': x & y, 'or': x | y, 'xor': x ^ y,
                     'udiv': x // y if y else None, 'urem': x % y if y else None}.get(op)
            except Exception:
                r = None
            if r is not None:
                return C(r & M)
        if op == 'sub' and b[0] == 'c':
            op, b = 'add', C((-b[1]) & M)
        if op == 'shl' and b[0] == 'c':
            op, b = 'mul', C(1 << b[1])
        if op == 'lshr' and b[0] == 'c':
            op, b = 'udiv', C(1 << b[1])
        if op in ('add', 'mul', 'and', 'or', 'xor'):
            a, b = order(a, b)
        if op == 'add':
            if b == ZERO:
                return a
            if b[0] == 'c' and a[0] == 'add' and a[2][0] == 'c':
                return self.arith(st, i, 'add', a[1], C((a[2][1] + b[1]) & M))
        if op == 'mul' and b == C(1) or op == 'udiv' and b == C(1):
            return a
        if op == 'mul' and b == ZERO:
            return ZERO
        if w < 64 and op in ('add', 'mul') and b[0] != 'c':
            return (op, a, b, w)        # wraps around earlier
        return (op, a, b)

    # ---------------------------------------------------------------- calls
    def params(self, i):
        """const-ness of the arguments of a call: list of booleans"""
        k = (i.callee, len(i.args))
        if k in self.sig:
            return self.sig[k]
        d = i.cdem
        n = len(i.args)
        out = [False] * n
        base = ap.strip_args(d)
        rest = d[len(base):]
        if rest.startswith('('):
            # matching parenthesis
            c, e = 0, len(rest)
            for p, ch in enumerate(rest):
                if ch in '(<':
                    c += 1
                elif ch == ')' or ch == '>' and rest[p - 1] != '-':
                    c -= 1
                    if c == 0:
                        e = p
                        break
            inner, tail = rest[1:e], rest[e + 1:]
            ps, c, cur = [], 0, ''
            for p, ch in enumerate(inner):
                if ch in '(<':
                    c += 1
                elif ch in ')>' and not (ch == '>' and inner[p - 1:p] == '-'):
                    c -= 1
                if ch == ',' and c == 0:
                    ps.append(cur.strip())
                    cur = ''
                else:
                    cur += ch
            if cur.strip():
                ps.append(cur.strip())
            for q, p in enumerate(reversed(ps)):
                if q < n:
                    out[n - 1 - q] = bool(re.search(r'const ?[&*]$', p)) or p[-1:] not in '&*'
            m = n - len(ps)
            if m > 0 and ' const' in tail:
                out[m - 1] = True
        self.sig[k] = out
        return out

    def getter(self, tg):
        """(offset, size) when all targets only return the same member of their object"""
        k = tuple(tg or ())
        c = self.__dict__.setdefault('_getters', {})
        if k in c:
            return c[k]
        r = set()
        for n in k:
            f = self.mod.byname.get(n)
            r.add(simple_getter(f) if f is not None else None)
        c[k] = r.pop() if len(r) == 1 else None
        return c[k]

    def call(self, st, i):
        """executes the call; self.unw is the state when it throws"""
        q = i.cq
        args = [self.term(st, a) for a in i.args]
        self.unw = st.copy()
        if i.callee is None:
            tg = vslot.targets(self.mod, self.P, i, self.types)
            g = self.getter(tg)
            if g is not None and args:
                a = padd(args[0], g[0])
                v = self.load(st, a, g[1], i)
                self.rule.on_load(self, st, i, a, v)
                self.unw = None
                if i.t == 'i1' and v[0] not in ('c', 'pred', 'not', 'eq', 'ult', 'slt', 'and', 'or'):
                    v = mk_not(self.cmp(st, 'eq', v, ZERO))
                st.regs[i.id] = v
                return None
            r = self.rule.on_vcall(self, st, i, tg, args)
            for a, t in zip(i.args, args):
                if t[0] == 'al':
                    self.havoc_obj(st, t, i.id)
            self.rule_unw(st, i)
            if r is not None and isinstance(r, tuple):
                st.regs[i.id] = r
            elif i.t != 'void':
                st.regs[i.id] = self.fresh(st, 'r', i)
            return None
        if q.startswith('llvm.'):
            if q.startswith('llvm.lifetime'):
                if args[1][0] == 'al':
                    al = args[1]
                    for k in [k for k in st.mem if k[0] == al]:
                        del st.mem[k]
                    st.hav = frozenset(h for h in st.hav if h[0] != al)
                return None
            if q.startswith('llvm.mem') and args:
                self.havoc_obj(st, args[0], i.id)
                self.rule.on_memop(self, st, i, args)
                return None
            if i.t != 'void':
                m = re.match(r'llvm\.(umin|umax|smin|smax)', q)
                if m:
                    st.regs[i.id] = self.limit(st, (m.group(1),) + order(args[0], args[1]), i)
                else:
                    st.regs[i.id] = self.fresh(st, 'r', i)
            return None
        if q == 'pthread_mutex_lock':
            self.rule.on_lock(self, st, i, args[0])
            st.locks = st.locks | {args[0]}
            st.regs[i.id] = ZERO
            return None
        if q == 'pthread_mutex_trylock':
            st.regs[i.id] = self.fresh(st, 'r', i)
            return None
        if q == 'pthread_mutex_unlock':
            self.rule.on_unlock(self, st, i, args[0])
            st.locks = st.locks - {args[0]}
            st.regs[i.id] = ZERO
            return None
        nm = ap.strip_args(i.cdem)
        r = self.library(st, i, nm, args)
        if r is not None:
            return None if r is True else r
        # generic call
        cst = self.params(i)
        rr = self.rule.on_call(self, st, i, nm, args)
        if rr == 'noreturn':
            return 'noreturn'
        pure = isinstance(rr, tuple) and rr[0] == 'pure'
        if not pure:
            for a, t, c in zip(i.args, args, cst):
                if c or t[0] in ('c', 'fp', 'null', 'glob', 'fn', 'k', 'undef'):
                    continue
                aid = a if isinstance(a, int) else None
                if aid is not None and aid not in self.fn.argids and self.fn.inst[aid].t != 'ptr':
                    continue
                b, o = split(t)
                if b[0] == 'arg' and o == 0 and self.btype(b) is None:
                    continue
                if t == args[0] and self.base_call(nm, t):
                    continue
                self.havoc_obj(st, t, i.id)
        self.rule_unw(st, i)
        if i.t != 'void':
            if pure and len(rr) > 1 and rr[1] is not None:
                st.regs[i.id] = rr[1]
            elif nm in ('operator new', 'operator new[]', '__cxa_allocate_exception'):
                st.regs[i.id] = self.fresh(st, 'new', i)
                for k in [k for k in st.mem if k[0] == ('new', i.id)]:
                    del st.mem[k]
            else:
                st.regs[i.id] = self.fresh(st, 'r', i)
                t = ap.ret_type(i)
                if t:
                    self.bt[('r', i.id)] = t
        if i.get('noreturn'):
            return 'noreturn'
        return None

    def base_call(self, nm, t):
        """member function of a base class outside this library: does not reach the members of this library"""
        cls, m = self.cls_of(nm)
        if not cls.startswith('casacore::'):
            return False
        bt = self.obj_type(t)
        return bool(bt) and bt.startswith('dyscostman::') and (cls in self.types.bases(bt) or not self.types.get(cls))

    def rule_unw(self, st, i):
        if self.unw is None:
            return
        u = self.rule.on_unwind(self, st, self.unw, i)
        if u is not None:
            self.unw = u

    CONT = re.compile(r'^std::(map|vector|set|multimap|deque|list)<')
    ITER = re.compile(r'^(std::_Rb_tree_(const_)?iterator<|__gnu_cxx::__normal_iterator<)')

    def cls_of(self, nm):
        # class part of a qualified name
        d = 0
        for k in range(len(nm) - 1, 0, -1):
            c = nm[k]
            if c == '>' and nm[k - 1] != '-':
                d += 1
            elif c == '<':
                d -= 1
            elif c == ':' and d == 0 and nm[k - 1] == ':':
                return nm[:k - 1], nm[k + 1:]
        return '', nm

    def library(self, st, i, nm, args):
        """containers, iterators and condition variables"""
        # return types of template functions precede the name
        if nm.startswith('bool ') or nm.startswith('void '):
            nm = nm[5:]
        if nm.startswith('std::condition_variable::'):
            m = nm.rsplit('::', 1)[-1]
            self.unw = None     # errors end the program
            if m.startswith('wait'):
                lk = self.load(st, args[1], 8, i)
                self.rule.on_wait(self, st, i, args[0], lk)
                if i.t != 'void':
                    st.regs[i.id] = self.fresh(st, 'r', i)
                return True
            if m.startswith('notify'):
                self.rule.on_notify(self, st, i, args[0], m == 'notify_all')
                return True
            return None
        cls, m = self.cls_of(nm)
        m = m.split('[abi')[0]
        base = m.split('<')[0]
        if base in ('operator==', 'operator!=') and cls in ('std', '__gnu_cxx') or base in ('operator==', 'operator!=') and self.ITER.match(cls):
            if len(args) == 2 and 'iterator' in i.cdem:
                a, b = self.load(st, args[0], 8, i), self.load(st, args[1], 8, i)
                t = self.cmp(st, 'eq', a, b)
                st.regs[i.id] = mk_not(t) if base == 'operator!=' else t
                return True
            return None
        if self.ITER.match(cls):
            if base == 'operator++' or base == 'operator--':
                it = self.load(st, args[0], 8, i)
                if it[0] == 'scan':
                    a = ('scan', it[1], i.id)
                    self.redefine(st, a)
                    self.rescan(st, it[1])
                else:
                    a = self.fresh(st, 'u', i)
                if len(args) == 2:      # postfix
                    st.regs[i.id] = it
                else:
                    st.regs[i.id] = args[0]
                st.mem[split(args[0])] = a
                return True
            if base in ('operator->', 'operator*'):
                it = self.load(st, args[0], 8, i)
                st.regs[i.id] = ('node', it)
                return True
            if base.startswith('_Rb_tree') or base.startswith('__normal_iterator'):
                if len(args) >= 2:
                    st.mem[split(args[0])] = self.load(st, args[1], 8, i)
                return True
            return None
        if self.CONT.match(cls):
            M = args[0]
            r = None
            if base in ('find', 'count'):
                key = self.load(st, args[1], 8, i)
                r = (base, M, key)
            elif base in ('end', 'cend'):
                r = ('end', M)
            elif base in ('begin', 'cbegin'):
                r = ('scan', M, i.id)
                self.begins.add(i.id)
                self.redefine(st, r)
                self.rescan(st, M)
            elif base == 'size':
                r = ('size', M)
            elif base == 'empty':
                r = ('pred', 'empty', M, None, st.ver)
            if r is not None:
                self.rule.on_container(self, st, i, M, base, args)
                self.unw = None
                st.regs[i.id] = r
                return True
            if base in ('insert', 'emplace', 'emplace_hint', 'insert_or_assign', 'try_emplace', 'erase', 'clear', 'push_back', 'emplace_back', 'swap', 'operator=', 'resize', 'pop_back', 'reserve') \
                    or base == 'operator[]' and cls.startswith('std::map'):
                self.rule.on_container(self, st, i, M, base, args)
                # what was known about the content is gone
                for f in [f for f in st.facts if f[0] == 'pred' and f[2] == M]:
                    del st.facts[f]
                for k, v in list(st.regs.items()):
                    if any_sub(v, lambda t: t[0] == 'pred' and t[2] == M):
                        st.regs[k] = ('u', k)
                for k, v in list(st.mem.items()):
                    if any_sub(v, lambda t: t[0] == 'pred' and t[2] == M):
                        st.mem[k] = ('u', 'stale', k)
                self.rule.on_mutated(self, st, i, M, base, args)
                self.rule_unw(st, i)
                if i.t != 'void':
                    if base == 'erase' and i.t == 'ptr':
                        r = ('scan', M, i.id)
                        self.redefine(st, r)
                        st.regs[i.id] = r
                    else:
                        st.regs[i.id] = self.fresh(st, 'r', i)
                        t = ap.ret_type(i)
                        if t:
                            self.bt[('r', i.id)] = t
                return True
        return None


class Rule:
    def start(self, e, st): pass
    def on_redefine(self, e, st, a): pass
    def on_next(self, e, st, phi, old, new): pass
    def on_eval(self, e, st, t): return None
    def on_enter(self, e, st): pass
    def on_back(self, e, st, header, phis): pass
    def on_assume(self, e, st, t, val): pass
    def keep(self, e, st, f): return False
    def tracked(self, e, f): return True
    def on_load(self, e, st, i, addr, v): pass
    def on_store(self, e, st, i, addr, v, old): pass
    begin_is_empty = False
    def on_atomic(self, e, st, i, addr): pass
    def on_memop(self, e, st, i, args): pass
    def on_lock(self, e, st, i, m): pass
    def on_unlock(self, e, st, i, m): pass
    def on_wait(self, e, st, i, cv, m): pass
    def on_notify(self, e, st, i, cv, all_): pass
    def on_container(self, e, st, i, M, op, args): pass
    def on_mutated(self, e, st, i, M, op, args): pass
    def on_call(self, e, st, i, nm, args): return None
    def on_vcall(self, e, st, i, targets, args): return None
    def on_unwind(self, e, st, unw, i): return None
    def on_exit(self, e, st, i, kind): pass
