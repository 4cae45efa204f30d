"""The vector that buffers blocks: a summary of every path through every operation (conditions, allocations, copies and
the new bounds as linear forms of the sizes), judged in the domain of linear inequalities: the contents are a list of
segments with symbolic bounds, so one judgement covers all sizes."""
import itertools
import os
import re
from math import gcd
from vfw import num, build, ir
from vfw.build import AnalysisError, BuildError

UNIT = os.path.join(build.VERIF, 'checks', 'units', 'uvector.cc')
KEEP = [r'^std::(__new_allocator|allocator)<.*>::(allocate|deallocate)$',
        r'^std::(copy|move|copy_n|move_backward|copy_backward|fill|fill_n|uninitialized_[a-z_]*|distance|__throw[a-z_]*)(<|$)',
        r'^std::(exception|out_of_range|logic_error|length_error)']
W = 8


class Undecided(Exception):
    pass


class Bad(Exception):
    pass


class Split(Exception):
    """the sign of a form is needed"""


# ------------------------------------------------------------------ linear forms and inequalities
class L:
    __slots__ = ('c', 't')

    def __init__(self, c=0, t=()):
        self.c, self.t = c, tuple(sorted((v, k) for v, k in (t.items() if isinstance(t, dict) else t) if k))

    def __add__(self, o):
        d = dict(self.t)
        for v, k in o.t:
            d[v] = d.get(v, 0) + k
        return L(self.c + o.c, d)

    def __sub__(self, o):
        return self + o.times(-1)

    def times(self, k):
        return L(self.c * k, [(v, x * k) for v, x in self.t])

    def div(self, k):
        """exact division, or None"""
        if self.c % k or any(x % k for _, x in self.t):
            return None
        return L(self.c // k, [(v, x // k) for v, x in self.t])

    def sub(self, v, form):
        d = dict(self.t)
        k = d.pop(v, 0)
        return L(self.c, d) + form.times(k)

    def of(self, v):
        return dict(self.t).get(v, 0)

    def at(self, env):
        return self.c + sum(k * env[v] for v, k in self.t)

    def __eq__(self, o):
        return isinstance(o, L) and self.c == o.c and self.t == o.t

    def __hash__(self):
        return hash((self.c, self.t))


def K(c):
    return L(c)


def V(name):
    return L(0, {name: 1})


ONE = K(1)
_feas = {}


def tight(f):
    """f >= 0 over whole numbers"""
    g = 0
    for _, k in f.t:
        g = gcd(g, abs(k))
    return L(f.c // g, [(v, k // g) for v, k in f.t]) if g > 1 else f


def feasible(cons):
    """is there a solution of f >= 0 for all f (eliminates the variables one by one)"""
    key = frozenset(cons)
    if key in _feas:
        return _feas[key]
    cur = {tight(f) for f in cons}
    res = True
    while True:
        if any(not f.t and f.c < 0 for f in cur):
            res = False
            break
        cur = {f for f in cur if f.t}
        if not cur:
            break
        best = {}
        for f in cur:
            best[f.t] = min(best.get(f.t, f.c), f.c)
        cur = {L(c, t) for t, c in best.items()}
        names = {v for f in cur for v, _ in f.t}
        v = min(sorted(names), key=lambda x: sum(1 for f in cur if f.of(x) > 0) * sum(1 for f in cur if f.of(x) < 0))
        lo = [f for f in cur if f.of(v) > 0]
        hi = [f for f in cur if f.of(v) < 0]
        cur = {f for f in cur if f.of(v) == 0}
        for a in lo:
            for b in hi:
                cur.add(tight(a.times(-b.of(v)) + b.times(a.of(v))))
        if len(cur) > 4000:
            raise Undecided('the sizes have too many relations')
    _feas[key] = res
    return res


NEG = lambda f: f.times(-1) - ONE            # f < 0
EQ = lambda f: [f, f.times(-1)]


def dnf(c, want=True):
    """a condition as a list of alternatives, each a list of forms that are >= 0"""
    if isinstance(c, bool):
        return [[]] if c == want else []
    k = c[0]
    if k == 'not':
        return dnf(c[1], not want)
    if k == 'and' and want or k == 'or' and not want:
        return [a + b for a in dnf(c[1], want) for b in dnf(c[2], want)]
    if k in ('and', 'or'):
        return dnf(c[1], want) + dnf(c[2], want)
    if k == 'if':
        return [a + b for a in dnf(c[1]) for b in dnf(c[2], want)] + [a + b for a in dnf(c[1], False) for b in dnf(c[3], want)]
    p, a, b = c[1:]
    if not want:
        p = {'eq': 'ne', 'ne': 'eq'}.get(p) or p[0] + {'lt': 'ge', 'ge': 'lt', 'le': 'gt', 'gt': 'le'}[p[1:]]
    d = a - b
    if p == 'eq':
        return [EQ(d)]
    if p == 'ne':
        return [[d - ONE], [NEG(d)]]
    if p[1:] in ('gt', 'ge'):
        p, a, b = p[0] + {'gt': 'lt', 'ge': 'le'}[p[1:]], b, a
    less = b - a - ONE if p[1:] == 'lt' else b - a
    if p[0] == 's':
        return [[less]]
    return [[a, b, less], [a, NEG(b)], [NEG(a), NEG(b), less]]


class Path:
    def __init__(self):
        self.ssa, self.mem, self.eff, self.cons, self.ret, self.end = {}, {}, [], [], None, None
        self.news = 0
        self.tmp = 0

    def copy(self):
        p = Path()
        p.ssa, p.mem, p.eff, p.cons = dict(self.ssa), dict(self.mem), list(self.eff), list(self.cons)
        p.news, p.tmp = self.news, self.tmp
        return p

    def narrowed(self, c, want):
        out = []
        for alt in dnf(c, want):
            if feasible(self.cons + alt):
                q = self.copy()
                q.cons += alt
                out.append(q)
        return out


def ptr(b, s=None):
    return ('ptr', b, V(s).times(W) if s else K(0))


def number(v):
    return v[0] == 'n'


class Paths:
    """all paths through one operation"""

    def __init__(self, f, lay, args, start):
        self.f, self.lay, self.fin, self.steps = f, lay, [], 0
        p = Path()
        p.cons, p.mem = list(start.cons), dict(start.mem)
        for k, a in enumerate(args):
            p.ssa[k] = a
        self.loops = self.find_loops()
        self.go(p, 0, None)

    def find_loops(self):
        f, out = self.f, {}
        reach = {}

        def from_(b):
            if b not in reach:
                seen, todo = set(), list(f.blocks[b].succ)
                while todo:
                    x = todo.pop()
                    if x not in seen:
                        seen.add(x)
                        todo += f.blocks[x].succ
                reach[b] = seen
            return reach[b]
        order, seen = [], set()
        todo = [0]
        while todo:
            b = todo.pop()
            if b in seen:
                continue
            seen.add(b)
            order.append(b)
            todo += f.blocks[b].succ[::-1]
        for b in order:
            if b in from_(b) and not any(b in l for l in out.values()):
                out[b] = {x for x in seen if x in from_(b) and b in from_(x)}
        return out

    # ------------------------------------------------------------ values
    def val(self, p, o):
        if isinstance(o, dict):
            if o['k'] == 'int':
                v = int(o['v'])
                return ('n', K(v - (1 << 64) if v >> 63 else v))
            if o['k'] == 'null':
                return ptr('null')
            if o['k'] == 'fp':
                return ('el', ('const', str(o['v'])))
            return ('x',)
        return p.ssa.get(o, ('x',))

    def num(self, p, o):
        v = self.val(p, o)
        if v[0] == 'alien':
            raise Bad('a size is the difference of places in different memory')
        if not number(v):
            raise Undecided('a number is not known')
        return v[1]

    def ptrv(self, v):
        if v[0] == 'addr':
            return ('ptr', v[1], v[2])
        if v[0] != 'ptr':
            raise Undecided('a pointer is not known')
        return v

    def cond(self, p, o):
        v = self.val(p, o)
        if v[0] == 'alien':
            raise Bad('a size is the difference of places in different memory')
        if v[0] == 'cond':
            return v[1]
        if number(v):
            return ('cmp', 'ne', v[1], K(0)) if v[1].t else v[1].c & 1 != 0
        raise Undecided('a condition is not understood')

    def compare(self, pred, a, b):
        kinds = {a[0], b[0]}
        if 'alien' in kinds:
            return None
        if kinds & {'ptr', 'addr'} and kinds <= {'ptr', 'addr', 'n'}:
            if number(a):
                a = ('addr', 'null', a[1])
            if number(b):
                b = ('addr', 'null', b[1])
            if a[1] == b[1]:
                return ('cmp', pred, a[2], b[2])
            if pred not in ('eq', 'ne'):
                raise Undecided('pointers of different memory are compared')
            return pred == 'ne'
        if kinds == {'n'}:
            return ('cmp', pred, a[1], b[1])
        if 'cond' in kinds and kinds <= {'cond', 'n'} and pred in ('eq', 'ne'):
            c, o = (a, b) if a[0] == 'cond' else (b, a)
            if number(o) and not o[1].t:
                return c[1] if (o[1].c != 0) == (pred == 'eq') else ('not', c[1])
        raise Undecided('values are compared')

    # ------------------------------------------------------------ blocks
    def go(self, p, b, pred, stop=None):
        self.steps += 1
        if self.steps > 3000:
            raise Undecided('too many paths')
        if stop is not None and pred is not None and b == stop[0]:
            return stop[1](p, pred)
        if b in self.loops and (pred is None or pred not in self.loops[b]) and stop is None:
            return self.loop(p, b, pred)
        if stop is not None and b not in self.loops[stop[0]]:
            return stop[2](p, b, pred)
        self.phis(p, b, pred)
        return self.run(p, b, stop)

    def phis(self, p, b, pred):
        new = {}
        for i in self.f.blocks[b].insts:
            if i.op == 'phi':
                for o, q in i.raw['in']:
                    if q == pred:
                        new[i.id] = self.val(p, o)
        p.ssa.update(new)

    def run(self, p, b, stop=None, at=0):
        insts = self.f.blocks[b].insts
        for k in range(at, len(insts)):
            i = insts[k]
            if i.op == 'phi':
                continue
            if i.op == 'br':
                return self.branch(p, b, i, stop)
            if i.op == 'ret':
                p.ret = self.val(p, i.ops[0]) if i.ops else None
                p.end = 'ret'
                self.fin.append(p)
                return
            if i.op in ('unreachable', 'resume'):
                return
            alts = self.choices(p, i)
            if alts is not None:
                if stop is not None and len(alts) > 1:
                    raise Undecided('a loop has more than one condition')
                for q, v in alts:
                    q.ssa[i.id] = v
                    self.run(q, b, stop, k + 1)
                return
            if self.step(p, i) == 'throw':
                p.end = 'throw'
                self.fin.append(p)
                return
            if i.op == 'invoke':
                nxt = [x for x in self.f.blocks[b].succ if x != i.get('unwind')]
                return self.go(p, nxt[0], b, stop=stop)
        raise Undecided('a block has no end')

    def choices(self, p, i):
        """instructions whose result depends on a condition"""
        if i.op == 'select':
            c, a, b = self.val(p, i.ops[0]), self.val(p, i.ops[1]), self.val(p, i.ops[2])
            if a == b:
                return [(p, a)]
            if c[0] in ('x', 'alien'):
                return [(p, c)]
            c = self.cond(p, i.ops[0])
            if 'cond' in (a[0], b[0]):
                g = lambda v: v[1] if v[0] == 'cond' else v[1].c & 1 != 0 if number(v) and not v[1].t else None
                return [(p, ('cond', ('if', c, g(a), g(b))) if g(a) is not None and g(b) is not None else ('x',))]
            return [(q, a) for q in p.narrowed(c, True)] + [(q, b) for q in p.narrowed(c, False)]
        m = re.match(r'llvm\.(umax|umin|smax|smin|usub\.sat)', i.callee or '') if i.op == 'call' else None
        if m:
            a, b = self.val(p, i.args[0]), self.val(p, i.args[1])
            if a[0] == b[0] == 'addr' and a[1] == b[1]:
                res = (a, b)
                a, b = a[2], b[2]
            elif number(a) and number(b):
                res = (a, b)
                a, b = a[1], b[1]
            else:
                return [(p, ('x',))]
            k = m.group(1)
            if k == 'usub.sat':
                return [(q, ('n', a - b)) for q in p.narrowed(('cmp', 'uge', a, b), True)] + [(q, ('n', K(0))) for q in p.narrowed(('cmp', 'uge', a, b), False)]
            c = ('cmp', k[0] + 'ge', a, b)
            x, y = res if k.endswith('max') else res[::-1]
            return [(q, x) for q in p.narrowed(c, True)] + [(q, y) for q in p.narrowed(c, False)]
        if i.op in ('zext', 'sext'):
            v = self.val(p, i.ops[0])
            if v[0] == 'cond' and i.op == 'zext' and any(j.op in ('add', 'sub', 'mul', 'getelementptr', 'shl') and (i.id in j.ops or any(x[0] == i.id for x in j.get('var') or [])) for b in self.f.blocks.values() for j in b.insts):
                return [(q, ('n', K(1))) for q in p.narrowed(v[1], True)] + [(q, ('n', K(0))) for q in p.narrowed(v[1], False)]
        return None

    def branch(self, p, b, i, stop):
        succ = self.f.blocks[b].succ
        if len(succ) == 1 or succ[0] == succ[1]:
            return self.go(p, succ[0], b, stop=stop)
        c = self.cond(p, i.ops[0])
        if stop is not None:
            return stop[3](p, b, c, succ)
        for t, s in ((True, succ[0]), (False, succ[1])):
            for q in p.narrowed(c, t):
                self.go(q, s, b)

    # ------------------------------------------------------------ loops
    def loop(self, p, h, pred):
        """one generic iteration of a loop over elements"""
        blocks = self.loops[h]
        phis = [i for i in self.f.blocks[h].insts if i.op == 'phi']
        first = p.copy()
        self.phis(first, h, pred)
        t = 't%d.%d' % (h, len(p.eff))
        entry = {('phi', i.id): first.ssa[i.id] for i in phis}
        for k, v in p.mem.items():
            entry[('mem', k)] = v
        off = lambda v: v[2] if v[0] in ('ptr', 'addr') else v[1] if number(v) else None
        put = lambda v, o: (v[0], v[1], o) if v[0] in ('ptr', 'addr') else ('n', o)
        generic = lambda k, v: V('%r' % (k,)).times(W if v[0] != 'n' else 1)
        steps = {}
        for rnd in (0, 1):
            q = p.copy()
            q.eff = []
            for k, v in entry.items():
                nv = ('x',)
                if off(v) is not None:
                    nv = put(v, generic(k, v) if rnd == 0 else off(v) + V(t).times(steps[k]))
                if k[0] == 'phi':
                    q.ssa[k[1]] = nv
                else:
                    q.mem[k[1]] = nv
            got = {}

            def back(r, frm):
                new = {}
                for i in phis:
                    for o, x in i.raw['in']:
                        if x == frm:
                            new[('phi', i.id)] = self.val(r, o)
                for k in entry:
                    if k[0] == 'mem':
                        new[k] = r.mem.get(k[1], ('x',))
                got['back'] = (r, new)

            def left(r, b, frm):
                raise Undecided('a loop is left in an unexpected way')

            def fork(r, b, c, succ):
                ins = [s for s in succ if s in blocks]
                if len(ins) == 2 or not ins or 'exit' in got:
                    raise Undecided('a loop has more than one condition')
                out = succ[0] if succ[1] == ins[0] else succ[1]
                got['exit'] = (r.copy(), b, c if out == succ[0] else ('not', c), out, len(r.eff))
                return self.go(r, ins[0], b, stop=stop)
            stop = (h, back, left, fork)
            self.run(q, h, stop)
            if 'back' not in got or 'exit' not in got:
                raise Undecided('a loop is not understood')
            if rnd == 0:
                for k, v in entry.items():
                    n = got['back'][1][k]
                    steps[k] = 0
                    if off(v) is None:
                        continue
                    d = off(n) - generic(k, v) if off(n) is not None and n[0] == v[0] and (v[0] == 'n' or n[1] == v[1]) else None
                    if d is None or d.t:
                        raise Undecided('a variable of a loop is not understood')
                    steps[k] = d.c
        r, b, c, out, ne = got['exit']
        eff = got['back'][0].eff
        for q, n in self.trips(p, t, c):
            q.ssa = {k: fix(v, t, n) for k, v in r.ssa.items()}
            q.mem = {k: fix(v, t, n) for k, v in r.mem.items()}
            q.eff = p.eff + self.bulk(eff, ne, t, n)
            q.tmp = max(r.tmp, got['back'][0].tmp)
            self.go(q, out, b)

    def trips(self, p, t, c):
        """how often a loop is repeated"""
        alts = dnf(c)                      # the loop is left
        stay = dnf(c, False)
        out = []
        if len(alts) == 1 and len(alts[0]) == 2 and alts[0][0] == alts[0][1].times(-1) and abs(alts[0][0].of(t)):
            f = alts[0][0]
            k = -f.of(t)
            n = (f + V(t).times(k)).div(k)
            if n is None:
                raise Undecided('the number of repetitions is not known')
            if feasible(p.cons + [NEG(n)]):
                q = p.copy()
                q.cons.append(NEG(n))
                if sample(q.cons):
                    raise Bad('a loop over elements does not end')
            q = p.copy()
            q.cons.append(n)
            return [(q, n)]
        # left once an inequality over the counter holds
        stay = [a for a in stay if feasible(p.cons + [V(t)] + a)]
        if len(stay) == 1:
            dep = [f for f in stay[0] if f.of(t)]
            inv = [f for f in dep if f.of(t) > 0]
            dep = [f for f in dep if f.of(t) < 0]
            if len(dep) == 1 and dep[0].of(t) in (-1, -W):
                k = -dep[0].of(t)
                n = (dep[0] + V(t).times(k) + K(k)) if k == 1 else None
                if k == W:
                    m = (dep[0] + V(t).times(k) + ONE)
                    n = m.div(W)
                if n is None:
                    raise Undecided('the number of repetitions is not known')
                q = p.copy()
                q.cons.append(n)
                if feasible(q.cons):
                    out.append((q, n))
                q = p.copy()
                q.cons.append(NEG(n))
                if feasible(q.cons):
                    out.append((q, K(0)))
                return out
        if not stay:
            return [(p.copy(), K(0))]
        raise Undecided('the number of repetitions is not known')

    def bulk(self, eff, ne, t, n):
        """the effects of all repetitions"""
        if not eff:
            return []
        if 0 < ne < len(eff):
            raise Undecided('a loop is not understood')
        count = n + ONE if ne else n
        stores = [e for e in eff if e[0] == 'store']
        loads = {e[1]: e for e in eff if e[0] == 'load'}
        if len(stores) + len(loads) != len(eff) or len(stores) != 1:
            raise Undecided('a loop does more than copying elements')
        s = stores[0]
        d = s[1]
        k = d[2].of(t)
        if k not in (W, -W):
            raise Undecided('a loop does not step from element to element')
        low = lambda x: ('ptr', x[1], x[2].sub(t, K(0))) if k > 0 else ('ptr', x[1], x[2].sub(t, count - ONE))
        if s[2] and s[2][0] == 'tmp' and s[2][1] in loads:
            a = loads[s[2][1]][2]
            if a[2].of(t) == k:
                return [('copy', low(d), low(a), count.times(W), 'fwd' if k > 0 else 'bwd', s[-1])]
            if a[2].of(t) == 0:
                return [('fill', low(d), count.times(W), a, s[-1])]
            raise Undecided('a loop does not step from element to element')
        return [('fillv', low(d), count.times(W), s[2], s[-1])]

    # ------------------------------------------------------------ instructions
    def step(self, p, i):
        o = i.op
        if o in ('call', 'invoke'):
            return self.call(p, i)
        if o == 'getelementptr':
            a = self.val(p, i.ops[0])
            if a[0] == 'x':
                p.ssa[i.id] = a
                return
            a = self.ptrv(a)
            off = a[2] + K(i.get('off') or 0)
            for v in i.get('var') or []:
                off = off + self.num(p, v[0]).times(int(v[1]))
            p.ssa[i.id] = ('ptr', a[1], off)
        elif o == 'load':
            a = self.val(p, i.ops[0])
            if a[0] == 'x':
                p.ssa[i.id] = a
                return
            a = self.ptrv(a)
            if a[1] in ('v', 'w') or a[1].startswith('loc'):
                if a[2].t:
                    raise Undecided('a member is not known')
                p.ssa[i.id] = p.mem.get((a[1], a[2].c), ('x',))
            else:
                p.tmp += 1
                p.eff.append(('load', p.tmp, a, i.where))
                p.ssa[i.id] = ('el', ('tmp', p.tmp))
        elif o == 'store':
            a, v = self.val(p, i.ops[1]), self.val(p, i.ops[0])
            a = self.ptrv(a)
            if a[1] in ('v', 'w') or a[1].startswith('loc'):
                if a[2].t:
                    raise Undecided('a member is not known')
                p.mem[(a[1], a[2].c)] = v
            else:
                p.eff.append(('store', a, v[1] if v[0] == 'el' else None, i.where))
        elif o == 'alloca':
            p.ssa[i.id] = ptr('loc%d' % i.id)
        elif o in ('ptrtoint',):
            v = self.val(p, i.ops[0])
            p.ssa[i.id] = ('addr',) + v[1:] if v[0] == 'ptr' else ('x',)
        elif o in ('inttoptr', 'bitcast', 'freeze'):
            v = self.val(p, i.ops[0])
            p.ssa[i.id] = ('ptr',) + v[1:] if v[0] == 'addr' else v
        elif o in ('zext', 'sext', 'trunc'):
            p.ssa[i.id] = self.val(p, i.ops[0])
        elif o == 'icmp':
            c = self.compare(i.raw['pred'], self.val(p, i.ops[0]), self.val(p, i.ops[1]))
            p.ssa[i.id] = ('cond', c) if c is not None else ('alien',)
        elif o in ('add', 'sub', 'mul', 'ashr', 'lshr', 'shl', 'sdiv', 'udiv', 'and', 'or', 'xor'):
            p.ssa[i.id] = self.arith(p, o, self.val(p, i.ops[0]), self.val(p, i.ops[1]), i)
        else:
            p.ssa[i.id] = ('x',)

    def arith(self, p, o, a, b, i):
        if 'cond' in (a[0], b[0]) and o in ('and', 'or', 'xor'):
            x, y = self.cond(p, i.ops[0]), self.cond(p, i.ops[1])
            return ('cond', (o, x, y) if o != 'xor' else ('or', ('and', x, ('not', y)), ('and', ('not', x), y)))
        if a[0] == 'addr' and b[0] == 'addr':
            if o == 'sub' and 'null' in (a[1], b[1]) and not (a[2].t or b[2].t) and a[1] != b[1]:
                # "the address itself": only good for further address arithmetic
                return (a[0], a[1], a[2] - b[2]) if b[1] == 'null' else ('x',)
            return ('n', a[2] - b[2]) if o == 'sub' and a[1] == b[1] else ('alien',) if o == 'sub' else ('x',)
        if a[0] == 'addr' and number(b) and o in ('add', 'sub'):
            return ('addr', a[1], a[2] + b[1] if o == 'add' else a[2] - b[1])
        if b[0] == 'addr' and number(a) and o == 'add':
            return ('addr', b[1], b[2] + a[1])
        if 'alien' in (a[0], b[0]):
            return ('alien',)
        if not (number(a) and number(b)):
            return ('x',)
        x, y = a[1], b[1]
        if o == 'add':
            return ('n', x + y)
        if o == 'sub':
            return ('n', x - y)
        if o == 'mul' and not y.t:
            return ('n', x.times(y.c))
        if o == 'mul' and not x.t:
            return ('n', y.times(x.c))
        if y.t:
            return ('x',)
        if o == 'shl' and 0 <= y.c < 32:
            return ('n', x.times(1 << y.c))
        if o in ('ashr', 'lshr', 'sdiv', 'udiv'):
            k = 1 << y.c if o[-1] == 'r' else y.c
            if k <= 0 or feasible(p.cons + [NEG(x)]) and (o in ('lshr', 'udiv') or x.div(k) is None):
                return ('x',)
            if x.div(k) is not None:
                return ('n', x.div(k))
            return ('n', self.whole(p, i, x, k))
        if o == 'and' and y.c < 0 and -y.c & (-y.c - 1) == 0 and x.div(-y.c) is not None:
            return ('n', x)
        if o == 'and' and (y.c > 0 and (y.c + 1) & y.c == 0 or y.c < 0 and -y.c & (-y.c - 1) == 0) and not feasible(p.cons + [NEG(x)]):
            k = y.c + 1 if y.c > 0 else -y.c
            h = self.whole(p, i, x, k).times(k)
            return ('n', x - h if y.c > 0 else h)
        return ('x',)

    def whole(self, p, i, x, k):
        """a division that leaves a remainder"""
        h = V('half%d.%d' % (i.id, len(p.cons)))
        p.cons += [x - h.times(k), h.times(k) + K(k - 1) - x]
        return h

    def call(self, p, i):
        n = i.cq or i.callee or ''
        full = i.callee or ''
        if full.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental')):
            return
        A = [self.val(p, a) for a in i.args]
        n, k = n.replace('operator new', 'operator_new').replace('operator delete', 'operator_delete'), None
        while n != k:
            n, k = re.sub(r'<[^<>]*>', '', n), n
        n = n.split('(')[0]
        f = n.split('::')[-1]
        if n == '__cxa_throw' or f.startswith('__throw') or n == '__cxa_rethrow':
            return 'throw'
        if n.startswith('__cxa') or n.startswith(('std::out_of_range', 'std::length_error', 'std::logic_error')):
            p.ssa[i.id] = ('x',)
            return
        P = self.ptrv
        std = n.startswith('std::')
        if full.startswith(('llvm.memcpy', 'llvm.memmove')) or n in ('memcpy', 'memmove', 'std::memcpy', 'std::memmove'):
            p.eff.append(('copy', P(A[0]), P(A[1]), self.num(p, i.args[2]), 'all', i.where))
            p.ssa[i.id] = A[0]
        elif f == 'allocate':
            self.alloc(p, i, self.num(p, i.args[1]))
        elif n.startswith('operator_new'):
            l = self.num(p, i.args[0]).div(W)
            if l is None:
                raise Undecided('the amount of memory is not known')
            self.alloc(p, i, l)
        elif f == 'equal_':
            p.ssa[i.id] = ('n', V('equal'))
            p.cons += [V('equal'), ONE - V('equal')]
        elif f == 'deallocate':
            p.eff.append(('free', P(A[1]), self.num(p, i.args[2]), i.where))
        elif n.startswith('operator_delete'):
            l = self.num(p, i.args[1]).div(W) if len(A) > 1 else None
            p.eff.append(('free', P(A[0]), l, i.where))
        elif std and f in ('copy', 'move', 'uninitialized_copy', 'uninitialized_move') and len(A) >= 3:
            a, b, d = P(A[0]), P(A[1]), P(A[2])
            l = self.dist(a, b)
            p.eff.append(('copy', d, a, l, 'fwd', i.where))
            p.ssa[i.id] = ('ptr', d[1], d[2] + l)
        elif std and f in ('copy_n', 'uninitialized_copy_n') and len(A) == 3:
            l = self.num(p, i.args[1]).times(W)
            d = P(A[2])
            p.eff.append(('copy', d, P(A[0]), l, 'fwd', i.where))
            p.ssa[i.id] = ('ptr', d[1], d[2] + l)
        elif std and f in ('copy_backward', 'move_backward'):
            a, b, d = P(A[0]), P(A[1]), P(A[2])
            l = self.dist(a, b)
            d = ('ptr', d[1], d[2] - l)
            p.eff.append(('copy', d, a, l, 'bwd', i.where))
            p.ssa[i.id] = d
        elif std and f in ('fill', 'uninitialized_fill'):
            a, b = P(A[0]), P(A[1])
            self.fill(p, a, self.dist(a, b), P(A[2]), i)
        elif std and f in ('fill_n', 'uninitialized_fill_n'):
            a = P(A[0])
            l = self.num(p, i.args[1]).times(W)
            self.fill(p, a, l, P(A[2]), i)
            p.ssa[i.id] = ('ptr', a[1], a[2] + l)
        elif std and f == 'distance':
            l = self.dist(P(A[0]), P(A[1])).div(W)
            p.ssa[i.id] = ('n', l) if l is not None else ('x',)
        elif std and f == 'move' and len(A) == 1:
            p.ssa[i.id] = A[0]
        else:
            raise Undecided('the call of %s is not understood' % (n or 'a function'))

    def fill(self, p, a, l, v, i):
        if v[1].startswith('loc'):
            v = p.mem.get((v[1], v[2].c), ('x',))
            p.eff.append(('fillv', a, l, v[1] if v[0] == 'el' else None, i.where))
        else:
            p.eff.append(('fill', a, l, v, i.where))

    def dist(self, a, b):
        if a[1] != b[1]:
            raise Undecided('a range is not known')
        return b[2] - a[2]

    def alloc(self, p, i, n):
        p.news += 1
        name = 'new%d' % p.news
        p.eff.append(('alloc', name, n, dict(p.mem), i.where))
        p.ssa[i.id] = ptr(name)


def fix(v, t, n):
    if v[0] in ('ptr', 'addr'):
        return (v[0], v[1], v[2].sub(t, n))
    if number(v):
        return ('n', v[1].sub(t, n))
    if v[0] == 'cond' and v[1] not in (True, False):
        return ('x',)
    return v


def sample(cons):
    """small sizes for which all inequalities hold"""
    names = sorted({v for f in cons for v, _ in f.t})
    for top in (1, 2, 3, 5):
        for c in itertools.product(range(top + 1), repeat=len(names)):
            env = dict(zip(names, c))
            if all(f.at(env) >= 0 for f in cons):
                return env
        if (top + 2) ** len(names) > 200000:
            break
    return None


# ------------------------------------------------------------------ contents as segments
class Obj:
    """memory: its size and its segments (length, value); a value is (source, place of the first element) or None"""

    def __init__(self, size, seg):
        self.size, self.seg, self.freed = size, seg, False


class Heap:
    def __init__(self, cons, start):
        self.cons, self.tmp = cons, {}
        self.obj = {k: Obj(o.size, list(o.seg)) for k, o in start.obj.items()}

    def sign(self, f):
        """-1, 0 or 1; splits the case if it depends"""
        if not f.t:
            return (f.c > 0) - (f.c < 0)
        can = [s for s, alt in ((-1, [NEG(f)]), (0, EQ(f)), (1, [f - ONE])) if feasible(self.cons + alt)]
        if len(can) > 1:
            raise Split(f)
        return can[0] if can else 0

    def range(self, a, n, what):
        """the memory, and the first element of a range of n elements in it"""
        k = a[2].div(W)
        o = self.obj.get(a[1])
        if o is None:
            raise Bad('memory that does not exist is %s' % what)
        if k is None:
            raise Bad('memory between elements is used')
        if o.freed:
            raise Bad('memory that was released is %s' % what)
        if self.sign(k) < 0 or self.sign(o.size - k - n) < 0:
            raise Bad('memory beyond the allocated elements is %s' % what)
        return o, k

    def cut(self, o, at):
        """the segments before and after a place"""
        head, rest = [], list(o.seg)
        left = at
        while self.sign(left) > 0:
            if not rest:
                raise Bad('memory beyond the allocated elements is used')
            n, v = rest.pop(0)
            d = self.sign(left - n)
            if d >= 0:
                head.append((n, v))
                left = left - n
            else:
                head.append((left, v))
                rest.insert(0, (n - left, shift(v, left)))
                break
        return head, rest

    def read(self, a, n, what='read'):
        if self.sign(n) == 0:
            return []
        o, k = self.range(a, n, what)
        rest = self.cut(o, k)[1]
        t = Obj(None, rest)
        return self.cut(t, n)[0]

    def write(self, a, n, segs):
        if self.sign(n) == 0:
            return
        o, k = self.range(a, n, 'written')
        head, rest = self.cut(o, k)
        rest = self.cut(Obj(None, rest), n)[1]
        o.seg = head + segs + rest

    def apply(self, eff, fields):
        for e in eff:
            k = e[0]
            if k == 'load':
                self.tmp[e[1]] = self.read(e[2], ONE)[0][1]
            elif k == 'store':
                self.write(e[1], ONE, [(ONE, self.value(e[2]))])
            elif k == 'fill':
                n = self.length(e[2])
                if self.sign(n):
                    self.write(e[1], n, [(n, same(self.read(e[3], ONE)[0][1]))])
            elif k == 'fillv':
                n = self.length(e[2])
                self.write(e[1], n, [(n, same(self.value(e[3])))])
            elif k == 'copy':
                n = self.length(e[3])
                segs = self.read(e[2], n)
                if self.sign(n) and e[1][1] == e[2][1] and e[4] != 'all':
                    d = e[1][2] - e[2][2]
                    if e[4] == 'bwd':
                        d = d.times(-1)
                    if self.sign(d) > 0 and self.sign(d - n.times(W)) < 0:
                        raise Bad('elements are overwritten before they are copied')
                self.write(e[1], n, segs)
            elif k == 'alloc':
                if self.sign(e[2]) < 0:
                    raise Bad('more memory is allocated than there can be')
                fields(e[3])
                self.obj[e[1]] = Obj(e[2], [(e[2], None)])
            elif k == 'free':
                b = e[1][1]
                if b in ('src', 'val'):
                    raise Bad('memory of the caller is released')
                o = self.obj.get(b)
                if o is None:
                    if b == 'null' and e[2] is None:
                        continue
                    raise Bad('memory that does not exist is released')
                if o.freed:
                    raise Bad('memory is released twice')
                if self.sign(e[1][2]) != 0:
                    raise Bad('memory is released at another place than where it starts')
                if e[2] is not None and self.sign(e[2] - o.size) != 0:
                    raise Bad('memory is released with another size than it was allocated with')
                o.freed = True

    def value(self, v):
        return v if v == ('val',) else self.tmp.get(v[1]) if v and v[0] == 'tmp' else None

    def length(self, e):
        n = e.div(W)
        if n is None or self.sign(n) < 0:
            raise Bad('a negative number of elements is copied or filled')
        return n

    def same(self, o, n, want):
        """are the first n elements the wanted ones?"""
        have = self.cut(o, n)[0] if self.sign(n) else []
        want = list(want)
        while True:
            while have and self.sign(have[0][0]) == 0:
                have.pop(0)
            while want and self.sign(want[0][0]) == 0:
                want.pop(0)
            if not have or not want:
                return not have and not want
            (a, x), (b, y) = have.pop(0), want.pop(0)
            if y is not None:
                if x is None or x[0] != y[0] and 'same' not in (x[0], y[0]):
                    return False
                if x[0] != 'val':
                    if x[-2:-1] != y[-2:-1] or self.sign(x[-1] - y[-1]) != 0:
                        return False
                    if x[0] != y[0] and self.sign(a - ONE) > 0 and self.sign(b - ONE) > 0:
                        return False
            d = self.sign(a - b)
            if d > 0:
                have.insert(0, (a - b, shift(x, b)))
            elif d < 0:
                want.insert(0, (b - a, shift(y, a)))


def shift(v, n):
    return v if v is None or v[0] in ('val', 'same') else (v[0], v[1] + n)


def same(v):
    """the value of a range that is filled with one element"""
    return v if v is None or v[0] in ('val', 'same') else ('same',) + v


class Start:
    """the vectors before an operation"""

    def __init__(self, spec, lay, null, null2):
        b, e, s = lay
        self.mem, self.obj = {}, {}
        n, c, k = V('n'), V('c'), V('k')
        self.cons = []
        if not spec.fresh:
            self.cons += [n, c - n] + (EQ(n) + EQ(c) if null else [])
            o = 'null' if null else 'old'
            self.mem.update({('v', b): ptr(o), ('v', e): ptr(o, 'n'), ('v', s): ptr(o, 'c')})
            if not null:
                self.obj['old'] = Obj(c, [(n, ('old', K(0))), (c - n, None)])
        if spec.two:
            n2, c2 = V('n2'), V('c2')
            self.cons += [n2, c2 - n2] + (EQ(n2) + EQ(c2) if null2 else [])
            o = 'null' if null2 else 'oth'
            self.mem.update({('w', b): ptr(o), ('w', e): ptr(o, 'n2'), ('w', s): ptr(o, 'c2')})
            if not null2:
                self.obj['oth'] = Obj(c2, [(n2, ('oth', K(0))), (c2 - n2, None)])
        if 'k' in spec.syms:
            self.cons.append(k)
            self.obj['src'] = Obj(k, [(k, ('src', K(0)))])
        self.obj['val'] = Obj(ONE, [(ONE, ('val',))])
        for x in 'pqj':
            if x in spec.syms:
                self.cons += [V(x), n - V(x)]
        self.cons += spec.pre
        self.null, self.null2 = null, null2


class Spec:
    """what an operation leaves: contents (n: segments), the other vector, the result"""

    def __init__(self, args, want, other=None, ret=None, cap=None, pre=(), fresh=False, two=False, throws=None, gone=False, syms=''):
        self.args, self.want, self.other, self.ret, self.cap, self.pre = args, want, other, ret, cap, list(pre)
        self.fresh, self.two, self.throws, self.gone, self.syms = fresh, two, throws, gone, syms


N, N2, CAP, KK, PP, QQ, JJ = V('n'), V('n2'), V('c'), V('k'), V('p'), V('q'), V('j')


def old(a=K(0), b=N):
    return [(b - a, ('old', a))]


OTH = [(N2, ('oth', K(0)))]
SRC = [(KK, ('src', K(0)))]
VAL = [(ONE, ('val',))]
VALS = [(KK, ('val',))]
NONE = [(KK, None)]


def specs():
    v, w, x, n, p, q = ptr('v'), ptr('w'), ptr('val'), ('n', KK), ptr('BASE', 'p'), ptr('BASE', 'q')
    a, b = ptr('src'), ptr('src', 'k')
    S = {}
    S['ctor_none'] = Spec([v], [], fresh=True)
    S['ctor_n'] = Spec([v, n], NONE, fresh=True, syms='k')
    S['ctor_n_val'] = Spec([v, n, x], VALS, fresh=True, syms='k')
    S['ctor_range'] = Spec([v, a, b], SRC, fresh=True, syms='k')
    S['ctor_list'] = Spec([v, a, n], SRC, fresh=True, syms='k')
    S['ctor_copy'] = Spec([v, w], OTH, other=OTH, fresh=True, two=True)
    S['ctor_copy_alloc'] = Spec([v, w, ('x',)], OTH, other=OTH, fresh=True, two=True)
    S['ctor_move'] = Spec([v, w], OTH, fresh=True, two=True)
    S['ctor_move_alloc'] = Spec([v, w, ('x',)], OTH, fresh=True, two=True)
    S['dtor'] = Spec([v], None, gone=True)
    S['copy_assign'] = Spec([v, w], OTH, other=OTH, two=True)
    S['move_assign'] = Spec([v, w], OTH, two=True)
    S['swap_'] = S['swap_free'] = Spec([v, w], OTH, other=old(), two=True)
    for k in ('begin_', 'cbegin_', 'begin_const', 'data_', 'data_const'):
        S[k] = Spec([v], old(), ret=('at', K(0)))
    for k in ('end_', 'cend_', 'end_const'):
        S[k] = Spec([v], old(), ret=('at', N))
    for k in ('front_', 'front_const'):
        S[k] = Spec([v], old(), ret=('at', K(0)), pre=[N - ONE])
    for k in ('back_', 'back_const'):
        S[k] = Spec([v], old(), ret=('at', N - ONE), pre=[N - ONE])
    S['size_'] = Spec([v], old(), ret=('n', N))
    S['capacity_'] = Spec([v], old(), ret=('n', CAP))
    S['empty_'] = Spec([v], old(), ret=('zero', N))
    for k in ('index_', 'index_const'):
        S[k] = Spec([v, n], old(), ret=('at', KK), pre=[N - KK - ONE], syms='k')
    for k in ('at_', 'at_const'):
        S[k] = Spec([v, n], old(), ret=('at', KK), throws=KK - N, syms='k')
    keep = lambda more: (lambda h: old() + [(KK - N, more)] if h.sign(KK - N) > 0 else old(K(0), KK))
    S['resize'] = Spec([v, n], keep(None), syms='k')
    S['resize_val'] = Spec([v, n, x], keep(('val',)), syms='k')
    S['reserve'] = Spec([v, n], old(), cap=KK, syms='k')
    S['shrink'] = Spec([v], old())
    S['assign_range'] = Spec([v, a, b], SRC, syms='k')
    S['assign_list'] = Spec([v, a, n], SRC, syms='k')
    S['assign_n_val'] = Spec([v, n, x], VALS, syms='k')
    S['push_back'] = S['push_back_move'] = S['emplace_back'] = Spec([v, x], old() + VAL)
    S['push_back_n'] = Spec([v, n, x], old() + VALS, syms='k')
    S['push_back_range'] = Spec([v, a, b], old() + SRC, syms='k')
    S['push_back_list'] = Spec([v, a, n], old() + SRC, syms='k')
    S['push_back_none'] = Spec([v, n], old() + NONE, syms='k')
    S['pop_back'] = Spec([v], old(K(0), N - ONE), pre=[N - ONE])
    ins = lambda m: old(K(0), PP) + m + old(PP)
    at = ('at', PP)
    S['insert'] = S['insert_move'] = S['emplace'] = Spec([v, p, x], ins(VAL), ret=at, syms='p')
    S['insert_n'] = Spec([v, p, n, x], ins(VALS), ret=at, syms='pk')
    S['insert_range'] = Spec([v, p, a, b], ins(SRC), ret=at, syms='pk')
    S['insert_list'] = Spec([v, p, a, n], ins(SRC), ret=at, syms='pk')
    S['insert_none'] = Spec([v, p, n], ins(NONE), ret=at, syms='pk')
    S['erase'] = Spec([v, p], old(K(0), PP) + old(PP + ONE), ret=at, pre=[N - PP - ONE], syms='p')
    S['erase_range'] = Spec([v, p, q], old(K(0), PP) + old(QQ), ret=at, pre=[QQ - PP], syms='pq')
    S['clear'] = Spec([v], [])
    # the value is an element of the vector
    y, more, some = ptr('BASE', 'j'), [(ONE, ('same', 'old', JJ))], [(KK, ('same', 'old', JJ))]
    in_ = [N - JJ - ONE]
    S['push_back+'] = S['emplace_back+'] = Spec([v, y], old() + more, syms='j', pre=in_)
    S['push_back_n+'] = Spec([v, n, y], old() + some, syms='jk', pre=in_)
    S['insert+'] = S['emplace+'] = Spec([v, p, y], ins(more), ret=at, syms='jp', pre=in_)
    S['insert_n+'] = Spec([v, p, n, y], ins(some), ret=at, syms='jpk', pre=in_)
    S['resize_val+'] = Spec([v, n, y], keep(('same', 'old', JJ)), syms='jk', pre=in_)
    # overloads for whole numbers, which are not iterators
    z = ('el', ('val',))
    S['ctor_whole'] = Spec([v, n, z], VALS, fresh=True, syms='k')
    S['assign_whole'] = Spec([v, n, z], VALS, syms='k')
    S['push_back_whole'] = Spec([v, n, z], old() + VALS, syms='k')
    S['insert_whole'] = Spec([v, p, n, z], ins(VALS), ret=at, syms='pk')
    # allocators that differ
    S['own_move_assign'] = Spec([v, w], OTH, two=True)
    S['own_swap'] = Spec([v, w], OTH, other=old(), two=True)
    return S


def total(segs):
    n = K(0)
    for l, _ in segs:
        n = n + l
    return n


def state(h, lay, mem, which):
    """memory, size and capacity of a vector; checks that they belong together"""
    b, e, s = (mem.get((which, x), ('x',)) for x in lay)
    if any(x[0] != 'ptr' for x in (b, e, s)):
        if any(x == ('x',) for x in (b, e, s)) and any((which, x) not in mem for x in lay):
            raise Bad('the bounds of the vector are never set')
        raise Undecided('the bounds of the vector are not known')
    if b[1] == 'null':
        if {e[1], s[1]} != {'null'} or any(h.sign(x[2]) for x in (b, e, s)):
            raise Bad('the vector has a size, but no memory')
        return None, K(0), K(0)
    if len({x[1] for x in (b, e, s)}) != 1:
        raise Bad('begin and end of the vector belong to different memory')
    o = h.obj.get(b[1])
    if o is None or b[1] in ('src', 'val'):
        raise Bad('the memory of the vector is not its own')
    if o.freed:
        raise Bad('the memory of the vector was released')
    if h.sign(b[2]):
        raise Bad('the vector does not start where its memory starts')
    n, c = e[2].div(W), s[2].div(W)
    if n is None or c is None:
        raise Undecided('the bounds of the vector are not known')
    if h.sign(n) < 0 or h.sign(c - n) < 0:
        raise Bad('the size of the vector exceeds its capacity')
    if h.sign(c - o.size):
        raise Bad('the capacity of the vector is not what was allocated')
    return b[1], n, c


def judge(path, cons, spec, lay, start):
    h = Heap(cons, start)

    def fields(mem):
        # if the allocation fails, the vectors must still be valid
        for which in 'vw':
            if which == 'v' and spec.fresh or which == 'w' and not spec.two:
                continue
            try:
                state(h, lay, mem, which)
            except Bad as x:
                raise Bad('if no memory can be allocated: %s' % x)
    h.apply(path.eff, fields)
    thrown = path.end == 'throw'
    if thrown != (spec.throws is not None and h.sign(spec.throws) >= 0):
        raise Bad('an exception is thrown for a valid call' if thrown else 'a place beyond the end is accepted')
    owned = set()
    b = None
    if not spec.gone:
        b, n, c = state(h, lay, path.mem, 'v')
        owned.add(b)
        want = spec.want(h) if callable(spec.want) else spec.want
        if thrown:
            want = old()
        if h.sign(n - total(want)):
            raise Bad('the size is not the requested one')
        if b is not None and not h.same(h.obj[b], n, want):
            raise Bad('an element is not the expected one')
        if spec.cap is not None and h.sign(c - spec.cap) < 0:
            raise Bad('the capacity is smaller than requested')
    if spec.two:
        b2, n2, c2 = state(h, lay, path.mem, 'w')
        if b2 is not None and b2 in owned:
            raise Bad('two vectors share their memory')
        owned.add(b2)
        if spec.other is not None:
            if h.sign(n2 - total(spec.other)) or b2 is not None and not h.same(h.obj[b2], n2, spec.other):
                raise Bad('the other vector has wrong contents')
    for k, o in h.obj.items():
        if k not in ('src', 'val') and not o.freed and k not in owned:
            raise Bad('memory is not released')
    if spec.ret is not None and not thrown:
        r = path.ret
        if r is None or r == ('x',):
            raise Undecided('the result is not known')
        kind, want = spec.ret
        if kind == 'zero':
            c = r[1] if r[0] == 'cond' else ('cmp', 'ne', r[1], K(0)) if number(r) else None
            if c is None:
                raise Undecided('the result is not known')
            zero = h.sign(want) == 0
            if any(feasible(cons + alt) for alt in dnf(c, not zero)):
                raise Bad('the result is wrong')
        elif kind == 'n':
            if not number(r):
                raise Undecided('the result is not known')
            if h.sign(r[1] - want):
                raise Bad('the result is wrong')
        else:
            if r[0] != 'ptr':
                raise Undecided('the result is not known')
            if r[1] != (b or 'null') or h.sign(r[2] - want.times(W)):
                raise Bad('the result is another place')


def decide(path, cons, spec, lay, start, depth=0):
    """judges a path in every order its sizes can have; the number of cases"""
    try:
        judge(path, cons, spec, lay, start)
        return 1
    except Bad as x:
        env = sample(cons)
        if env is None:
            raise Undecided('no sizes were found for which %s' % x)
        raise Bad(str(x), env)
    except Split as s:
        f = s.args[0]
        if depth > 24:
            raise Undecided('the sizes have too many orders')
    return sum(decide(path, cons + alt, spec, lay, start, depth + 1) for alt in ([NEG(f)], EQ(f), [f - ONE]) if feasible(cons + alt))


# ------------------------------------------------------------------ the check
def module():
    """the operations that exist"""
    text = open(UNIT).read().split('\n')
    unit = UNIT
    for turn in range(20):
        try:
            raw = build.dump([unit], ['--do-inline', '--clone-roots', '--pp=' + num.PIPE, '--root=witness::'] + ['--keep=' + x for x in KEEP], 'uvec')
            return ir.Module(raw)
        except BuildError as x:
            lines = {int(m.group(1)) for m in re.finditer(r'uvector(?:_[a-z0-9]+)?\.cc:(\d+):\d+: (?:error|note: in instantiation)', str(x))}
            lines = {k for k in lines if 0 < k <= len(text) and re.match(r'[^/].*\{ .* \}$', text[k - 1])}
            if not lines:
                raise AnalysisError('the operations of the vector can not be compiled: ' + str(x)[-400:])
            for k in lines:
                text[k - 1] = '// ' + text[k - 1]
            d = build.cache_dir()
            unit = os.path.join(d, 'uvector_%d.cc' % os.getpid())
            with open(unit, 'w') as f:
                f.write('\n'.join(text))


def layout(fs):
    """offsets of the members, from the functions that tell them"""
    out = []
    for name in ('begin_', 'end_'):
        f = fs.get(name) or fs.get(name + 'const')
        if f is None:
            raise AnalysisError('the vector has no function %s' % name)
        out.append(read(f))
    f = fs.get('capacity_')
    if f is None:
        raise AnalysisError('the vector has no function capacity')
    offs = {off(f, i.ops[0]) for b in f.blocks.values() for i in b.insts if i.op == 'load'}
    offs.discard(out[0])
    if len(offs) != 1:
        raise AnalysisError('the members of the vector were not recognised')
    return out + [offs.pop()]


def off(f, o):
    if o == 0:
        return 0
    for b in f.blocks.values():
        for i in b.insts:
            if i.id == o and i.op == 'getelementptr' and i.ops[0] == 0:
                return i.get('off') or 0
    raise AnalysisError('the members of the vector were not recognised')


def read(f):
    for b in f.blocks.values():
        for i in b.insts:
            if i.op == 'ret' and i.ops:
                for c in f.blocks.values():
                    for j in c.insts:
                        if j.id == i.ops[0] and j.op == 'load':
                            return off(f, j.ops[0])
    raise AnalysisError('the members of the vector were not recognised')


def p29(r):
    m = module()
    fs = {}
    for f in m.functions:
        k = re.match(r'witness::([a-z_]+)\(', f.dem)
        if k:
            fs[k.group(1)] = f
    lay = layout(fs)
    S = specs()
    n = 0
    for name in sorted(S):
        f = fs.get(name.rstrip('+'))
        if f is None:
            r.undecided('operation ' + name, 'uvector.h: the operation %s does not exist' % name)
            continue
        n += one(r, f, lay, name, S[name])
        if name in ('copy_assign', 'swap_', 'swap_free'):
            one(r, f, lay, name, Spec([ptr('v'), ptr('v')], old()), ' with itself')
    r.count('operations of the vector', n)
    r.require(n >= 30, 'only %d operations of the vector were understood' % n)


def based(a, start):
    return ('ptr', 'null' if start.null else 'old', a[2]) if a[0] == 'ptr' and a[1] == 'BASE' else a


def one(r, f, lay, name, spec, note=''):
    what = name.rstrip('_').replace('+', ' (own element)') + note
    good = True
    for null in ((False,) if spec.fresh else (False, True)):
        for null2 in ((False, True) if spec.two else (False,)):
            case = what + (' (no memory)' if null else '') + (' (the other without memory)' if null2 else '')
            start = Start(spec, lay, null, null2)
            if not feasible(start.cons):
                continue
            try:
                P = Paths(f, lay, [based(a, start) for a in spec.args], start)
                if not P.fin:
                    raise Undecided('it never returns')
                r.count('paths', len(P.fin))
            except Bad as x:
                r.bad('%s: %s' % (what, x), 'UVector (%s): %s' % (case, x))
                continue
            except Undecided as x:
                r.undecided(case, 'UVector (%s): %s' % (case, x))
                good = False
                continue
            for k, path in enumerate(P.fin):
                try:
                    r.count('cases of sizes', decide(path, path.cons, spec, lay, start))
                    r.ok('%s path %d' % (case, k))
                except Bad as x:
                    names = {'n': 'size', 'c': 'capacity', 'n2': 'size of the other', 'c2': 'capacity of the other', 'k': 'given number', 'p': 'place', 'q': 'second place', 'j': 'index of the value'}
                    text = ', '.join('%s %d' % (t, x.args[1][s]) for s, t in names.items() if s in x.args[1])
                    r.bad('%s: %s' % (what, x.args[0]), '%s: UVector (%s): %s (e.g. %s)' % (place(path), case, x.args[0], text or 'always'))
                except Undecided as x:
                    r.undecided(case, 'UVector (%s): %s' % (case, x))
                    good = False
    return good


def place(path):
    for e in path.eff[::-1]:
        if isinstance(e[-1], str) and e[-1]:
            return e[-1]
    return 'uvector.h'
