"""Closed forms: every value of a function as a polynomial (integers, pointers) or a term (floating point, conditions)
over arguments, memory and the iteration counters of the enclosing loops."""
import hashlib
import math
import random
from fractions import Fraction as Q

ATOM, NAMES = {}, []


def atom_id(a):
    k = ATOM.get(a)
    if k is None:
        k = ATOM[a] = len(NAMES)
        NAMES.append(a)
    return k


class Poly:
    """polynomial with rational coefficients over interned atoms"""
    __slots__ = ('m', 'h')

    def __init__(self, m):
        self.m = {k: v for k, v in m.items() if v != 0}
        self.h = None

    @staticmethod
    def const(c):
        return Poly({(): Q(c)})

    @staticmethod
    def atom(a):
        return Poly({(atom_id(a),): Q(1)})

    def key(self):
        return tuple(sorted(self.m.items()))

    def __hash__(self):
        if self.h is None:
            self.h = hash(self.key())
        return self.h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.m == o.m

    def __add__(self, o):
        r = dict(self.m)
        for k, v in o.m.items():
            r[k] = r.get(k, 0) + v
        return Poly(r)

    def scale(self, c):
        return Poly({k: v * c for k, v in self.m.items()})

    def __sub__(self, o):
        return self + o.scale(-1)

    def __mul__(self, o):
        r = {}
        for a, x in self.m.items():
            for b, y in o.m.items():
                k = tuple(sorted(a + b))
                r[k] = r.get(k, 0) + x * y
        return Poly(r)

    def is_const(self):
        return all(k == () for k in self.m)

    def c(self):
        return self.m.get((), Q(0))

    def atoms(self):
        return {NAMES[i] for k in self.m for i in k}

    def subst(self, sub):
        """sub: atom -> Poly (also inside of atoms)"""
        r = Poly({})
        for k, v in self.m.items():
            t = Poly.const(v)
            for i in k:
                t = t * subst_atom(NAMES[i], sub)
            r = r + t
        return r

    def split(self, a):
        """(coefficient of the atom, rest), or None if it does not occur linearly"""
        i = atom_id(a)
        co, rest = {}, {}
        for k, v in self.m.items():
            n = k.count(i)
            if n == 0:
                rest[k] = v
            elif n == 1:
                k2 = list(k)
                k2.remove(i)
                co[tuple(k2)] = v
            else:
                return None
        return Poly(co), Poly(rest)

    def div(self, o):
        """exact quotient by a monomial, or None"""
        if len(o.m) != 1:
            if self.m and o.m and len(self.m) == len(o.m):
                # proportional
                k = next(iter(o.m))
                if k in self.m:
                    f = self.m[k] / o.m[k]
                    if self == o.scale(f):
                        return Poly.const(f)
            return None
        (k, v), = o.m.items()
        r = {}
        for m, x in self.m.items():
            l = list(m)
            for i in k:
                if i not in l:
                    return None
                l.remove(i)
            r[tuple(l)] = x / v
        return Poly(r)

    def __repr__(self):
        if not self.m:
            return '0'
        out = []
        for k, v in sorted(self.m.items()):
            s = '*'.join(short(NAMES[i]) for i in k)
            out.append(s if v == 1 and s else ('%s%s' % (v, '*' + s if s else '')))
        return ' + '.join(out)


ZERO, ONE = Poly({}), Poly.const(1)


def short(a):
    if a[0] == 'k':
        return 'k%d' % a[1]
    if a[0] == 'arg':
        return 'arg%d' % a[1]
    if a[0] == 'ld':
        return '[%r]' % (a[2],)
    return '%s(%s)' % (a[0], ','.join(str(x) for x in a[1:]))


def subst_atom(a, sub):
    if a in sub:
        return sub[a]
    if a[0] in ('k', 'arg', 'al'):
        return Poly.atom(a)
    b = subst_term(a, sub)
    return b if isinstance(b, Poly) else Poly.atom(b)


def subst_term(t, sub):
    if isinstance(t, Poly):
        return t.subst(sub)
    if isinstance(t, tuple):
        if t in sub:
            return sub[t]
        r = tuple(subst_term(x, sub) if isinstance(x, (tuple, Poly)) else x for x in t)
        return r
    return t


def leaves(t, out=None):
    """all tuples and polynomials inside of a term"""
    if out is None:
        out = set()
    if isinstance(t, Poly):
        for a in t.atoms():
            leaves(a, out)
    elif isinstance(t, tuple):
        if t in out:
            return out
        out.add(t)
        for x in t:
            if isinstance(x, (tuple, Poly)):
                leaves(x, out)
    return out


NORETURN = ('unreachable', 'resume')
FP = ('float', 'double', 'x86_fp80', 'half', 'fp128')


class Loop:
    pass


class Scev:
    def __init__(self, fn):
        self.fn = fn
        self.memo = {}
        self.busy = set()
        self.forms = {}
        self.nexts = {}
        self.starts = {}
        self.trips = {}
        self._loops()
        self._dead()
        self.ordered()

    # -- loops -------------------------------------------------------------------------------
    def _loops(self):
        fn = self.fn
        back = {}
        for b in fn.blocks.values():
            for s in b.succ:
                if fn.block_dominates(s, b.id) and b.id in fn.dominators():
                    back.setdefault(s, []).append(b.id)
        self.loops = {}
        for h, ls in back.items():
            body, todo = {h}, list(ls)
            while todo:
                x = todo.pop()
                if x in body:
                    continue
                body.add(x)
                todo += [p for p in fn.blocks[x].preds if p in fn.dominators()]
            self.loops[h] = body
        self.loopof = {}
        self.parent = {}
        for b in fn.blocks:
            inner = [h for h in self.loops if b in self.loops[h]]
            inner.sort(key=lambda h: len(self.loops[h]))
            self.loopof[b] = inner
        for h in self.loops:
            o = [x for x in self.loopof[h] if x != h]
            self.parent[h] = o[0] if o else None
        self.latches = back

    def _dead(self):
        """blocks from which the function does not return normally"""
        fn = self.fn
        live, todo = set(), [b.id for b in fn.blocks.values() if b.term.op == 'ret']
        while todo:
            x = todo.pop()
            if x in live:
                continue
            live.add(x)
            for p in fn.blocks[x].preds:
                t = fn.blocks[p].term
                if t.op == 'invoke' and t.get('unwind') == x and t.get('normal') != x:
                    continue
                todo.append(p)
        self.live = live

    def exits(self, h):
        out = []
        for b in self.loops[h]:
            t = self.fn.blocks[b].term
            for s in self.fn.blocks[b].succ:
                if s not in self.loops[h] and s in self.live and not (t.op == 'invoke' and s == t.get('unwind')):
                    out.append((b, s))
        return out

    def ordered(self):
        """closed forms of outer loops first"""
        for h in sorted(self.loops, key=lambda h: -len(self.loops[h])):
            for i in self.fn.blocks[h].insts:
                if i.op == 'phi':
                    self.val(i)

    def trip(self, h):
        """(number of completed iterations of the header's counter when the loop is left, block of the exit), or None"""
        if h in self.trips:
            return self.trips[h]
        self.trips[h] = None
        ex = self.exits(h)
        if len(ex) != 1:
            return None
        b, s = ex[0]
        t = self.fn.blocks[b].term
        if t.op != 'br' or 'cond' not in t.raw and len(t.ops) < 1:
            return None
        c = self.cond_of(b)
        if c is None:
            return None
        on_true = self.fn.blocks[b].succ[0] == s
        k = ('k', h)
        T = self._solve(c, on_true, k)
        r = self.trips[h] = (T, b) if T is not None else None
        return r

    def _solve(self, c, leave_if, k):
        if not (isinstance(c, tuple) and c[0] == 'icmp'):
            return None
        p, x, y = c[1], c[2], c[3]
        d = x - y
        sp = d.split(k)
        if sp is None or not sp[0].m:
            return None
        co, rest = sp
        if not leave_if:
            p = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}[p]
        q = rest.scale(-1).div(co)
        if q is None and p in ('uge', 'ule', 'ugt', 'ult', 'sge', 'sgt', 'sle', 'slt'):
            # counting up (or down) by a step that need not divide the distance
            if p[1:] in ('le', 'lt'):
                co, rest = co.scale(-1), rest.scale(-1)
            if any(k in leaves(a) for a in rest.atoms() | co.atoms()):
                return None
            if p[1:] in ('ge', 'le'):
                return Poly.atom(('cdiv', rest.scale(-1), co))
            return Poly.atom(('cdiv', rest.scale(-1) + ONE, co))
        if q is None or any(k in leaves(a) for a in q.atoms()):
            return None
        if p == 'eq':
            return q
        pos = co.is_const() and co.c() > 0
        neg = co.is_const() and co.c() < 0
        step = abs(co.c()) if co.is_const() else None
        p = p[1:]
        if (p == 'ge' and pos or p == 'le' and neg) and (step == 1 or self._divides(rest, step)):
            return q
        if (p == 'gt' and pos or p == 'lt' and neg) and (step == 1 or self._divides(rest, step)):
            return q + ONE
        if pos or neg:
            r = rest if pos else rest.scale(-1)
            return Poly.atom(('cdiv', r.scale(-1) if p in ('ge', 'le') else r.scale(-1) + ONE, Poly.const(step))) if pos == (p in ('ge', 'gt')) else None
        return None

    def _divides(self, p, step):
        return all((v / step).denominator == 1 for v in p.m.values())

    def cond_of(self, b):
        t = self.fn.blocks[b].term
        if t.op != 'br' or len(self.fn.blocks[b].succ) != 2:
            return None
        o = t.raw.get('cond')
        if o is None:
            o = t.ops[0] if t.ops else None
        return self.use(o, b)

    # -- values ------------------------------------------------------------------------------
    def use(self, o, bb):
        """value of operand o when it is used in block bb"""
        if isinstance(o, dict):
            k = o['k']
            if k == 'int':
                v = int(o['v'])
                if v >= 1 << 63:
                    v -= 1 << 64
                return Poly.const(v) if o.get('w') != 1 and o.get('t') != 'i1' else ('b', int(o['v']) & 1)
            if k == 'fp':
                return ('fc', fpc(o['v']))
            if k == 'null':
                return ZERO
            return Poly.atom(('glob', k, str(o.get('n', o.get('v', '')))))
        if o in self.fn.argids:
            a = self.fn.args[self.fn.argids[o]]
            t = ('arg', self.fn.argids[o])
            return ('farg', self.fn.argids[o]) if a['t'] in FP else Poly.atom(t)
        i = self.fn.inst[o]
        v = self.val(i)
        return self.leave(v, i.bb, bb)

    def leave(self, v, src, bb):
        for h in self.loopof[src]:
            if bb in self.loops[h]:
                break
            v = self.finalvalue(v, h)
        return v

    def finalvalue(self, v, h):
        sub = {}
        ls = leaves(v)
        if ('k', h) in ls:
            T = self.trip(h)
            sub[('k', h)] = T[0] if T else Poly.atom(('exitk', h))
        for a in ls:
            if a[0] in ('phi', 'fphi') and self.fn.inst[a[1]].bb == h and len(a) == 2:
                sub[a] = Poly.atom((a[0], a[1], 'fin')) if a[0] == 'phi' else (a[0], a[1], 'fin')
            if a[0] == 'ld' and len(a) > 3 and self.fn.inst[a[3]].bb in self.loops[h] and a[3:] and ('k', h) in leaves(a):
                pass
        return subst_term(v, sub) if sub else v

    def val(self, i):
        if i.id in self.memo:
            return self.memo[i.id]
        if i.op == 'phi':
            v = self.phi(i)
        else:
            v = self.compute(i)
        self.memo[i.id] = v
        return v

    def opaque(self, i):
        return (('fv', i.id) if i.t in FP else ('bv', i.id) if i.t == 'i1' else Poly.atom(('v', i.id)))

    def phi(self, i):
        h = i.bb
        if h in self.loops and any(p in self.loops[h] for v, p in i.raw['in']):
            return self.header_phi(i, h)
        # merge
        ins = [(v, p) for v, p in i.raw['in'] if p in self.fn.dominators()]
        vals = [(self.leave(self.use(v, p), p, h) if isinstance(v, dict) or True else None, p) for v, p in ins]
        if all(x == vals[0][0] for x, _ in vals):
            return vals[0][0]
        r = self.gated(i, vals, h)
        return r if r is not None else self.opaque(i)

    def gated(self, i, vals, h):
        """value of a merge as a decision over the conditions of the branches between the immediate dominator and the merge"""
        d = self.fn.dominators()[h]
        bypred = {}
        for x, p in vals:
            bypred[p] = x
        n = [0]

        def walk(b, frm):
            n[0] += 1
            if n[0] > 40:
                return None
            if b == h:
                return bypred.get(frm)
            if b in self.loops and b != d and not (h in self.loops[b]):
                # a whole loop lies between
                ex = self.exits(b)
                if len(ex) != 1:
                    return None
                return walk(ex[0][1], ex[0][0])
            blk = self.fn.blocks[b]
            s = blk.succ
            if blk.term.op == 'invoke':
                s = [blk.term.get('normal')]
            if len(s) == 1:
                return walk(s[0], b)
            if blk.term.op != 'br' or len(s) != 2:
                return None
            l = [x for x in s if x in self.live]
            if len(l) == 1:
                return walk(l[0], b)
            c = self.leave(self.cond_of(b), b, h)
            x, y = walk(s[0], b), walk(s[1], b)
            if x is None or y is None or c is None:
                return None
            return ite(c, x, y)
        if d in self.loops and h not in self.loops[d]:
            return None
        return walk(d, None)

    def header_phi(self, i, h):
        fp = i.t in FP
        key = ('fphi', i.id) if fp else ('bphi', i.id) if i.t == 'i1' else ('phi', i.id)
        me = key if fp or i.t == 'i1' else Poly.atom(key)
        start = [(v, p) for v, p in i.raw['in'] if p not in self.loops[h]]
        back = [(v, p) for v, p in i.raw['in'] if p in self.loops[h]]
        self.memo[i.id] = me
        s = [self.use(v, p) for v, p in start]
        s = s[0] if all(x == s[0] for x in s) else None
        mark = set(self.memo)
        nx = [self.use(v, p) for v, p in back]
        n = nx[0] if all(x == nx[0] for x in nx) else None
        self.starts[i.id], self.nexts[i.id] = s, n
        if fp or i.t == 'i1' or s is None or n is None:
            return me
        d = n - me
        k = Poly.atom(('k', h))
        form = None
        ls = leaves(d)
        if key not in ls:
            inner = [a for a in ls if a == ('k', h)]
            if not inner and not self.varies(d, h):
                form = s + k * d
            elif len(d.m) == 1:
                (mono, co), = d.m.items()
                if len(mono) == 1 and NAMES[mono[0]][0] == 'ite':
                    _, c, x, y = NAMES[mono[0]]
                    if isinstance(c, tuple) and c[:2] == ('icmp', 'eq') and (c[2] - c[3] in (k, k.scale(-1))) and x.is_const() and y.is_const():
                        # the first iteration differs: x + y (k-1) for k > 0
                        ind = Poly.atom(('ind', ('k', h)))
                        form = s + (x * ind + y * (k - ind)).scale(co)
            if form is None and inner and self.pure(d, h):
                # sum of the increments of the iterations before
                form = s + Poly.atom(('sum', h, subst_term(d, {('k', h): Poly.atom(('bk', h))}), k))
        if form is not None:
            # forget what was computed with the placeholder
            for j in list(self.memo):
                if j not in mark:
                    del self.memo[j]
            for h2 in list(self.trips):
                if h2 in self.loops[h]:
                    del self.trips[h2]
            for p in list(self.nexts):
                if p != i.id and p not in mark and p in self.nexts and self.fn.inst[p].bb in self.loops[h]:
                    self.nexts.pop(p), self.starts.pop(p)
            self.forms[i.id] = form
            self.memo[i.id] = form
            return form
        return me

    def pure(self, d, h):
        """depends on counters, arguments and memory that is the same in every iteration"""
        for a in leaves(d):
            if a[0] in ('phi', 'fphi', 'v', 'fv', 'bv', 'bphi', 'call', 'fcall', 'void'):
                return False
            if a[0] in ('ld', 'fld', 'bld') and any(x[0] == 'k' and x[1] in self.loops[h] for x in leaves(a)):
                return False
            if a[0] == 'k' and a[1] != h and a[1] in self.loops[h]:
                return False
        return True

    def varies(self, d, h):
        for a in leaves(d):
            if a[0] in ('phi', 'fphi', 'v', 'fv', 'bv', 'bphi') and isinstance(a[1], int) and self.fn.inst[a[1]].bb in self.loops[h]:
                return True
            if a[0] == 'k' and a[1] in self.loops[h]:
                return True
        return False

    def compute(self, i):
        op = i.op
        u = lambda n: self.use(i.ops[n], i.bb)
        if op in ('add', 'sub', 'mul'):
            a, b = u(0), u(1)
            if not isinstance(a, Poly) or not isinstance(b, Poly):
                return self.opaque(i)
            return a + b if op == 'add' else a - b if op == 'sub' else a * b
        if op == 'shl':
            a, b = u(0), u(1)
            if isinstance(b, Poly) and b.is_const() and isinstance(a, Poly):
                return a.scale(2 ** int(b.c()))
            return Poly.atom(('shl', a, b))
        if op in ('zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'addrspacecast', 'trunc'):
            a = u(0)
            if isinstance(a, Poly):
                if op == 'trunc' and not a.is_const():
                    return Poly.atom(('trunc', i.t, a)) if i.t in ('i1', 'i8', 'i16') else a
                return a
            if i.t == 'i1' or i.t in FP:
                return a
            return Poly.atom(('bool', op, a)) if op == 'sext' else Poly.atom(('ite', a, ONE, ZERO))
        if op in ('or', 'xor', 'and'):
            a, b = u(0), u(1)
            if i.t == 'i1':
                return (op, a, b)
            if isinstance(a, Poly) and isinstance(b, Poly):
                if op == 'or' and b.is_const():
                    c = int(b.c())
                    m = 1 << c.bit_length()
                    if all((v / m).denominator == 1 for v in a.m.values()):
                        return a + b
                return Poly.atom((op, a, b))
            return self.opaque(i)
        if op in ('udiv', 'sdiv', 'lshr', 'ashr', 'urem', 'srem'):
            a, b = u(0), u(1)
            if not isinstance(a, Poly) or not isinstance(b, Poly):
                return self.opaque(i)
            if op in ('sdiv', 'ashr') and b.is_const() and len(a.m) >= 2 and self.ptrdiff(a):
                n = int(b.c()) if op == 'sdiv' else 2 ** int(b.c())
                return a.scale(Q(1, n))
            return Poly.atom((op, a, b))
        if op == 'icmp':
            a, b = u(0), u(1)
            if isinstance(a, Poly) and isinstance(b, Poly):
                return ('icmp', i.get('pred'), a, b)
            return ('icmpb', i.get('pred'), a, b)
        if op == 'fcmp':
            return ('fcmp', i.get('pred'), u(0), u(1))
        if op == 'select':
            return ite(u(0), u(1), u(2))
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            return (op, u(0), u(1))
        if op == 'fneg':
            return ('fneg', u(0))
        if op in ('fpext', 'fptrunc'):
            return (op, i.t, u(0))
        if op in ('uitofp', 'sitofp'):
            return ('itof', i.t, u(0))
        if op in ('fptoui', 'fptosi'):
            return Poly.atom(('ftoi', op, i.t, u(0)))
        if op == 'getelementptr':
            a = self.use(i.ops[0], i.bb)
            if i.get('off') is None or not isinstance(a, Poly):
                return self.opaque(i)
            r = a + Poly.const(i.get('off'))
            for o, sz in i.get('var') or []:
                x = self.use(o, i.bb)
                if not isinstance(x, Poly):
                    return self.opaque(i)
                r = r + x.scale(sz)
            return r
        if op == 'load':
            a = u(0)
            if not isinstance(a, Poly):
                return self.opaque(i)
            if i.t in FP:
                return ('fld', i.t, a, i.id)
            if i.t == 'i1':
                return ('bld', a)
            return Poly.atom(('ld', i.t, a))
        if op == 'alloca':
            return Poly.atom(('al', i.id))
        if op in ('call', 'invoke'):
            n = i.cdem or i.callee or ''
            base = (i.callee or '').split('.')[1] if (i.callee or '').startswith('llvm.') else (i.callee or '')
            rnd = {'lround': 'fround', 'llround': 'fround', 'lroundf': 'fround', 'llroundf': 'fround', 'lrint': 'frint', 'lrintf': 'frint', 'llrint': 'frint', 'llrintf': 'frint'}.get(base)
            if rnd and len(i.args) == 1:
                return Poly.atom(('ftoi', 'fptosi', i.t, (rnd, self.use(i.args[0], i.bb))))
            if (i.callee or '').startswith('llvm.'):
                nm = i.callee.split('.')
                args = [self.use(x, i.bb) for x in i.args]
                if nm[1] == 'is' and nm[2] == 'constant':
                    return ('b', 0)
                if nm[1] in ('fabs', 'sqrt', 'maxnum', 'minnum', 'maximum', 'minimum', 'floor', 'ceil', 'round', 'rint', 'roundeven', 'trunc', 'fmuladd', 'fma', 'copysign', 'is', 'canonicalize', 'nearbyint'):
                    nn = nm[1] if nm[1] != 'is' else 'fpclass'
                    return ('f' + nn if nn != 'fpclass' else 'fpclass',) + tuple(args)
                if nm[1] in ('umax', 'umin', 'smax', 'smin') and all(isinstance(x, Poly) for x in args):
                    p = {'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[nm[1]]
                    return ite(('icmp', p, args[0], args[1]), args[0], args[1])
                if nm[1] in ('expect',):
                    return args[0]
                return self.opaque(i)
            if i.t in FP:
                return ('fcall', callname(i), tuple(self.use(x, i.bb) for x in i.args), i.id)
            if i.t == 'void':
                return ('void', i.id)
            t = ('call', callname(i), tuple(self.use(x, i.bb) for x in i.args), i.id)
            return t if i.t == 'i1' else Poly.atom(t)
        return self.opaque(i)

    def ptrdiff(self, a):
        """the difference of two pointers: exactly two pointer atoms, with opposite sign"""
        return sorted(v for v in a.m.values())[0] < 0

    # -- control -----------------------------------------------------------------------------
    def guards(self, bb, stop=None):
        """conditions under which the block is executed: (term, truth, block of the branch)"""
        out = []
        d = self.fn.dominators()
        b = bb
        while b != 0:
            p = d[b]
            blk = self.fn.blocks[p]
            if blk.term.op == 'br' and len(blk.succ) == 2 and blk.succ[0] != blk.succ[1]:
                for n, s in enumerate(blk.succ):
                    # the edge p->s dominates b
                    if self.edge_dominates(p, s, bb):
                        out.append((self.leave(self.cond_of(p), p, bb), n == 0, p))
            b = p
        return out

    def edge_dominates(self, p, s, b):
        if not self.fn.block_dominates(s, b):
            return False
        preds = [x for x in self.fn.blocks[s].preds if x in self.fn.dominators()]
        return all(x == p or self.fn.block_dominates(s, x) for x in preds) and self.fn.blocks[p].succ.count(s) == 1

    def every_iteration(self, bb, h):
        """the block is executed in every completed iteration of the loop"""
        return all(self.fn.block_dominates(bb, l) for l in self.latches[h])


def callname(i):
    return i.cq or i.callee or ''


def fpc(v):
    v = str(v)
    try:
        if v.startswith('0x'):
            return hexfp(v)
        return float(v.replace('Inf', 'inf').replace('NaN', 'nan'))
    except ValueError:
        return float('nan')


def hexfp(v):
    import struct
    return struct.unpack('>d', bytes.fromhex(v[2:].rjust(16, '0')))[0]


def ite(c, a, b):
    if a == b:
        return a
    if isinstance(c, tuple) and c[0] == 'b':
        return a if c[1] else b
    if isinstance(c, tuple) and c[0] == 'icmp' and c[1] == 'ne':
        return ite(('icmp', 'eq', c[2], c[3]), b, a)
    if isinstance(a, Poly) and isinstance(b, Poly):
        # factor out what is common
        com = Poly({k: v for k, v in a.m.items() if b.m.get(k) == v})
        return com + Poly.atom(('ite', c, a - com, b - com))
    return ('ite', c, a, b)


# -- evaluation ------------------------------------------------------------------------------
class Cant(Exception):
    pass


class Model:
    """values of the atoms: a pseudo-random function of their identity; memory is a function of the numeric address"""

    def __init__(self, seed, over=None):
        self.seed = seed
        self.over = dict(over or {})
        self.mem = {}     # numeric address -> value
        self.memo = {}
        self.memo_sum = {}

    def rnd(self, key):
        return int.from_bytes(hashlib.sha256(repr((self.seed, key)).encode()).digest()[:8], 'little')

    def fresh(self, key):
        """nonzero number around one"""
        return 0.5 + (self.rnd(key) % 100003) / 50000.0

    def poly(self, p):
        r = Q(0)
        for k, v in p.m.items():
            t = v
            for i in k:
                t *= self.atom(NAMES[i])
            r += t
        return r

    def atom(self, a):
        if a in self.over:
            return self.over[a]
        if a in self.memo:
            return self.memo[a]
        v = self.memo[a] = self.atom_(a)
        return v

    def atom_(self, a):
        k = a[0]
        if k == 'k':
            return Q(self.rnd(a) % 5 + 2)
        if k == 'arg':
            return Q((self.rnd(a) % (1 << 40)) * 4096)
        if k in ('al', 'glob'):
            return Q((self.rnd(a) % (1 << 40)) * 4096)
        if k == 'ld':
            ad = self.poly(a[2])
            if ad in self.mem:
                return Q(self.mem[ad])
            return self.load(a[1], ad)
        if k == 'ite':
            return self.poly(a[2]) if self.cond(a[1]) else self.poly(a[3])
        if k == 'ind':
            x = self.poly(a[1]) if isinstance(a[1], Poly) else self.atom(a[1])
            return Q(1) if x >= 1 else Q(0)
        if k == 'sum':
            n, b = self.poly(a[3]), ('bk', a[1])
            if n.denominator != 1 or n > 100000:
                raise Cant('sum')
            key = ('sum', a[2], tuple((x, self.over.get(x)) for x in sorted(x for x in leaves(a[2]) if x[0] in ('k', 'bk') and x != b)))
            acc = self.memo_sum.setdefault(key, [Q(0)])
            old = self.over.get(b)
            while len(acc) <= n:
                self.over[b] = Q(len(acc) - 1)
                acc.append(acc[-1] + self.poly(a[2]))
            if old is None:
                self.over.pop(b, None)
            else:
                self.over[b] = old
            return acc[max(0, int(n))]
        if k in ('urem', 'srem', 'udiv', 'sdiv', 'lshr', 'ashr', 'and', 'or', 'xor', 'shl'):
            x, y = self.poly(a[1]), self.poly(a[2])
            if x.denominator != 1 or y.denominator != 1:
                raise Cant('fraction')
            x, y = int(x), int(y)
            if k in ('urem', 'srem'):
                if y == 0:
                    raise Cant('zero')
                return Q(x % y)
            if k in ('udiv', 'sdiv'):
                if y == 0:
                    raise Cant('zero')
                return Q(x // y)
            return Q({'lshr': lambda: x >> y, 'ashr': lambda: x >> y, 'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y, 'shl': lambda: x << y}[k]())
        if k == 'cdiv':
            x, y = self.poly(a[1]), self.poly(a[2])
            if y <= 0:
                raise Cant('step')
            return Q(max(0, -((-x) // y)))
        if k == 'trunc':
            return Q(int(self.poly(a[2])) % (1 << int(a[1][1:])))
        if k == 'ftoi':
            v = self.fp(a[3])
            if v != v or v in (float('inf'), float('-inf')):
                raise Cant('conversion')
            return Q(int(v))
        if k == 'call':
            return Q(self.rnd((a[1],) + tuple(self.any(x) for x in a[2])) % 1000)
        if k == 'bool':
            return Q(-1) if self.cond(a[2]) else Q(0)
        return Q(self.rnd(a) % 7 + 2)

    def load(self, t, ad):
        if t == 'ptr':
            return Q((self.rnd(('m', ad)) % (1 << 40)) * 4096)
        return Q(self.rnd(('m', ad)) % 5 + 2)

    def any(self, t):
        if isinstance(t, Poly):
            return self.poly(t)
        if t[0] in ('icmp', 'fcmp', 'and', 'or', 'xor', 'b', 'bv', 'bld'):
            return self.cond(t)
        return self.fp(t)

    def fp(self, t):
        if t in self.over:
            return self.over[t]
        k = t[0]
        if k == 'fc':
            return t[1]
        if k == 'fld':
            ad = self.poly(t[2])
            if ad in self.mem:
                return self.mem[ad]
            return self.fresh(('fm', ad))
        if k in ('fpext', 'fptrunc'):
            return self.fp(t[2])
        if k == 'itof':
            return float(self.poly(t[2])) if isinstance(t[2], Poly) else float(self.cond(t[2]))
        if k in ('fadd', 'fsub', 'fmul', 'fdiv'):
            x, y = self.fp(t[1]), self.fp(t[2])
            try:
                if k == 'fadd':
                    return x + y
                if k == 'fsub':
                    return x - y
                if k == 'fmul':
                    return x * y
                return x / y
            except ZeroDivisionError:
                if x == 0 or x != x:
                    return float('nan')
                return math.copysign(float('inf'), x) * math.copysign(1.0, y)
            except OverflowError:
                return float('inf')
        if k == 'ffmuladd' or k == 'ffma':
            return self.fp(t[1]) * self.fp(t[2]) + self.fp(t[3])
        if k == 'fneg':
            return -self.fp(t[1])
        if k == 'ffabs':
            return abs(self.fp(t[1]))
        if k == 'fsqrt':
            x = self.fp(t[1])
            return math.sqrt(x) if x >= 0 else float('nan')
        if k in ('fmaxnum', 'fminnum'):
            x, y = self.fp(t[1]), self.fp(t[2])
            if x != x:
                return y
            if y != y:
                return x
            return max(x, y) if k == 'fmaxnum' else min(x, y)
        if k in ('ffloor', 'fceil', 'fround', 'frint', 'ftrunc', 'froundeven', 'fnearbyint'):
            x = self.fp(t[1])
            if x != x or x in (float('inf'), float('-inf')):
                return x
            if k == 'fround':
                return float(math.floor(abs(x) + 0.5)) * (1 if x >= 0 else -1)
            return float({'ffloor': math.floor, 'fceil': math.ceil, 'ftrunc': math.trunc}.get(k, round)(x))
        if k == 'ite':
            return self.fp(t[2]) if self.cond(t[1]) else self.fp(t[3])
        if k == 'fcall':
            return self.call(t)
        return self.fresh(t)

    def call(self, t):
        return self.fresh((t[1],) + tuple(round(x, 9) if isinstance(x, float) else x for x in (self.any(y) for y in t[2])))

    def cond(self, t):
        if t in self.over:
            return self.over[t]
        if isinstance(t, Poly):
            return self.poly(t) != 0
        k = t[0]
        if k == 'b':
            return bool(t[1])
        if k == 'icmp':
            x, y = self.poly(t[2]), self.poly(t[3])
            p = t[1]
            return {'eq': x == y, 'ne': x != y}[p] if p in ('eq', 'ne') else {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p[1:]]
        if k == 'fcmp':
            x, y = self.fp(t[2]), self.fp(t[3])
            p = t[1]
            if p in ('true', 'false'):
                return p == 'true'
            un = x != x or y != y
            if p == 'uno':
                return un
            if p == 'ord':
                return not un
            r = {'eq': x == y, 'ne': x != y and not un, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p[1:]]
            return r if p[0] == 'o' else (un or r)
        if k == 'and':
            return self.cond(t[1]) and self.cond(t[2])
        if k == 'or':
            return self.cond(t[1]) or self.cond(t[2])
        if k == 'xor':
            return self.cond(t[1]) != self.cond(t[2])
        if k == 'ite':
            return self.cond(t[2]) if self.cond(t[1]) else self.cond(t[3])
        if k == 'fpclass':
            x, m = self.fp(t[1]), int(self.poly(t[2]))
            if x != x:
                return bool(m & 3)
            if x == float('-inf'):
                return bool(m & 4)
            if x == float('inf'):
                return bool(m & 512)
            if x < 0:
                return bool(m & 8)
            if x > 0:
                return bool(m & 256)
            return bool(m & 96)
        return bool(self.rnd(t) & 1)


def same(a, b):
    if a == b:
        return True
    if a != a and b != b:
        return True
    if isinstance(a, float) and isinstance(b, float) and abs(a) != float('inf') and abs(b) != float('inf'):
        return abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-12)
    return False
