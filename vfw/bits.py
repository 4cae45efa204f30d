"""Bit-provenance abstract interpretation of the packing functions.

The number of symbols is n = M*q + r with a symbolic q >= 1 (or q = 0), so that
loops are summarised for any trip count.  Integers are linear forms over q and
the loop counters, memory cells are byte addresses (linear forms) whose eight
bits are tracked to the input bit they were copied from.
"""
from .ir import is_int, int_val


class CantDo(Exception):
    pass


class OutOfShape(Exception):
    """the abstract machine found a definite fault (text)"""


class Lin:
    __slots__ = ('c', 'm')

    def __init__(self, c=0, m=()):
        self.c = c
        self.m = tuple(sorted((k, v) for k, v in (m.items() if isinstance(m, dict) else m) if v))

    def __add__(self, o):
        o = lin(o)
        d = dict(self.m)
        for k, v in o.m:
            d[k] = d.get(k, 0) + v
        return Lin(self.c + o.c, d)

    __radd__ = __add__

    def scale(self, k):
        return Lin(self.c * k, [(a, v * k) for a, v in self.m])

    def __sub__(self, o):
        return self + lin(o).scale(-1)

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.m == o.m

    def __hash__(self):
        return hash((self.c, self.m))

    @property
    def const(self):
        return not self.m

    def coef(self, k):
        return dict(self.m).get(k, 0)

    def divfloor(self, d):
        if any(v % d for _, v in self.m):
            raise CantDo('division of %s by %d' % (self, d))
        return Lin(self.c // d, [(k, v // d) for k, v in self.m])

    def mod(self, d):
        if any(v % d for _, v in self.m):
            raise CantDo('remainder of %s by %d' % (self, d))
        return self.c % d

    def subst(self, var, val):
        k = self.coef(var)
        if not k:
            return self
        return Lin(self.c, [(a, v) for a, v in self.m if a != var]) + val.scale(k)

    def minimum(self, lo):
        """minimum given lower bounds per variable; CantDo if a coefficient is negative"""
        s = self.c
        for k, v in self.m:
            if v < 0 or k not in lo:
                raise CantDo('sign of %s' % self)
            s += v * lo[k]
        return s

    def __repr__(self):
        return '+'.join(['%d%s' % (v, k) for k, v in self.m] + ([str(self.c)] if self.c or not self.m else []))


def lin(x):
    return x if isinstance(x, Lin) else Lin(x)


class Ptr:
    __slots__ = ('base', 'off')

    def __init__(self, base, off):
        self.base, self.off = base, off

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.base == o.base and self.off == o.off

    def __repr__(self):
        return '%s[%s]' % (self.base, self.off)


class Bits:
    """value whose bits (least significant first) are 0, 1, None (unknown) or a provenance tuple"""
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = list(b)

    def __eq__(self, o):
        return isinstance(o, Bits) and self.b == o.b

    def __repr__(self):
        return 'Bits' + repr(self.b)


def width(t):
    return int(t[1:])


class Machine:
    """in_size: bytes of an input element, in_bits: significant bits of it."""

    def __init__(self, fn, argvals, in_base, in_bits, out_base, qmin, budget=400000):
        self.fn = fn
        self.env = {}
        for a, v in zip(fn.args, argvals):
            self.env[a['id']] = v
        self.in_base, self.in_bits, self.out_base = in_base, in_bits, out_base
        self.lo = {'q': qmin}
        self.mem = {}        # (base, Lin) -> bit list of 8, straight-line memory
        self.loopmem = []    # list of (loopvar, T, {addr: bits}, base)
        self.reads = []      # (base, Lin addr, size, loopvar or None, T)
        self.curloop = None
        self.probe = False
        self.steps = 0
        self.budget = budget
        self.loop_of_header = {l['header']: k for k, l in enumerate(fn.loops)}
        self.nloop = 0
        self.threw = False
        self.parametric = qmin is not None

    # -- values
    def val(self, o):
        if isinstance(o, int):
            if o not in self.env:
                raise CantDo('value %d not known' % o)
            return self.env[o]
        k = o['k']
        if k == 'int':
            w = width(o['t'])
            v = int_val(o)
            if w > 1 and v >= 1 << (w - 1):
                v -= 1 << w
            return Lin(v)
        if k in ('undef', 'zero'):
            return Lin(0)
        if k == 'null':
            return Ptr('null', Lin(0))
        raise CantDo('operand kind ' + k)

    def tobits(self, v, w):
        if isinstance(v, Bits):
            assert len(v.b) == w
            return list(v.b)
        if isinstance(v, Lin) and v.const:
            return [(v.c >> i) & 1 for i in range(w)]
        raise CantDo('bits of %r' % (v,))

    def frombits(self, b):
        if all(x in (0, 1) for x in b):
            v = sum(x << i for i, x in enumerate(b))
            if len(b) > 1 and b[-1] == 1:
                v -= 1 << len(b)
            return Lin(v)
        return Bits(b)

    # -- memory
    def load(self, p, size):
        if not isinstance(p, Ptr):
            raise CantDo('load through %r' % (p,))
        if self.probe:
            return Bits([None] * (8 * size))
        out = []
        for k in range(size):
            a = p.off + k
            key = (p.base, a)
            if key in self.mem:
                out += self.mem[key]
                continue
            if p.base == self.in_base:
                es = 4 if self.in_bits else 1
                if self.in_bits:
                    # element of 4 bytes
                    i = a.divfloor(4)
                    byte = a.mod(4)
                    self.reads.append((i, self.curloop))
                    for j in range(8):
                        bit = 8 * byte + j
                        out.append(('in', i, bit) if bit < self.in_bits else 0)
                else:
                    self.reads.append((a, self.curloop))
                    out += [('in', a, j) for j in range(8)]
            else:
                # not written (in this iteration): unknown
                if self.loopmem and p.base == self.out_base:
                    raise CantDo('load of output that may be written in a loop')
                out += [None] * 8
        return self.frombits(out)

    def store(self, p, v, size):
        if not isinstance(p, Ptr):
            raise CantDo('store through %r' % (p,))
        if self.probe:
            return
        if p.base == self.in_base:
            raise OutOfShape('the input buffer is written')
        b = self.tobits(v, size * 8) if not isinstance(v, Ptr) else None
        if b is None:
            raise CantDo('store of pointer')
        for k in range(size):
            self.mem[(p.base, p.off + k)] = b[8 * k:8 * k + 8]

    # -- conditions
    def cmp(self, pred, a, b, w):
        if isinstance(a, Bits) or isinstance(b, Bits):
            raise CantDo('comparison of data bits')
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not (isinstance(a, Ptr) and isinstance(b, Ptr) and a.base == b.base):
                raise CantDo('pointer comparison')
            a, b = a.off, b.off
        if pred[0] == 'u' and w < 64 and a.const and b.const:
            a, b = Lin(a.c % (1 << w)), Lin(b.c % (1 << w))
        if pred[0] == 'u' and w == 64 and a.const and b.const:
            a, b = Lin(a.c % (1 << 64)), Lin(b.c % (1 << 64))
        d = a - b
        if d.const:
            s = d.c
        else:
            # sign of d for all q >= lo
            try:
                m = d.minimum(self.lo)
                if m > 0:
                    s = 1
                elif m == 0 and pred in ('uge', 'sge'):
                    return True
                elif m == 0 and pred in ('ult', 'slt'):
                    return False
                else:
                    raise CantDo('undecided comparison %s %s %s' % (a, pred, b))
            except CantDo:
                m = d.scale(-1).minimum(self.lo)
                if m > 0:
                    s = -1
                elif m == 0 and pred in ('ule', 'sle'):
                    return True
                elif m == 0 and pred in ('ugt', 'sgt'):
                    return False
                else:
                    raise CantDo('undecided comparison %s %s %s' % (a, pred, b))
        return {'eq': s == 0, 'ne': s != 0, 'ult': s < 0, 'slt': s < 0, 'ule': s <= 0, 'sle': s <= 0,
                'ugt': s > 0, 'sgt': s > 0, 'uge': s >= 0, 'sge': s >= 0}[pred]

    # -- instructions
    def step(self, i):
        r = i.raw
        op = i.op
        V = self.val
        if op in ('add', 'sub', 'mul', 'udiv', 'urem', 'sdiv', 'srem'):
            a, b = V(i.ops[0]), V(i.ops[1])
            if isinstance(a, Bits) or isinstance(b, Bits):
                if op == 'add':   # add of disjoint bits is or
                    w = width(i.t)
                    x, y = self.tobits(a, w), self.tobits(b, w)
                    if all(p == 0 or q == 0 for p, q in zip(x, y)):
                        return self.frombits([p if q == 0 else q for p, q in zip(x, y)])
                    return Bits([None] * w)
                if op in ('mul', 'udiv', 'urem') and isinstance(b, Lin) and b.const and b.c > 0 and b.c & (b.c - 1) == 0:
                    s = b.c.bit_length() - 1
                    w = width(i.t)
                    x = self.tobits(a, w)
                    if op == 'mul':
                        return self.frombits(([0] * s + x)[:w])
                    if op == 'udiv':
                        return self.frombits(x[s:] + [0] * s)
                    return self.frombits(x[:s] + [0] * (w - s))
                raise CantDo('arithmetic on data bits')
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                raise CantDo('pointer arithmetic')
            if op == 'add':
                return a + b
            if op == 'sub':
                return a - b
            if op == 'mul':
                if a.const:
                    return b.scale(a.c)
                if b.const:
                    return a.scale(b.c)
                raise CantDo('product')
            if b.const and b.c > 0:
                if op in ('udiv', 'sdiv'):
                    return a.divfloor(b.c)
                return Lin(a.mod(b.c))
            raise CantDo(op)
        if op in ('shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            a, b = V(i.ops[0]), V(i.ops[1])
            w = width(i.t)
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                raise CantDo('bit operation on pointer')
            if isinstance(a, Lin) and not a.const or isinstance(b, Lin) and not b.const:
                if op == 'shl' and isinstance(b, Lin) and b.const and isinstance(a, Lin):
                    return a.scale(1 << b.c)
                if op == 'lshr' and isinstance(b, Lin) and b.const and isinstance(a, Lin):
                    return a.divfloor(1 << b.c)
                if op == 'and' and isinstance(b, Lin) and b.const and isinstance(a, Lin):
                    m = b.c
                    if m >= 0 and (m & (m + 1)) == 0:
                        return Lin(a.mod(m + 1))
                    if m < 0 and (-m) & (-m - 1) == 0:
                        return a - Lin(a.mod(-m))
                if op == 'or' and isinstance(b, Lin) and b.const and isinstance(a, Lin):
                    k = 1 << b.c.bit_length()
                    if b.c >= 0 and a.mod(k) & b.c == 0:
                        return a + b
                raise CantDo('%s on %r, %r' % (op, a, b))
            if op in ('shl', 'lshr', 'ashr'):
                if not isinstance(b, Lin):
                    raise CantDo('shift by data')
                s = b.c
                if s < 0 or s >= w:
                    raise CantDo('shift amount')
                x = self.tobits(a, w)
                if op == 'shl':
                    return self.frombits(([0] * s + x)[:w])
                if op == 'lshr':
                    return self.frombits(x[s:] + [0] * s)
                return self.frombits(x[s:] + [x[-1]] * s)
            x, y = self.tobits(a, w), self.tobits(b, w)
            out = []
            for p, q in zip(x, y):
                if op == 'and':
                    out.append(0 if p == 0 or q == 0 else q if p == 1 else p if q == 1 or p == q else None)
                elif op == 'or':
                    out.append(1 if p == 1 or q == 1 else q if p == 0 else p if q == 0 or p == q else None)
                else:
                    out.append(q if p == 0 else p if q == 0 else (p ^ q) if p in (0, 1) and q in (0, 1) else 0 if p == q and p is not None else None)
            return self.frombits(out)
        if op in ('zext', 'sext', 'trunc'):
            a = V(i.ops[0])
            w = width(i.t)
            if isinstance(a, Bits):
                x = a.b
                if op == 'trunc':
                    return self.frombits(x[:w])
                return self.frombits(x + [0 if op == 'zext' else x[-1]] * (w - len(x)))
            if isinstance(a, Lin) and a.const:
                ow = None
                o = i.ops[0]
                ow = width(self.fn.inst[o].t) if isinstance(o, int) and o in self.fn.inst else None
                v = a.c
                if op == 'zext' and ow:
                    v %= 1 << ow
                if op == 'trunc':
                    v %= 1 << w
                    if w > 1 and v >= 1 << (w - 1):
                        v -= 1 << w
                return Lin(v)
            return a   # linear forms are assumed not to overflow
        if op == 'getelementptr':
            b = V(i.ops[0])
            if not isinstance(b, Ptr) or 'off' not in r:
                raise CantDo('gep')
            off = b.off + r['off']
            for v, s in r['var']:
                x = V(v)
                if not isinstance(x, Lin):
                    raise CantDo('index')
                off = off + x.scale(s)
            return Ptr(b.base, off)
        if op == 'load':
            return self.load(V(i.ops[0]), r['size'])
        if op == 'alloca':
            return Ptr('alloca%d' % i.id, Lin(0))
        if op == 'icmp':
            o = i.ops[0]
            t = self.fn.inst[o].t if isinstance(o, int) and o in self.fn.inst else ''
            w = int(t[1:]) if t.startswith('i') else 64
            return Lin(-1 if self.cmp(r['pred'], V(i.ops[0]), V(i.ops[1]), w) else 0)
        if op == 'select':
            c = V(i.ops[0])
            if isinstance(c, Lin) and c.const:
                return V(i.ops[1]) if c.c & 1 else V(i.ops[2])
            raise CantDo('select')
        if op == 'freeze':
            return V(i.ops[0])
        if op in ('call', 'invoke'):
            c = i.callee or ''
            if c.startswith('llvm.lifetime') or c.startswith('llvm.assume') or c.startswith('llvm.dbg'):
                return None
            if c.startswith('llvm.umin') or c.startswith('llvm.umax'):
                a, b = V(i.args[0]), V(i.args[1])
                lt = self.cmp('ult', a, b, 64)
                return a if lt == c.startswith('llvm.umin') else b
            if c.startswith('llvm.memcpy') or c.startswith('llvm.memmove'):
                d, s, n = V(i.args[0]), V(i.args[1]), V(i.args[2])
                if n.const and n.c <= 64:
                    for k in range(n.c):
                        self.store(Ptr(d.base, d.off + k), self.load(Ptr(s.base, s.off + k), 1), 1)
                    return None
                raise CantDo('memcpy of variable size')
            if c.startswith('llvm.memset'):
                d, v, n = V(i.args[0]), V(i.args[1]), V(i.args[2])
                if n.const and n.c <= 4096:
                    for k in range(n.c):
                        self.store(Ptr(d.base, d.off + k), v, 1)
                    return None
                raise CantDo('memset of variable size')
            if c.startswith('llvm.fshl') or c.startswith('llvm.fshr'):
                w = width(i.t)
                a, b, s = self.tobits(V(i.args[0]), w), self.tobits(V(i.args[1]), w), V(i.args[2])
                x = b + a
                s = s.c % w
                return self.frombits(x[w - s:2 * w - s] if c.startswith('llvm.fshl') else x[s:s + w])
            raise CantDo('call of ' + i.cdem)
        raise CantDo('instruction ' + op)

    def phi_vals(self, b, pred):
        new = {}
        for i in self.fn.blocks[b].insts:
            if i.op != 'phi':
                break
            for v, p in i.raw['in']:
                if p == pred:
                    new[i.id] = self.val(v)
                    break
        return new

    def exec_block(self, b):
        """executes the non-phi part; returns the next block or None"""
        blk = self.fn.blocks[b]
        for i in blk.insts:
            self.steps += 1
            if self.steps > self.budget:
                raise CantDo('budget')
            op = i.op
            if op == 'phi':
                continue
            if op == 'store':
                v = self.val(i.ops[0])
                self.store(self.val(i.ops[1]), v, i.raw['size'])
                continue
            if op == 'br':
                if len(blk.succ) == 1:
                    return blk.succ[0]
                c = self.val(i.ops[0])
                if not (isinstance(c, Lin) and c.const):
                    raise CantDo('branch')
                # JSON operand order: cond, false, true
                bbs = [o['v'] for o in i.ops[1:]]
                return bbs[1] if c.c & 1 else bbs[0]
            if op == 'switch':
                c = self.val(i.raw['cond'])
                if not (isinstance(c, Lin) and c.const):
                    raise CantDo('switch')
                for v, t in i.raw['cases']:
                    if v == c.c:
                        return t
                return i.raw['default']
            if op == 'ret':
                return None
            if op == 'unreachable':
                self.threw = True
                return None
            if op in ('call', 'invoke') and (i.callee or '') in ('__cxa_allocate_exception', '__cxa_throw') or \
                    op in ('call', 'invoke') and i.raw.get('noreturn'):
                self.threw = True
                return None
            self.env[i.id] = self.step(i)
            if op == 'invoke':
                return i.raw['normal']
        return None

    def run(self):
        prev, b = None, 0
        while b is not None:
            if b in self.loop_of_header and prev is not None and prev not in self.fn.loops[self.loop_of_header[b]]['blocks'] \
                    and self.parametric:
                prev, b = self.run_loop(self.loop_of_header[b], prev)
                continue
            if prev is not None:
                self.env.update(self.phi_vals(b, prev))
            nxt = self.exec_block(b)
            prev, b = b, nxt

    # -- loop summarisation
    def iterate(self, loop, header_phis):
        """one iteration from the header; returns ('latch', next phis, exits) where
        exits = list of (block, cond operands) seen; only header/latch exits are supported"""
        self.env.update(header_phis)
        blocks = set(loop['blocks'])
        b, path, exits = loop['header'], [], []
        while True:
            path.append(b)
            blk = self.fn.blocks[b]
            out = [s for s in blk.succ if s not in blocks]
            if out:
                # execute everything but the terminator
                for i in blk.insts[:-1]:
                    if i.op == 'phi':
                        continue
                    if i.op == 'store':
                        self.store(self.val(i.ops[1]), self.val(i.ops[0]), i.raw['size'])
                    elif i.op == 'icmp' and i.id == blk.term.ops[0]:
                        pass
                    else:
                        self.env[i.id] = self.step(i)
                t = blk.term
                if t.op != 'br' or len(blk.succ) != 2 or exits:
                    raise CantDo('loop exit')
                ci = self.fn.inst.get(t.ops[0]) if isinstance(t.ops[0], int) else None
                if ci is None or ci.op != 'icmp':
                    raise CantDo('loop condition')
                bbs = [o['v'] for o in t.ops[1:]]
                truedst, falsedst = bbs[1], bbs[0]
                stay = truedst if truedst in blocks else falsedst
                exits.append((b, ci, stay == truedst, out[0], self.val(ci.ops[0]), self.val(ci.ops[1])))
                nxt = stay
            else:
                nxt = self.exec_block(b)
                if nxt is None:
                    raise CantDo('return in loop')
            if nxt == loop['header']:
                return b, exits
            if nxt in path or nxt in self.loop_of_header:
                raise CantDo('nested loop')
            b = nxt

    def run_loop(self, li, prev):
        loop = self.fn.loops[li]
        if self.curloop is not None:
            raise CantDo('nested loop')
        h = loop['header']
        init = self.phi_vals(h, prev)
        self.nloop += 1
        var = 'i%d' % self.nloop
        saved_mem, saved_reads, saved_env = dict(self.mem), list(self.reads), dict(self.env)
        self.lo[var] = 0
        # first pass with opaque phis to find the steps
        gen = {}
        for k, v in init.items():
            f = Lin(0, {'p%d' % k: 1})
            gen[k] = f if isinstance(v, Lin) else Ptr(v.base, f) if isinstance(v, Ptr) else None
            if gen[k] is None:
                raise CantDo('loop carried data')
            self.lo['p%d' % k] = 0
        self.curloop = (var, None)
        self.mem = {k: v for k, v in self.mem.items() if k[0].startswith('alloca')}
        self.probe = True
        latch, _ = self.iterate(loop, gen)
        self.probe = False
        nxt = self.phi_vals(h, latch)
        steps = {}
        for k in init:
            a = nxt[k].off if isinstance(nxt[k], Ptr) else nxt[k]
            g = gen[k].off if isinstance(gen[k], Ptr) else gen[k]
            if not isinstance(a, Lin) or isinstance(nxt[k], Ptr) != isinstance(gen[k], Ptr):
                raise CantDo('loop step')
            d = a - g
            if not d.const:
                raise CantDo('loop step')
            steps[k] = d.c
        # second pass with the closed forms
        self.mem, self.reads, self.env = {}, [], dict(saved_env)
        cur = {}
        for k, v in init.items():
            adv = Lin(0, {var: steps[k]})
            cur[k] = v + adv if isinstance(v, Lin) else Ptr(v.base, v.off + adv)
        self.curloop = (var, None)
        latch, exits = self.iterate(loop, cur)
        if len(exits) != 1:
            raise CantDo('number of exits')
        eb, ci, stay_true, out, a, b = exits[0]
        pred = ci.raw['pred']
        if not stay_true:
            pred = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt',
                    'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}[pred]
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.base == b.base:
            a, b = a.off, b.off
        if not isinstance(a, Lin) or not isinstance(b, Lin):
            raise CantDo('loop condition')
        d = a - b            # stays while  d(i) pred 0
        k = d.coef(var)
        c0 = d.subst(var, Lin(0))
        if k == 0:
            raise CantDo('loop condition')
        if pred == 'ne':
            # c0 + k*i == 0 first at i = -c0/k
            t = c0.scale(-1) if k > 0 else c0
            kk = abs(k)
            if any(v % kk for _, v in t.m) or t.c % kk:
                raise CantDo('loop end')
            T = t.divfloor(kk)
        elif pred in ('ult', 'slt') and k > 0:
            T = (c0.scale(-1) + (k - 1)).divfloor(k)
        elif pred in ('ule', 'sle') and k > 0:
            T = c0.scale(-1).divfloor(k) + 1
        elif pred in ('ugt', 'sgt') and k < 0:
            T = (c0 + (-k - 1)).divfloor(-k)
        elif pred in ('uge', 'sge') and k < 0:
            T = c0.divfloor(-k) + 1
        else:
            raise CantDo('loop end ' + pred)
        lowT = T.minimum(self.lo)
        if lowT < 0:
            raise CantDo('trip count may be negative')
        # T is the index of the iteration in which the exit is taken
        if eb == h:
            iters = T
        else:
            if eb != latch:
                raise CantDo('exit in the middle')
            iters = T + 1
        if any(x.op == 'store' for x in self.fn.blocks[h].insts) and eb == h and h != latch:
            raise CantDo('store in exiting header')
        # straight-line memory written before must not be touched by the loop
        segs = {}
        for (base, addr), bits in self.mem.items():
            if base.startswith('alloca'):
                raise CantDo('local memory written in loop')
            segs.setdefault(base, {})[addr] = bits
        for base, m in segs.items():
            self.loopmem.append((var, iters, m, base))
        self.reads = saved_reads + [(x, (var, iters)) for x, _ in self.reads]
        self.mem = saved_mem
        self.curloop = None
        # values after the loop
        endi = T
        for k2, v in init.items():
            adv = endi.scale(steps[k2])
            self.env[k2] = v + adv if isinstance(v, Lin) else Ptr(v.base, v.off + adv)
        # values defined in the loop, at the last iteration
        for b2 in loop['blocks']:
            for i in self.fn.blocks[b2].insts:
                v = self.env.get(i.id)
                if i.op == 'phi' and b2 == h:
                    continue
                if isinstance(v, Lin):
                    self.env[i.id] = v.subst(var, endi)
                elif isinstance(v, Ptr):
                    self.env[i.id] = Ptr(v.base, v.off.subst(var, endi))
                elif isinstance(v, Bits):
                    self.env.pop(i.id, None)
        return eb, out
