"""Sparse conditional constant propagation over one function, with assumptions.

assume(inst) may fix the value of a load or a call: an int, NN (a non-null pointer) or None.
The result tells which blocks can be reached under the assumptions."""
import re

NN = ('nonnull',)
OVER = ('over',)


def width(t):
    m = re.match(r'^i(\d+)$', t or '')
    return int(m.group(1)) if m else None


def sx(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


class SCCP:
    def __init__(self, fn, assume, args=None):
        self.fn, self.assume = fn, assume
        self.v = {}
        self.args = args or {}
        self.edges = set()
        self.reach = set()
        self.run()

    def val(self, o):
        if isinstance(o, dict):
            k = o['k']
            if k == 'int':
                return int(o['v'])
            if k == 'null':
                return 0
            if k in ('glob', 'fn'):
                return NN
            if k == 'gepc':
                return NN
            if k == 'undef':
                return None
            return OVER
        if o in self.fn.argids:
            return self.args.get(self.fn.argids[o], OVER)
        return self.v.get(o)

    def run(self):
        fn = self.fn
        self.reach.add(0)
        changed = True
        while changed:
            changed = False
            for b in sorted(self.reach):
                blk = fn.blocks[b]
                for i in blk.insts:
                    if i.op in ('br', 'switch', 'invoke', 'ret', 'resume', 'unreachable'):
                        if i.op == 'invoke':
                            changed |= self.set(i)
                        for s in self.targets(i, blk):
                            if (b, s) not in self.edges:
                                self.edges.add((b, s))
                                changed = True
                            if s not in self.reach:
                                self.reach.add(s)
                                changed = True
                        continue
                    changed |= self.set(i)

    def set(self, i):
        old = self.v.get(i.id)
        if old == OVER:
            return False
        new = self.eval(i)
        if new is None or new == old:
            return False
        if old is not None:
            new = OVER
        self.v[i.id] = new
        return True

    def targets(self, i, blk):
        if i.op == 'br' and i.ops:
            c = self.val(i.ops[0])
            if len(blk.succ) == 2 and isinstance(c, int):
                # operands: condition, false target, true target
                t, f = self.br_targets(i, blk)
                return [t if c & 1 else f]
            if len(blk.succ) == 2 and c is None:
                return []
            return blk.succ
        if i.op == 'switch':
            c = self.val(i.raw['cond'])
            if isinstance(c, int):
                w = i.raw.get('w') or 32
                for val, tgt in i.raw['cases']:
                    if (int(val) - c) % (1 << w) == 0:
                        return [tgt]
                return [i.raw['default']]
            if c is None:
                return []
            return blk.succ
        return blk.succ

    def br_targets(self, i, blk):
        # succ order of the dump: true first, false second (LLVM successor order)
        return blk.succ[0], blk.succ[1]

    def eval(self, i):
        op = i.op
        if op in ('load', 'call', 'invoke', 'icmp'):
            a = self.assume(i)
            if a is not None:
                return a
            if op == 'icmp':
                return self.eval_op(i)
            if op == 'call' and (i.callee or '').startswith('llvm.expect'):
                return self.val(i.args[0])
            if op in ('call', 'invoke') and i.t == 'ptr' and re.match(r'^(_Znw|_Zna|__cxa_allocate_exception)', i.callee or ''):
                return NN
            return OVER
        return self.eval_op(i)

    def eval_op(self, i):
        op = i.op
        if op == 'phi':
            r = None
            for v, p in i.raw['in']:
                if (p, i.bb) not in self.edges:
                    continue
                x = self.val(v)
                if x is None:
                    continue
                if r is None:
                    r = x
                elif r != x:
                    return OVER
            return r
        if op == 'alloca':
            return NN
        if op == 'getelementptr':
            b = self.val(i.ops[0])
            return NN if b == NN else (None if b is None else OVER)
        if op == 'select':
            c = self.val(i.ops[0])
            if c is None:
                return None
            if isinstance(c, int):
                return self.val(i.ops[1] if c & 1 else i.ops[2])
            a, b = self.val(i.ops[1]), self.val(i.ops[2])
            return a if a == b else OVER
        vs = [self.val(o) for o in i.ops]
        if any(v is None for v in vs):
            return None
        if op == 'icmp':
            a, b = vs
            p = i.raw['pred']
            if NN in vs and 0 in vs and p in ('eq', 'ne'):
                return int(p == 'ne')
            if isinstance(a, int) and isinstance(b, int):
                w = i.raw.get('w') or 64
                ua, ub = a & (2**w - 1), b & (2**w - 1)
                sa, sb = sx(a, w), sx(b, w)
                return int({'eq': ua == ub, 'ne': ua != ub, 'ult': ua < ub, 'ule': ua <= ub, 'ugt': ua > ub, 'uge': ua >= ub,
                            'slt': sa < sb, 'sle': sa <= sb, 'sgt': sa > sb, 'sge': sa >= sb}[p])
            return OVER
        if op in ('and',) and 0 in vs:
            return 0
        if op == 'or' and i.t == 'i1' and any(isinstance(v, int) and v & 1 for v in vs):
            return 1
        if not all(isinstance(v, int) for v in vs):
            return OVER
        w = width(i.t)
        if w is None:
            return OVER
        M = (1 << w) - 1
        if op in ('zext', 'trunc', 'freeze'):
            return vs[0] & M
        if op == 'sext':
            return vs[0] & M
        if len(vs) == 2:
            a, b = vs[0] & M, vs[1] & M
            f = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b, 'or': lambda: a | b,
                 'xor': lambda: a ^ b, 'shl': lambda: a << b if b < w else 0, 'lshr': lambda: a >> b if b < w else 0,
                 'ashr': lambda: sx(a, w) >> min(b, w - 1), 'udiv': lambda: a // b if b else 0, 'urem': lambda: a % b if b else 0}.get(op)
            if f:
                return f() & M
        return OVER
