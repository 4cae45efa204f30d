"""Abstract interpretation of a search in a sorted table.

Integers and pointers are constants (the size of the table is fixed for a run); the value that is searched is known only by an
interval of its rank among the entries.  A comparison with an entry splits the interval (trace partitioning), so that the
union of the final states covers every value and every table of that size with increasing entries.

Positions: 2 i is "between entries i - 1 and i", 2 i + 1 is "equal to entry i"."""
TAB = 1 << 44
THIS = 1 << 40
MASK = (1 << 64) - 1


class Unknown(Exception):
    pass


class Wrong(Exception):
    pass


def width(t):
    if t == 'ptr':
        return 64
    if t and t[0] == 'i' and t[1:].isdigit():
        return int(t[1:])
    raise Unknown('type %s' % t)


def signed(v, w):
    return v - (1 << w) if v >> (w - 1) else v


class Search:
    def __init__(self, f, limit=2000):
        self.f = f
        self.limit = limit
        self.traces = 0

    def run(self, n):
        """yields (result index, lowest position, highest position)"""
        self.n = n
        args = {}
        for k, a in enumerate(self.f.args):
            args[a['id']] = THIS if a['t'] == 'ptr' else ('val',) if a['t'] == 'float' else None
        todo = [(0, 0, None, args, 0, 2 * n, 0)]
        while todo:
            yield from self.trace(todo, *todo.pop())

    def operand(self, o, env):
        if isinstance(o, dict):
            k = o['k']
            if k == 'int':
                return int(o['v']) & MASK
            if k == 'null':
                return 0
            raise Unknown('operand %s' % k)
        v = env.get(o)
        if v is None:
            raise Unknown('value %s' % o)
        return v

    def trace(self, todo, b, pos, prev, env, lo, hi, steps):
        f = self.f
        while True:
            steps += 1
            if steps > self.limit:
                raise Wrong('the search does not end')
            blk = f.blocks[b]
            if pos == 0:
                new = {}
                for i in blk.insts:
                    if i.op != 'phi':
                        break
                    for v, p in i.raw['in']:
                        if p == prev:
                            new[i.id] = self.operand(v, env)
                env.update(new)
            for q in range(pos, len(blk.insts)):
                i = blk.insts[q]
                if i.op == 'phi':
                    continue
                if i.op in ('br', 'ret', 'switch', 'unreachable'):
                    break
                if i.op == 'fcmp':
                    r = self.compare(i, env, lo, hi)
                    if len(r) > 1:
                        for v, l, h in r[1:]:
                            e = dict(env)
                            e[i.id] = v
                            todo.append((b, q + 1, prev, e, l, h, steps))
                    v, lo, hi = r[0]
                    env[i.id] = v
                    continue
                v = self.compute(i, env)
                if v is not None:
                    env[i.id] = v
            t = blk.term
            if t.op == 'ret':
                self.traces += 1
                v = self.operand(t.ops[0], env)
                if v < TAB - 1024 or (v - TAB) % 4:
                    raise Unknown('the result')
                yield (v - TAB) // 4, lo, hi
                return
            if t.op != 'br':
                raise Unknown(t.op)
            if len(blk.succ) == 1:
                nb = blk.succ[0]
            else:
                o = t.raw.get('cond', t.ops[0] if t.ops else None)
                nb = blk.succ[0] if self.operand(o, env) & 1 else blk.succ[1]
            prev, b, pos = b, nb, 0

    def compare(self, i, env, lo, hi):
        x, y = (self.operand(o, env) for o in i.ops[:2])
        p = i.get('pred')
        if y == ('val',) and isinstance(x, tuple) and x[0] == 'el':
            e = x[1]
        elif x == ('val',) and isinstance(y, tuple) and y[0] == 'el':
            e = y[1]
            p = {'olt': 'ogt', 'ogt': 'olt', 'ole': 'oge', 'oge': 'ole', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}.get(p, p)
        elif isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] == 'el':
            a, c = x[1], y[1]
            v = {'lt': a < c, 'le': a <= c, 'gt': a > c, 'ge': a >= c, 'eq': a == c, 'ne': a != c, 'rd': True, 'no': False}[p[1:]]
            return [(int(v), lo, hi)]
        elif x == y == ('val',):
            return [(int(p[1:] in ('le', 'ge', 'eq', 'rd')), lo, hi)]
        else:
            raise Unknown('comparison %s' % p)
        # entry e against the value at position v
        k = p[1:]
        at = 2 * e + 1
        parts = [(lo, min(hi, at - 1), 'lt'), (max(lo, at), min(hi, at), 'eq'), (max(lo, at + 1), hi, 'gt')]
        # value < entry, equal, greater
        truth = {'lt': {'gt'}, 'le': {'gt', 'eq'}, 'gt': {'lt'}, 'ge': {'lt', 'eq'}, 'eq': {'eq'}, 'ne': {'lt', 'gt'}, 'rd': {'lt', 'eq', 'gt'}, 'no': set()}
        if k not in truth:
            raise Unknown('comparison %s' % p)
        out = []
        for l, h, w in parts:
            if l <= h:
                v = int(w in truth[k])
                if out and out[-1][0] == v:
                    out[-1] = (v, out[-1][1], h)
                else:
                    out.append((v, l, h))
        return out

    def compute(self, i, env):
        op = i.op
        u = lambda k: self.operand(i.ops[k], env)
        if op == 'load':
            a = u(0)
            if i.t == 'float':
                d = a - TAB
                if d % 4 or not 0 <= d < 4 * self.n:
                    raise Wrong('an entry beyond the table is read (entry %s of %d)' % (d / 4, self.n))
                return ('el', d // 4)
            if i.t == 'ptr' and THIS <= a < THIS + 64:
                o = a - THIS
                return TAB if o == 0 else TAB + 4 * self.n if o in (8, 16) else None
            raise Unknown('load')
        if op == 'getelementptr':
            if i.get('off') is None:
                raise Unknown('address')
            v = u(0) + i.get('off')
            for o, sz in i.get('var') or []:
                v += signed(self.operand(o, env), 64) * sz
            return v & MASK
        if op == 'select':
            return u(1) if u(0) & 1 else u(2)
        if op in ('zext', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
            return u(0)
        if op == 'sext':
            o = i.ops[0]
            w = width(self.f.inst[o].t) if isinstance(o, int) and o in self.f.inst else 64
            return signed(u(0), w) & ((1 << width(i.t)) - 1)
        if op == 'trunc':
            return u(0) & ((1 << width(i.t)) - 1)
        if op == 'icmp':
            x, y = u(0), u(1)
            if isinstance(x, tuple) or isinstance(y, tuple):
                raise Unknown('comparison of entries as integers')
            w = i.get('w') or 64
            m = (1 << w) - 1
            x, y = x & m, y & m
            p = i.get('pred')
            if p[0] == 's':
                x, y = signed(x, w), signed(y, w)
            return int({'eq': x == y, 'ne': x != y}[p] if p in ('eq', 'ne') else {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p[1:]])
        if op in ('fpext',):
            return u(0)
        w = width(i.t) if i.t != 'void' else 0
        m = (1 << w) - 1 if w else 0
        if op in ('add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'udiv', 'sdiv', 'urem', 'srem'):
            x, y = u(0), u(1)
            if isinstance(x, tuple) or isinstance(y, tuple):
                raise Unknown('arithmetic on entries')
            x, y = x & m, y & m
            if op in ('udiv', 'urem', 'sdiv', 'srem') and y == 0:
                raise Wrong('division by zero')
            if op in ('shl', 'lshr', 'ashr') and y >= w:
                raise Wrong('shift beyond the width')
            sx, sy = signed(x, w), signed(y, w)
            return {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'shl': lambda: x << y, 'lshr': lambda: x >> y, 'ashr': lambda: sx >> y,
                    'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y, 'udiv': lambda: x // y, 'urem': lambda: x % y,
                    'sdiv': lambda: (abs(sx) // abs(sy)) * (1 if (sx < 0) == (sy < 0) else -1), 'srem': lambda: abs(sx) % abs(sy) * (1 if sx >= 0 else -1)}[op]() & m
        if op in ('call', 'invoke'):
            c = i.callee or ''
            if c.startswith('llvm.'):
                nm = c.split('.')[1]
                if c.startswith('llvm.is.constant'):
                    return 0
                a = [self.operand(o, env) for o in i.args] if nm not in ('assume', 'dbg', 'lifetime', 'experimental') else []
                if nm in ('assume', 'dbg', 'lifetime', 'experimental'):
                    return None
                if nm == 'ctlz':
                    return w - (a[0] & m).bit_length()
                if nm == 'cttz':
                    return w if a[0] & m == 0 else ((a[0] & m) & -(a[0] & m)).bit_length() - 1
                if nm == 'ctpop':
                    return bin(a[0] & m).count('1')
                if nm in ('umin', 'umax'):
                    return (min if nm == 'umin' else max)(a[0] & m, a[1] & m)
                if nm in ('smin', 'smax'):
                    return (min if nm == 'smin' else max)(signed(a[0] & m, w), signed(a[1] & m, w)) & m
                if nm == 'expect':
                    return a[0]
            raise Unknown('call of %s' % (i.cq or c))
        if op == 'store' or op == 'alloca':
            raise Unknown(op)
        raise Unknown(op)
