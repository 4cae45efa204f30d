"""Equality of terms by random interpretation: the atoms of two terms get the same random values, the
terms are evaluated with the widths of the program, and are taken to be equal when all values agree."""
import hashlib

M64 = (1 << 64) - 1


class Unknown(Exception):
    pass


class Env:
    def __init__(self, e, seed, bind=None, small=31, names=None):
        self.e, self.seed, self.small = e, seed, small
        self.names = names or {}
        self.bind = bind or {}
        self.memo = {}
        self.over = {}

    def atom(self, key, bits=None):
        if key in self.over:
            return self.over[key]
        h = hashlib.sha256(repr((self.seed, key)).encode()).digest()
        bits = min(bits or self.small, self.small)
        return int.from_bytes(h[:8], 'little') & ((1 << bits) - 1)

    def canon(self, t):
        """name of an object or member that does not depend on the function it is used in"""
        if not isinstance(t, tuple) or not t:
            return t
        if t in self.bind:
            return ('bind', self.bind[t])
        if t[0] in ('m', 'v') and len(t) >= 3 and isinstance(t[2], int):
            if t[1][0] == 'ixp':
                return ('ix', self.canon(t[1][1]), self.canon(t[1][2]))
            a = ('+', t[1], t[2]) if t[2] else t[1]
            f = self.e.field(a)
            if f:
                return ('bind', self.names[f[:2]]) if f[:2] in self.names else ('F',) + f
            return ('m', self.canon(t[1]), t[2])
        if t[0] == '+':
            f = self.e.field(t)
            if f:
                return ('&F',) + f
        if t[0] == 'vc':
            # the object is implied by the name
            return ('vc', t[1]) + tuple(self.value(x) if self.isval(x) else self.canon(x) for x in t[3:])
        if t[0] == 'ixp':
            # by value or by reference
            return ('ix', self.canon(t[1]), self.canon(t[2]))
        if t[0] in ('tr',):
            return self.canon(t[2])
        return tuple(self.canon(x) for x in t)

    def isval(self, t):
        return isinstance(t, tuple) and t[0] in ('m', 'c', 'tr', 'add', 'mul', 'sub', 'udiv', 'urem', 'vc', 'ssize', 'size', 'arg', 'bind', 'ixp', 'v')

    def value(self, t):
        if t in self.memo:
            return self.memo[t]
        v = self.memo[t] = self._value(t) & M64
        return v

    def _value(self, t):
        if t in self.bind:
            b = self.bind[t]
            return b if isinstance(b, int) else self.atom(('bind', b))
        k = t[0]
        if k == 'c':
            return t[1]
        if k == 'null':
            return 0
        if k == 'blur':
            return 1
        if k == 'tr':
            w = int(t[1][1:])
            return self.value(t[2]) & ((1 << w) - 1)
        if k in ('add', 'mul', 'sub', 'udiv', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'umin', 'umax', 'smin', 'smax'):
            a, b = self.value(t[1]), self.value(t[2])
            w = t[3] if len(t) > 3 else 64
            if k == 'udiv' or k == 'urem':
                if b == 0:
                    return 0
                return a // b if k == 'udiv' else a % b
            r = {'add': a + b, 'mul': a * b, 'sub': a - b, 'and': a & b, 'or': a | b, 'xor': a ^ b,
                 'umin': min(a, b), 'umax': max(a, b), 'smin': min(a, b), 'smax': max(a, b)}.get(k)
            if r is None:
                r = a << min(b, 64) if k == 'shl' else a >> min(b, 64)
            return r & ((1 << w) - 1)
        if k == 'not':
            return 1 - (self.value(t[1]) & 1)
        if k == 'eq':
            return int(self.value(t[1]) == self.value(t[2]))
        if k == 'ult':
            return int(self.value(t[1]) < self.value(t[2]))
        if k == 'slt':
            return int(signed(self.value(t[1])) < signed(self.value(t[2])))
        if k == 'fcmp' and t[1][-2:] in ('eq', 'ne'):
            return int((self.value(t[2]) == self.value(t[3])) == (t[1][-2:] == 'eq'))
        if k == 'fcmp':
            raise Unknown(t)
        if k == 'ite':
            return self.value(t[2]) if self.value(t[1]) & 1 else self.value(t[3])
        if k in ('u', '?'):
            raise Unknown(t)
        if k == 'ssize':
            return self.atom(self.canon(t), 10)
        if k == 'm' and self.e is not None:
            c = self.canon(t)
            return self.atom(c)
        return self.atom(self.canon(t))


ATOMS = ('m', 'rd', 'r', 'arg', 'size', 'cell', 'tb', 'ev', 'vc', 'bind')


def force(env, facts):
    """lets equalities that hold decide values, which makes samples that satisfy the facts less rare"""
    for f, val in facts:
        if val and f[0] == 'eq' or not val and f[0] == 'fcmp' and f[1][-2:] == 'ne':
            a, b = f[-2], f[-1]
            for x, y in ((a, b), (b, a)):
                if x[0] in ATOMS and x not in env.bind:
                    try:
                        env.over[env.canon(x)] = env.value(y)
                        env.memo.clear()
                        break
                    except (Unknown, TypeError, ValueError):
                        pass


def signed(v):
    return v - (1 << 64) if v >> 63 else v


def atleast(e, a, b, bind=None, n=6, small=31):
    try:
        for s in range(n):
            v = Env(e, s, bind, small)
            if v.value(a) < v.value(b):
                return False
    except Unknown:
        return None
    return True


def equal(e1, a, e2, b, bind1=None, bind2=None, n=6, small=31):
    """None when a term has parts that are not known"""
    try:
        for s in range(n):
            if Env(e1, s, bind1, small).value(a) != Env(e2, s, bind2, small).value(b):
                return False
    except Unknown:
        return None
    return True


def samples(e, facts, n, bind=None, names=None, small=3, special=None, want=200):
    """small interpretations in which the facts (those that can be evaluated) hold"""
    r = 0
    facts = list(facts)
    for s in range(n):
        v = Env(e, s, bind, small, names)
        if special:
            special(v, s)
        force(v, facts)
        ok = True
        for f, val in facts:
            try:
                if (v.value(f) & 1) != int(val):
                    ok = False
                    break
            except (Unknown, TypeError, ValueError):
                pass
        if ok:
            yield v
            r += 1
            if r >= want:
                return
