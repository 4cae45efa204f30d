"""Thin object model over the JSON of irdump."""
from .build import AnalysisError


class Inst:
    __slots__ = ('id', 'op', 't', 'raw', 'bb', 'pos')

    def __init__(self, raw, bb, pos):
        self.id = raw['id']
        self.op = raw['op']
        self.t = raw['t']
        self.raw = raw
        self.bb = bb
        self.pos = pos

    def get(self, k, d=None):
        return self.raw.get(k, d)

    @property
    def ops(self):
        return self.raw.get('ops', [])

    @property
    def args(self):
        return self.raw.get('args', [])

    @property
    def callee(self):
        return self.raw.get('callee')

    @property
    def cdem(self):
        return self.raw.get('cdem', '')

    @property
    def cq(self):
        return self.raw.get('cq', '')

    @property
    def where(self):
        d = self.raw.get('d')
        if not d:
            return '?'
        for e in d:
            if not e[1].startswith('/usr') and 'bits/' not in e[1]:
                return '%s:%d' % (e[1].rsplit('/', 1)[-1], e[0])
        return '%s:%d' % (d[0][1].rsplit('/', 1)[-1], d[0][0])

    @property
    def chain(self):
        return [(e[2], e[1].rsplit('/', 1)[-1], e[0]) for e in self.raw.get('d', [])]

    def __repr__(self):
        return '<%d %s %s>' % (self.id, self.op, self.raw.get('cdem', '')[:60])


class Block:
    __slots__ = ('id', 'succ', 'insts', 'loop', 'preds')

    def __init__(self, raw):
        self.id = raw['id']
        self.succ = raw['succ']
        self.loop = raw.get('loop')
        self.insts = [Inst(r, self.id, k) for k, r in enumerate(raw['insts'])]
        self.preds = []

    @property
    def term(self):
        return self.insts[-1]


class Function:
    def __init__(self, raw, mod):
        self.raw = raw
        self.mod = mod
        self.name = raw['name'][5:] if raw['name'].startswith('root.') else raw['name']
        self.dem = raw['dem']
        self.qn = raw['qn']
        self.args = raw['args']
        self.params = raw.get('params', {})
        self.blocks = {b['id']: Block(b) for b in raw['blocks']}
        self.inst = {}
        for b in self.blocks.values():
            for i in b.insts:
                self.inst[i.id] = i
        for b in self.blocks.values():
            for s in b.succ:
                self.blocks[s].preds.append(b.id)
        self.loops = raw.get('loops', [])
        self.scevs = raw.get('scevs', [])
        self.argids = {a['id']: k for k, a in enumerate(self.args)}
        self._dom = None

    @property
    def entry(self):
        return self.blocks[0]

    def insts(self):
        for b in self.blocks.values():
            for i in b.insts:
                yield i

    def calls(self, pred=None):
        for i in self.insts():
            if i.op in ('call', 'invoke') and (pred is None or pred(i)):
                yield i

    def arg_named(self, name):
        for k, v in self.params.items():
            if v == name:
                pass
        return None

    def dominators(self):
        if self._dom is None:
            order, seen = [], set()

            def dfs(b):
                st = [(b, iter(self.blocks[b].succ))]
                seen.add(b)
                while st:
                    x, it = st[-1]
                    for s in it:
                        if s not in seen:
                            seen.add(s)
                            st.append((s, iter(self.blocks[s].succ)))
                            break
                    else:
                        order.append(x)
                        st.pop()
            dfs(0)
            order.reverse()
            idx = {b: k for k, b in enumerate(order)}
            idom = {0: 0}
            ch = True
            while ch:
                ch = False
                for b in order[1:]:
                    ps = [p for p in self.blocks[b].preds if p in idom]
                    if not ps:
                        continue
                    n = ps[0]
                    for p in ps[1:]:
                        a, c = p, n
                        while a != c:
                            while idx[a] > idx[c]:
                                a = idom[a]
                            while idx[c] > idx[a]:
                                c = idom[c]
                        n = a
                    if idom.get(b) != n:
                        idom[b] = n
                        ch = True
            self._dom = idom
        return self._dom

    def block_dominates(self, a, b):
        d = self.dominators()
        if b not in d:
            return True
        while b != a:
            if b == 0:
                return False
            b = d[b]
        return True

    def dominates(self, i, j):
        """instruction i dominates instruction j"""
        if i.bb == j.bb:
            return i.pos < j.pos
        return self.block_dominates(i.bb, j.bb)

    def uses(self):
        u = {}
        for i in self.insts():
            for o in operands(i):
                if isinstance(o, int):
                    u.setdefault(o, []).append(i)
        return u


def operands(i):
    r = i.raw
    out = list(r.get('ops', [])) + list(r.get('args', []))
    if 'in' in r:
        out += [x[0] for x in r['in']]
    if 'cond' in r:
        out.append(r['cond'])
    if 'cv' in r:
        out.append(r['cv'])
    return out


class Module:
    def __init__(self, raw):
        self.records = raw['records']
        self.enums = raw['enums']
        self.globals = raw['globals']
        self.functions = [Function(f, self) for f in raw['functions']]
        self.byname = {f.name: f for f in self.functions}

    def find(self, pred):
        return [f for f in self.functions if pred(f)]

    def one(self, dem_prefix):
        fs = [f for f in self.functions if f.dem.startswith(dem_prefix)]
        if len(fs) != 1:
            raise AnalysisError('expected one function %s, found %d' % (dem_prefix, len(fs)))
        return fs[0]

    # record helpers
    def record(self, name):
        if name in self.records:
            return self.records[name]
        return None


def is_int(o):
    return isinstance(o, dict) and o.get('k') == 'int'


def int_val(o):
    return int(o['v'])
