"""Access paths: names the memory a pointer refers to by object and member."""
import re
from .ir import is_int, int_val


def norm_type(n):
    n = n.replace('> >', '>>').replace('> >', '>>').replace('> >', '>>')
    n = n.replace('const ', '')
    return n


class Types:
    def __init__(self, mod):
        self.rec = {}
        for k, v in mod.records.items():
            self.rec[norm_type(k)] = v
        self.cache = {}

    def get(self, name):
        return self.rec.get(norm_type(name)) if name else None

    def member(self, tname, off):
        """(path of (owner type, member name)), type name of the innermost member at this offset, rest"""
        key = (tname, off)
        if key in self.cache:
            return self.cache[key]
        path, t, o = [], tname, off
        while True:
            r = self.get(t)
            if r is None or t.endswith('*'):
                break
            best = None
            for nm, mo, ms, mt in r['m']:
                if nm == '<base>':
                    br = self.get(mt)
                    ms = br['size'] if br else 0
                if mo <= o < mo + max(ms, 1):
                    # prefer non-empty members
                    if best is None or ms > best[2]:
                        best = (nm, mo, ms, mt)
            if best is None:
                break
            path.append((norm_type(t), best[0]))
            t, o = best[3], o - best[1]
        res = (path, norm_type(t), o)
        self.cache[key] = res
        return res

    def bases(self, tname):
        r = self.get(tname)
        out = []
        if r:
            for nm, mo, ms, mt in r['m']:
                if nm == '<base>':
                    out.append(norm_type(mt))
                    out += self.bases(mt)
        return out


STD = re.compile(r'^(std|__gnu_cxx)::')


class Loc:
    """base object key + byte offset (None: unknown offset)"""
    __slots__ = ('base', 'off')

    def __init__(self, base, off):
        self.base, self.off = base, off

    def __eq__(self, o):
        return isinstance(o, Loc) and self.base == o.base and self.off == o.off

    def __hash__(self):
        return hash((self.base, self.off))

    def __repr__(self):
        return '%s+%s' % (self.base, self.off)


class Paths:
    """Resolves pointer values of one function."""

    def __init__(self, fn, types):
        self.fn, self.types = fn, types
        self.cache = {}
        self.btype = {}
        sret = 1 if fn.args and fn.args[0].get('sret') else 0
        pt = fn.raw.get('ptypes', [])[1:]
        m = re.match(r'^(.*)::[^:]*\(', strip_args(fn.dem) + '(')
        cls = strip_args(fn.dem).rsplit('::', 1)[0]
        for k, a in enumerate(fn.args):
            key = ('arg', k)
            t = None
            j = k - sret
            if 0 <= j < len(pt) and len(pt) >= len(fn.args) - sret:
                t = pt[j]
            if j == 0 and types.get(cls) and not (t and t.endswith('*')):
                t = cls + '*'
            if t and t[-1:] in '*&':
                self.btype[key] = norm_type(t[:-1])

    def base_type(self, base):
        return self.btype.get(base)

    def loc(self, o):
        """Loc of a pointer operand"""
        if isinstance(o, dict):
            if o['k'] == 'glob':
                return Loc(('glob', o['n']), 0)
            if o['k'] == 'gepc':
                b = self.loc(o['b'])
                return Loc(b.base, (b.off or 0) + o['off'])
            if o['k'] == 'null':
                return Loc(('null',), 0)
            if o['k'] == 'fn':
                return Loc(('fn', o['n']), 0)
            return Loc(('const', str(o)), 0)
        if o in self.cache:
            return self.cache[o]
        self.cache[o] = Loc(('val', o), 0)   # recursion guard for phis
        r = self._loc(o)
        self.cache[o] = r
        return r

    def _loc(self, o):
        if o in self.fn.argids:
            return Loc(('arg', self.fn.argids[o]), 0)
        i = self.fn.inst[o]
        if i.op == 'getelementptr':
            b = self.loc(i.ops[0])
            if i.get('var'):
                vb = ('elem', b.base, b.off)
                return Loc(vb, None)
            if b.off is None or 'off' not in i.raw:
                return Loc(b.base, None)
            return Loc(b.base, b.off + i.raw['off'])
        if i.op == 'load' and i.t == 'ptr':
            b = self.loc(i.ops[0])
            key = ('*', b.base, b.off)
            t = self.type_at(b)
            if t and t[-1:] in '*&':
                self.btype[key] = norm_type(t[:-1])
            return Loc(key, 0)
        if i.op == 'alloca':
            return Loc(('alloca', o), 0)
        if i.op in ('call', 'invoke'):
            if i.t == 'ptr':
                t = ret_type(i)
                if t:
                    self.btype[('ret', o)] = t
            if i.cdem.startswith('__dynamic_cast') or i.callee == '__dynamic_cast':
                return Loc(('val', o), 0)
            return Loc(('ret', o), 0)
        if i.op == 'phi':
            ls = {self.loc(v) for v, _ in i.raw['in'] if not (isinstance(v, dict) and v['k'] in ('null', 'undef'))}
            ls = {l for l in ls if l.base != ('val', o)}
            if len(ls) == 1:
                return ls.pop()
        if i.op == 'select':
            ls = {self.loc(v) for v in i.ops[1:] if not (isinstance(v, dict) and v['k'] in ('null', 'undef'))}
            if len(ls) == 1:
                return ls.pop()
        return Loc(('val', o), 0)

    def type_at(self, l):
        t = self.base_type(l.base)
        if t is None or l.off is None:
            return None
        return self.types.member(t, l.off)[1]

    def type_at_obj(self, l):
        """type of the object that starts at this location (the outermost one with this offset)"""
        t = self.base_type(l.base)
        if t is None or l.off is None:
            return None
        if l.off == 0:
            return t
        return self.types.member(t, l.off)[1]

    def field(self, l):
        """('Owner', 'member', 'sub.path') of the innermost non-library member, or None"""
        t = self.base_type(l.base)
        if t is None or l.off is None:
            # follow library indirections: *(Owner.member...) keeps the owner with a '*'
            b = l.base
            if b[0] in ('*', 'elem'):
                f = self.field(Loc(b[1], b[2])) if b[2] is not None else None
                if f:
                    return (f[0], f[1], f[2] + ('*' if b[0] == '*' else '[]'))
            return None
        path, mt, rest = self.types.member(t, l.off)
        own = [k for k, (o, m) in enumerate(path) if not STD.match(o) and m != '<base>']
        if not own:
            b = l.base
            if b[0] in ('*', 'elem') and b[2] is not None:
                f = self.field(Loc(b[1], b[2]))
                if f:
                    return (f[0], f[1], f[2] + '*' + '.'.join(m for o, m in path if m != '<base>'))
            return None
        k = own[-1]
        return (short(path[k][0]), path[k][1], '.'.join(m for o, m in path[k + 1:] if m != '<base>'))

    def name(self, o):
        l = self.loc(o) if not isinstance(o, Loc) else o
        f = self.field(l)
        if f:
            return '%s.%s%s' % (f[0], f[1], ('/' + f[2]) if f[2] else '')
        return repr(l)


def short(t):
    """class name without namespaces and template arguments"""
    out, d = '', 0
    for c in t:
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0:
            out += c
    return out.rsplit('::', 1)[-1] if not out.endswith('EncodingThreadFunctor') else out.rsplit('::', 1)[-1]


_OPER = re.compile(r'operator(\(\)|\[\]|<=>|->\*|->|<<=|>>=|<<|>>|<=|>=|<(?![A-Za-z_:])|>)')
_sa = {}


def strip_args(dem):
    """qualified function name without the parameter list"""
    r = _sa.get(dem)
    if r is not None:
        return r
    d = p = 0
    last = None
    begin, oper = 0, False
    n, N = 0, len(dem)
    while n < N:
        c = dem[n]
        if c == 'o' and (n == 0 or not (dem[n - 1].isalnum() or dem[n - 1] == '_')) and dem.startswith('operator', n):
            if d == 0 and p == 0:
                oper = True
            m = _OPER.match(dem, n)
            if m:
                n = m.end()
                continue
        if c == ' ' and d == 0 and p == 0 and last is None and not oper:
            begin = n + 1       # return type of a template function
        if c == '<':
            d += 1
        elif c == '>' and dem[n - 1:n] != '-':
            d -= 1
        elif c == '(':
            if d == 0 and p == 0 and not dem.startswith('(anonymous namespace)', n):
                last = n
            p += 1
        elif c == ')':
            p -= 1
        n += 1
    r = dem
    if last is not None:
        r = dem[begin:last]
    _sa[dem] = r
    return r


def targs(t):
    """template arguments of the outermost template of a type name"""
    k = t.find('<')
    if k < 0:
        return []
    out, d, cur = [], 0, ''
    for c in t[k:]:
        if c == '<':
            d += 1
            if d == 1:
                continue
        if c == '>':
            d -= 1
            if d == 0:
                break
        if c == ',' and d == 1:
            out.append(cur.strip())
            cur = ''
            continue
        cur += c
    out.append(cur.strip())
    return out


def ret_type(i):
    """pointee type of the reference or pointer a library accessor returns"""
    q = strip_args(i.cdem)
    k = q.rfind('::')
    if k < 0:
        return None
    cls, m = q[:k], q[k + 2:]
    m = m.split('[abi')[0]
    if cls.startswith('__gnu_cxx::__normal_iterator<') and m in ('operator*', 'operator->'):
        a = targs(cls)[0]
        return norm_type(a[:-1].strip()) if a.endswith('*') else None
    if cls.startswith('std::vector<') and m in ('operator[]', 'front', 'back', 'at', 'data', 'emplace_back'):
        t = norm_type(targs(cls)[0])
        return t
    if re.match(r'^std::_Rb_tree_(const_)?iterator<', cls) and m in ('operator*', 'operator->'):
        return norm_type(targs(cls)[0])
    return None
