"""The command line tools: abstract interpretation of main over abstract tables."""
import re
import time
from vfw import num, build, ir
from vfw.build import AnalysisError

KEEP = [r'^casacore::', r'^std::', r'^__gnu', r'^dyscostman::DyscoStMan::', r'^register_dyscostman', r'^Stopwatch::']
TARGET = 'DyscoStMan'


class Undecided(Exception):
    pass


class Bad(Exception):
    def __init__(self, i, text):
        Exception.__init__(self, text)
        self.i = i


class Dead(Exception):
    """the path ends"""


def program(unit):
    raw = build.dump([build.REPO + '/' + unit], ['--do-inline', '--clone-roots', '--pp=' + num.PIPE, '--root=^main'] + ['--keep=' + x for x in KEEP], 'tool')
    m = ir.Module(raw)
    f = [f for f in m.functions if f.dem == 'main']
    if len(f) != 1:
        raise AnalysisError('main of %s was not found' % unit)
    return m, f[0]


def strip(n):
    """name without template arguments, parameters and return type"""
    n = re.sub(r'\[abi:\w+\]', '', n)
    n = n.replace('operator<<', 'operator_shl').replace('operator>>', 'operator_shr').replace('operator->', 'operator_arrow').replace('operator<=', 'operator_le').replace('operator>=', 'operator_ge').replace('operator<', 'operator_lt').replace('operator>', 'operator_gt').replace('operator()', 'operator_call')
    out, d = '', 0
    for c in n:
        if c == '<':
            d += 1
        if d == 0:
            if c == '(':
                break
            out += c
        if c == '>':
            d -= 1
    out = out.replace('std::__cxx11::', 'std::')
    m = re.match(r'(?:.* )?(operator (?:new|delete)(?:\[\])?)$', out)
    if m:
        return m.group(1)
    return out.split(' ')[-1]


def params(n):
    """the list of parameter types"""
    d, start = 0, None
    n = n.replace('operator()', 'operator_call')
    depth = 0
    for k, c in enumerate(n):
        if c == '<':
            depth += 1
        elif c == '>':
            depth -= 1
        elif c == '(' and depth == 0:
            start = k
            break
    return n[start:] if start is not None else ''


LIT = lambda s: (('lit', s),) if s else ()


def join(a, b):
    """concatenation"""
    if a is None or b is None:
        return None
    if a and b and a[-1][0] == 'lit' and b[0][0] == 'lit':
        return a[:-1] + (('lit', a[-1][1] + b[0][1]),) + b[1:]
    return a + b


def show(p):
    if p is None:
        return '?'
    return ''.join(x[1] if x[0] == 'lit' else '<argument>' for x in p)


class Col:
    __slots__ = ('content', 'mgr', 'typ')

    def __init__(self, content, mgr, typ):
        self.content, self.mgr, self.typ = content, mgr, typ

    def copy(self):
        return Col(self.content, self.mgr, self.typ)


class Tab:
    """columns: name -> key of a column; columns that were not looked at are as they were"""
    __slots__ = ('path', 'cols', 'gone', 'marked', 'open')

    def __init__(self, path):
        self.path, self.cols, self.gone, self.marked, self.open = path, {}, frozenset(), False, True

    def copy(self):
        t = Tab(self.path)
        t.cols, t.gone, t.marked, t.open = dict(self.cols), self.gone, self.marked, self.open
        return t


class State:
    def __init__(self):
        self.ssa, self.mem, self.obj = {}, {}, {}
        self.cons = {}
        self.cols, self.tabs = {}, {}
        self.dysco = None          # the storage manager exists
        self.seq = 0
        self.mode, self.snap, self.iters, self.pend = {}, {}, {}, {}
        self.changed = None        # first change of the columns
        self.disk = {}             # path -> key of a table
        self.added = []
        self.pc = None
        self.trail = ()

    def copy(self):
        s = State.__new__(State)
        s.ssa, s.mem, s.obj, s.cons = dict(self.ssa), dict(self.mem), dict(self.obj), dict(self.cons)
        s.cols = {k: v.copy() for k, v in self.cols.items()}
        s.tabs = {k: v.copy() for k, v in self.tabs.items()}
        s.dysco, s.seq = self.dysco, self.seq
        s.mode, s.snap, s.iters = dict(self.mode), dict(self.snap), dict(self.iters)
        s.pend = {k: list(v) for k, v in self.pend.items()}
        s.changed, s.disk, s.added, s.trail = self.changed, dict(self.disk), list(self.added), self.trail
        s.pc = self.pc
        return s

    def fresh(self):
        return ('u',)

    def key(self, live):
        return hash((tuple((x, self.ssa.get(x)) for x in live), frozenset(self.mem.items()), frozenset(self.obj.items()), frozenset(self.cons.items()),
                     frozenset((k, c.content, c.mgr, c.typ) for k, c in self.cols.items()),
                     frozenset((k, t.path, frozenset(t.cols.items()), t.gone, t.marked, t.open) for k, t in self.tabs.items()),
                     self.dysco, self.seq, frozenset(self.mode.items()), frozenset(self.iters.items()),
                     frozenset((k, tuple(v)) for k, v in self.pend.items()), self.changed is None, frozenset(self.disk.items()), tuple(x for x, _ in self.added)))


STANDARD = {'DATA': 'complex', 'WEIGHT_SPECTRUM': 'float', 'FLAG': 'bool', 'ANTENNA1': 'int', 'ANTENNA2': 'int', 'FIELD_ID': 'int', 'DATA_DESC_ID': 'int', 'TIME': 'double'}
READONLY = re.compile(r'operator_shl$|^Stopwatch|^std::(ostream|basic_ostream|ostringstream|basic_ostringstream)|^llvm\.|^__cxa|^std::numeric_limits|^register_|^std::terminate|^__clang_call_terminate|^__gxx|allocator::|^operator delete|IPosition|runtime_error|^std::complex')
STR = 'std::basic_string'


class Interp:
    def __init__(self, mod, fn, limit=3, few=None, deadline=600):
        self.mod, self.fn, self.limit = mod, fn, limit
        self.few = few
        self.written = {}
        self.loops = self.natural()
        self.live = self.liveness()
        self.seen = set()
        self.bad, self.ends, self.und = {}, [], {}
        self.paths = self.steps = 0
        self.deadline = time.time() + deadline

    def natural(self):
        d = self.fn.dominators()
        loops = {}
        for b, blk in self.fn.blocks.items():
            if b not in d:
                continue
            for s in blk.succ:
                if self.fn.block_dominates(s, b):
                    body, todo = {s, b}, [b]
                    while todo:
                        x = todo.pop()
                        if x == s:
                            continue
                        for p in self.fn.blocks[x].preds:
                            if p not in body and p in d:
                                body.add(p)
                                todo.append(p)
                    loops.setdefault(s, set()).update(body)
        return loops

    def liveness(self):
        fn = self.fn
        use, dfn, phi = {}, {}, {}
        for b, blk in fn.blocks.items():
            u, d = set(), set()
            for i in blk.insts:
                if i.op == 'phi':
                    for o, p in i.raw['in']:
                        if not isinstance(o, dict):
                            phi.setdefault((p, b), set()).add(o)
                    d.add(i.id)
                    continue
                for o in ir.operands(i) if hasattr(ir, 'operands') else list(i.ops) + list(i.args):
                    if not isinstance(o, dict) and o not in d:
                        u.add(o)
                d.add(i.id)
            use[b], dfn[b] = u, d
        live = {b: set(use[b]) for b in fn.blocks}
        ch = True
        while ch:
            ch = False
            for b in sorted(fn.blocks, reverse=True):
                out = set()
                for s in fn.blocks[b].succ:
                    out |= live[s] | phi.get((b, s), set())
                    out -= {i.id for i in fn.blocks[s].insts if i.op == 'phi'} - phi.get((b, s), set())
                n = use[b] | (out - dfn[b])
                if n != live[b]:
                    live[b], ch = n, True
        for b in fn.blocks:
            live[b] = sorted(x for x in live[b] | {i.id for i in fn.blocks[b].insts if i.op == 'phi'} if isinstance(x, int))
        return live

    # ------------------------------------------------------------- values
    def val(self, st, o):
        if isinstance(o, dict):
            k = o['k']
            if k == 'int':
                v = int(o['v'])
                w = int(o.get('t', 'i64')[1:]) if o.get('t', 'i64')[1:].isdigit() else 64
                return v - (1 << w) if v >= 1 << (w - 1) and w > 1 else v
            if k == 'fp':
                return ('fp', str(o['v']))
            if k == 'null':
                return 0
            if k == 'glob':
                return ('ptr', ('glob', o['n']), 0)
            return st.fresh()
        if o in self.fn.argids:
            k = self.fn.argids[o]
            return ('argc',) if k == 0 else ('ptr', 'argv', 0) if k == 1 else st.fresh()
        return st.ssa.get(o, ('u',))

    def chars(self, st, v):
        """string that starts at a pointer to characters"""
        if isinstance(v, tuple) and v[0] == 'ptr':
            b, off = v[1], v[2]
            if b[0] == 'glob' and isinstance(off, int):
                g = self.mod.globals.get(b[1]) or {}
                if 'str' in g:
                    return LIT(g['str'][off:])
            if b[0] == 'sarg':
                return (('sym', b[1], off),)
            if b[0] == 'chars':
                return b[1] if off == 0 else None
        return None

    def string(self, st, v):
        """content of a string object"""
        if isinstance(v, tuple) and v[0] == 'ptr':
            o = self.object(st, v)
            if o and o[0] == 'str':
                return o[1]
        return None

    def object(self, st, v):
        if not (isinstance(v, tuple) and v[0] == 'ptr'):
            return None
        b, off = v[1], v[2]
        if b[0] == 'elem' and isinstance(off, int) and off % 32 == 0:
            l = st.obj.get(b[1])
            if l and l[0] == 'svec' and 0 <= off // 32 < len(l[1]):
                return ('str', l[1][off // 32])
            return None
        return st.obj.get((b, off))

    def put(self, st, v, o):
        if not (isinstance(v, tuple) and v[0] == 'ptr'):
            raise Undecided('an object at an unknown place')
        b, off = v[1], v[2]
        if b[0] == 'elem' and o[0] == 'str':
            l = st.obj.get(b[1])
            if l and l[0] == 'svec' and isinstance(off, int) and 0 <= off // 32 < len(l[1]):
                x = list(l[1])
                x[off // 32] = o[1]
                st.obj[b[1]] = ('svec', tuple(x))
                return
            raise Undecided('an element of a vector is not known')
        st.obj[(b, off)] = o

    # ------------------------------------------------------------- conditions
    def equal(self, st, a, b):
        """(truth, key) of the equality of two strings: truth is None if it is not known"""
        if a is None or b is None:
            return None, None
        if a == b:
            return True, None
        a, b = self.resolve(st, a), self.resolve(st, b)
        if a == b:
            return True, None
        if all(x[0] == 'lit' for x in a + b):
            return False, None
        for x, y in ((a, b), (b, a)):
            if len(x) == 1 and x[0][0] == 'mgr' and all(z[0] == 'lit' for z in y):
                m = self.manager(st, x[0][1], y)
                return (m, None) if isinstance(m, bool) else (None, m)
        if any(x[0] in ('mgr', 'cut') for x in a + b):
            return None, None
        if len(a) == 1 and a[0][0] == 'sym' and all(x[0] == 'lit' for x in b):
            lit = show(b)
            if lit in st.cons.get(('ne', a[0]), ()):
                return False, None
            return None, ('streq', a[0], lit)
        if len(b) == 1 and b[0][0] == 'sym' and all(x[0] == 'lit' for x in a):
            return self.equal(st, b, a)
        # different symbolic names are taken to be different
        if len(a) > 1 and len(b) > 1 and a[0] == b[0]:
            return self.equal(st, a[1:], b[1:])
        return False, None

    def resolve(self, st, a):
        out = ()
        for x in a:
            out = join(out, LIT(st.cons[('is', x)]) if x[0] == 'sym' and ('is', x) in st.cons else (x,))
        return out

    def learn(self, st, key, truth):
        if key is None:
            return
        if key[0] == 'streq':
            if truth:
                st.cons[('is', key[1])] = key[2]
            else:
                st.cons[('ne', key[1])] = st.cons.get(('ne', key[1]), frozenset()) | {key[2]}
        else:
            st.cons[key] = truth

    def truth(self, st, c):
        """(value or None, key)"""
        if c is True or c is False:
            return c, None
        if isinstance(c, int):
            return bool(c & 1), None
        if isinstance(c, tuple):
            if c[0] == 'not':
                t, k = self.truth(st, c[1])
                return (None if t is None else not t), (('not', k) if k else None)
            if c[0] == 'streq':
                return (None, c) if c[2] not in st.cons.get(('ne', c[1]), ()) and ('is', c[1]) not in st.cons else (st.cons.get(('is', c[1])) == c[2], None)
            if c[0] in ('or', 'and'):
                a, b = self.truth(st, c[1])[0], self.truth(st, c[2])[0]
                z = c[0] == 'or'
                if a is z or b is z:
                    return z, None
                if a is not None and b is not None:
                    return not z, None
                return None, None
            if c in st.cons:
                return st.cons[c], None
            if c[0] in ('icmp', 'isdysco'):
                return None, c
        return None, None

    def choose(self, st, c, truth):
        """the condition has the given value; False if this is not considered"""
        n = truth
        while isinstance(c, tuple) and c[0] == 'not':
            c, n = c[1], not n
        if isinstance(c, tuple) and c[0] in ('streq', 'icmp', 'isdysco'):
            if c[0] == 'streq' and n and c[1][2] == 0 and any(k[0] == 'is' and k[1][2] == 0 and v == c[2] for k, v in st.cons.items() if isinstance(k, tuple) and isinstance(k[1], tuple) and len(k[1]) == 3):
                return False      # a column is named twice
            if c[0] == 'streq' and n and self.few and c[1][2] and c[1][1] > self.few and c[2] not in ('column', 'reorder'):
                return False      # late options are only those that change what is done with the columns
            self.learn(st, c, n)
            if c[0] == 'isdysco':
                for k in (st.cols, ):
                    if c[1] in k:
                        k[c[1]].mgr = TARGET if n else 'other'
        return True

    # ------------------------------------------------------------- tables
    def tabkey(self, st, v):
        o = self.object(st, v)
        if o and o[0] == 'tab':
            return o[1]
        raise Undecided('a table is not known')

    def column(self, st, t, name, i, typ=None):
        """key of the column"""
        if name is None:
            raise Undecided('the name of a column is not known')
        name = self.resolve(st, name)
        T = st.tabs[t]
        if name in T.cols:
            k = T.cols[name]
        elif name in T.gone:
            raise Bad(i, 'column %s is used after it was renamed or removed' % show(name))
        else:
            if name[0] == ('lit', 'TEMP_') or name[0][0] == 'lit' and name[0][1].startswith('TEMP_'):
                raise Bad(i, 'column %s is used but does not exist' % show(name))
            k = ('col', t, name)
            T.cols[name] = k
            st.cols[k] = Col(('orig', name), None, None)
        c = st.cols[k]
        if typ:
            base = show(c.content[1]) if c.content[0] == 'orig' else show(name)
            want = STANDARD.get(base, 'complex' if '<' in base else typ)
            if want != typ:
                raise Bad(i, 'column %s is accessed with type %s' % (base, typ))
            if c.typ is None:
                c.typ = typ
            elif c.typ != typ:
                raise Bad(i, 'column %s of type %s is used with type %s' % (show(name), c.typ, typ))
        return k

    def touch(self, st, i):
        if st.changed is None:
            st.changed = i

    def rename(self, st, i, t, new, old):
        T = st.tabs[t]
        k = self.column(st, t, old, i)
        new, old = self.resolve(st, new), self.resolve(st, old)
        if new in T.cols:
            raise Bad(i, 'a column is renamed to %s, which exists' % show(new))
        del T.cols[old]
        T.gone |= {old}
        T.gone -= {new}
        T.cols[new] = k
        self.touch(st, i)

    def add(self, st, i, t, desc, mgr):
        if desc is None or desc[0] != 'desc':
            raise Undecided('the description of a column is not known')
        T = st.tabs[t]
        name = self.resolve(st, desc[1])
        if name in T.cols or name not in T.gone:
            raise Bad(i, 'column %s is added although it exists' % show(name))
        st.seq += 1
        k = ('new', st.seq, name)
        T.cols[name] = k
        T.gone -= {name}
        m = mgr if isinstance(mgr, str) else TARGET if mgr else None
        st.cols[k] = Col(('empty',), m or desc[3] or 'other', desc[2])
        self.touch(st, i)

    def remove(self, st, i, t, name):
        T = st.tabs[t]
        k = self.column(st, t, name, i)
        name = self.resolve(st, name)
        c = st.cols[k].content
        if c[0] == 'orig':
            n = T.cols.get(c[1])
            if n is None or n == k:
                raise Bad(i, 'the values of column %s are removed without a replacement' % show(c[1]))
            if st.cols[n].content != ('copy', c[1]):
                raise Bad(i, 'the values of column %s are removed before all of them were copied (the replacement is %s)' % (show(c[1]), self.tell(st.cols[n].content)))
        del T.cols[name]
        T.gone |= {name}
        self.touch(st, i)

    def tell(self, c):
        if c[0] == 'empty':
            return 'empty'
        if c[0] == 'copy':
            return 'a copy of %s' % show(c[1])
        if c[0] == 'orig':
            return 'the original %s' % show(c[1])
        return 'a partial copy' if c[0] == 'partial' else 'something else'

    # ------------------------------------------------------------- rows
    def getrow(self, st, i, col, row, arr):
        o = self.object(st, col)
        if not o or o[0] != 'colh':
            raise Undecided('a column is not known')
        self.put(st, arr, ('arr', ('cell', st.cols[o[1]].content, row)))

    def putrow(self, st, i, col, row, arr):
        o = self.object(st, col)
        if not o or o[0] != 'colh':
            raise Undecided('a column is not known')
        a = self.object(st, arr)
        a = a[1] if a and a[0] == 'arr' else None
        c = st.cols[o[1]]
        if row == ('u',) or a and len(a) > 2 and a[2] == ('u',):
            raise Undecided('the row of a value is not known')
        if a and a[0] in ('cell', 'mod') and a[1] == c.content and a[2] == row:
            return
        if a and a[0] == 'cell' and a[2] == row and isinstance(row, tuple) and (row[0] == 'k' and row[2] == 0 or row[0] == 'kr' and row[2] == -1 or row[0] == 'ks'):
            src = a[1]
            # a cell that was already replaced in this iteration counts with its last value
            l = [x for x in st.pend.get(row[1], []) if x[0] != o[1]]
            st.pend[row[1]] = l + [(o[1], ('mixed',) if src[0] != 'orig' else ('partial',) if row[0] == 'ks' else ('copy', src[1]))]
            return
        if c.content[0] == 'orig':
            raise Bad(i, 'values of column %s are overwritten by those of another column or row' % show(c.content[1]))
        c.content = ('mixed',)
        for h in st.pend:
            st.pend[h] = [x for x in st.pend[h] if x[0] != o[1]]

    def finish(self, st, h, full):
        for k, c in st.pend.pop(h, []):
            if k in st.cols:
                old = st.cols[k].content
                st.cols[k].content = c if full and old in (('empty',), c) else ('partial',) if old == ('empty',) else ('mixed',)

    # ------------------------------------------------------------- calls
    def call(self, st, i):
        """returns 'end' if the call does not return, or a list of states on the unwind edge"""
        d = i.cdem or i.callee or ''
        n = strip(d)
        A = [self.val(st, a) for a in i.args]
        res = None
        f = n.split('::')[-1]
        if n.startswith('llvm.lifetime'):
            p = [a for a in A if self.islocal(a)]
            if p and n.startswith('llvm.lifetime.end'):
                for m in (st.mem, st.obj):
                    for k in [k for k in m if k[0] == p[0][1]]:
                        del m[k]
            return
        if n.startswith('llvm.') and not n.startswith(('llvm.mem', 'llvm.eh')):
            st.ssa[i.id] = st.fresh()
            return
        if n.startswith(('llvm.memcpy', 'llvm.memmove')):
            self.copymem(st, A[0], A[1], A[2])
            return
        if n.startswith('llvm.eh.typeid'):
            st.ssa[i.id] = ('typeid',)
            return
        if n == '__cxa_throw':
            if st.changed is not None:
                raise Bad(i, 'the program refuses after columns were changed at %s' % st.changed.where)
            return 'end'
        if n in ('__cxa_begin_catch', '__cxa_end_catch', '__cxa_allocate_exception', '__cxa_free_exception'):
            st.ssa[i.id] = st.fresh()
            return
        if n in ('__cxa_rethrow', 'std::terminate', '__clang_call_terminate', 'exit', 'abort', '_Exit', 'std::exit'):
            return 'end'
        if n in ('operator new', 'operator new[]'):
            st.seq += 1
            st.ssa[i.id] = ('ptr', ('heap', i.id, st.seq), 0)
            return
        r = self.strings(st, i, n, f, d, A)
        if r is None:
            r = self.pointers(st, i, n, f, d, A)
        if r is None:
            r = self.casacore(st, i, n, f, d, A)
        if r is not None:
            if r is not True:
                st.ssa[i.id] = r
            return
        st.ssa[i.id] = st.fresh()
        if READONLY.search(n) or '::~' in n or f.startswith('~'):
            return
        self.unknown(st, i, n, A, d)

    def unknown(self, st, i, n, A, d):
        const = d.rstrip().endswith('const')
        for k, a in enumerate(A):
            o = self.object(st, a)
            if o is None or const and k == 0:
                continue
            if o[0] == 'arr':
                if o[1] and o[1][0] == 'cell':
                    self.put(st, a, ('arr', ('mod',) + o[1][1:]))
                continue
            if o[0] in ('tab', 'colh', 'svec', 'dm', 'desc', 'uptr'):
                raise Undecided('the call of %s is not understood' % n)
            if o[0] == 'str' and 'const' not in params(d):
                self.put(st, a, ('str', None))

    def copymem(self, st, dst, src, n):
        if not all(isinstance(x, tuple) and x[0] == 'ptr' and isinstance(x[2], int) for x in (dst, src)) or not isinstance(n, int):
            return
        for m in (st.mem, st.obj):
            for (b, off), v in list(m.items()):
                if b == src[1] and isinstance(off, int) and src[2] <= off < src[2] + n:
                    m[(dst[1], dst[2] + off - src[2])] = v

    def strings(self, st, i, n, f, d, A):
        isvec = n.startswith('std::vector')
        if n.startswith(STR) or n.startswith('casacore::String'):
            P = params(d)
            if f in ('basic_string', 'String'):
                if f == 'String' and P.startswith('(std::') and len(A) == 4:
                    # substring of a string: the whole string
                    s = self.string(st, A[1]) if A[2] == 0 and isinstance(A[3], int) and A[3] in (-1, (1 << 64) - 1) else None
                    self.put(st, A[0], ('str', s))
                    return True
                if len(A) == 1 or len(A) == 2 and P.startswith('(std::allocator'):
                    s = ()
                elif P.startswith('(char const*'):
                    s = self.chars(st, A[1])
                elif re.match(r'\((std::__cxx11::basic_string|casacore::String)', P):
                    s = self.string(st, A[1])
                    if len(A) > 2 and isinstance(A[2], int):
                        s = self.sub(s, A[2]) if len(A) == 3 or A[3] in (-1, (1 << 64) - 1) else None
                else:
                    s = None
                self.put(st, A[0], ('str', s))
                return True
            if f.startswith('~'):
                if self.islocal(A[0]):
                    st.obj.pop((A[0][1], A[0][2]), None)
                return True
            if f in ('operator=', 'assign') and len(A) == 2:
                self.put(st, A[0], ('str', self.chars(st, A[1]) if P.startswith('(char const*') else self.string(st, A[1])))
                return A[0]
            if f in ('operator+=', 'append', 'push_back') and len(A) == 2:
                s = self.chars(st, A[1]) if P.startswith('(char const*') else LIT(chr(A[1])) if P.startswith('(char)') and isinstance(A[1], int) else self.string(st, A[1])
                self.put(st, A[0], ('str', join(self.string(st, A[0]), s)))
                return A[0]
            if f in ('resize', 'pop_back', 'erase'):
                s = self.string(st, A[0])
                self.put(st, A[0], ('str', (('cut',) + s,) if s else None))
                return True
            if f in ('c_str', 'data'):
                s = self.string(st, A[0])
                return ('ptr', ('chars', s), 0) if s is not None else st.fresh()
            if f == 'substr' and len(A) == 4:
                s = self.string(st, A[1])
                self.put(st, A[0], ('str', self.sub(s, A[2]) if isinstance(A[2], int) and A[3] in (-1, (1 << 64) - 1) else None))
                return True
            if f in ('size', 'length', 'empty', 'rbegin', 'rend', 'begin', 'end', 'cbegin', 'cend', 'crbegin', 'back', 'front', 'operator[]', 'at', 'find', 'capacity', 'reserve', 'compare'):
                if f == 'compare' and len(A) == 2:
                    t, k = self.equal(st, self.string(st, A[0]), self.chars(st, A[1]) if P.startswith('(char const*') else self.string(st, A[1]))
                    return ('cmp0', t if t is not None else k) if t is not None or k else st.fresh()
                if f == 'empty':
                    s = self.string(st, A[0])
                    if s is not None and all(x[0] == 'lit' for x in s):
                        return int(not s)
                return st.fresh()
            return None
        if n == 'std::operator+':
            P = params(d)
            dst, x, y = A[0], A[1], A[2]
            g = lambda v: self.string(st, v) if self.string(st, v) is not None else self.chars(st, v)
            self.put(st, dst, ('str', join(g(x), g(y))))
            return True
        if n in ('std::operator==', 'std::operator!=') and len(A) == 2 and 'basic_string' in params(d):
            g = lambda v: self.string(st, v) if self.string(st, v) is not None else self.chars(st, v)
            t, k = self.equal(st, g(A[0]), g(A[1]))
            c = t if t is not None else k
            c = c if c is not None else st.fresh()
            c = c if n.endswith('==') else (not c if isinstance(c, bool) else ('not', c))
            return int(c) if isinstance(c, bool) else c
        if n in ('strcmp', 'std::strcmp') and len(A) == 2:
            t, k = self.equal(st, self.chars(st, A[0]), self.chars(st, A[1]))
            return ('cmp0', t if t is not None else k) if t is not None or k else st.fresh()
        if isvec and 'basic_string' in d.split('(')[0] and 'pair' not in d.split('(')[0]:
            key = (A[0][1], A[0][2]) if isinstance(A[0], tuple) and A[0][0] == 'ptr' else None
            if key is None:
                raise Undecided('a vector is not known')
            l = st.obj.get(key)
            if f == 'vector' and len(A) == 1:
                st.obj[key] = ('svec', ())
                return True
            if f == 'vector' and len(A) == 2 and self.object(st, A[1]) and self.object(st, A[1])[0] == 'svec':
                st.obj[key] = self.object(st, A[1])
                return True
            if f.startswith('~'):
                return True
            if l is None or l[0] != 'svec':
                raise Undecided('a vector is not known')
            if f in ('push_back', 'emplace_back'):
                s = self.string(st, A[1])
                s = s if s is not None else self.chars(st, A[1])
                st.obj[key] = ('svec', l[1] + (s,))
                return st.fresh()
            if f in ('begin', 'cbegin'):
                return ('ptr', ('elem', key), 0)
            if f in ('end', 'cend'):
                return ('ptr', ('elem', key), 32 * len(l[1]))
            if f == 'empty':
                return int(not l[1])
            if f == 'size':
                return len(l[1])
            if f in ('operator[]', 'at') and isinstance(A[1], int):
                return ('ptr', ('elem', key), 32 * A[1])
            if f in ('front', 'back') and l[1]:
                return ('ptr', ('elem', key), 0 if f == 'front' else 32 * (len(l[1]) - 1))
            if f == 'reserve':
                return True
            if f == 'clear':
                st.obj[key] = ('svec', ())
                return True
            raise Undecided('the call of %s is not understood' % n)
        if '__normal_iterator' in n or n in ('__gnu_cxx::operator==', '__gnu_cxx::operator!=') :
            if 'reverse' in d:
                return st.fresh()
            ld = lambda v: st.mem.get((v[1], v[2])) if isinstance(v, tuple) and v[0] == 'ptr' else None
            if n.endswith('::__normal_iterator'):
                v = self.load(st, A[1], 8) if isinstance(A[1], tuple) else None
                st.mem[(A[0][1], A[0][2])] = v if v is not None else st.fresh()
                return True
            if f in ('operator==', 'operator!='):
                a, b = ld(A[0]), ld(A[1])
                c = self.compare(st, 'eq', a, b)
                c = c if f == 'operator==' else (not c if isinstance(c, bool) else ('not', c))
                return int(c) if isinstance(c, bool) else c
            if f in ('operator*', 'operator_arrow', 'base'):
                v = ld(A[0])
                return (A[0] if f == 'base' else v) if v is not None else st.fresh()
            if f == 'operator++':
                v = ld(A[0])
                if isinstance(v, tuple) and v[0] == 'ptr' and v[1][0] == 'elem':
                    st.mem[(A[0][1], A[0][2])] = ('ptr', v[1], v[2] + 32)
                elif isinstance(A[0], tuple) and A[0][0] == 'ptr':
                    st.mem[(A[0][1], A[0][2])] = st.fresh()
                return A[0] if len(A) == 1 else v if v is not None else st.fresh()
            return st.fresh()
        if 'strtol' in n or n in ('atoi', 'atol', 'strtoul', 'std::atoi') or 'strtoul' in n:
            s = self.chars(st, A[0])
            return ('atoi', s) if s else st.fresh()
        if 'strtod' in n or n in ('atof', 'strtof', 'std::atof'):
            s = self.chars(st, A[0])
            return ('atof', s) if s else st.fresh()
        if n in ('std::stoi', 'std::stoul', 'std::stol', 'std::stod'):
            s = self.string(st, A[0])
            return ('atof' if n.endswith('d') else 'atoi', s) if s else st.fresh()
        return None

    def sub(self, s, k):
        if s is None:
            return None
        if k == 0:
            return s
        if s and s[0][0] == 'lit' and len(s[0][1]) >= k:
            return LIT(s[0][1][k:]) + s[1:]
        if len(s) == 1 and s[0][0] == 'sym':
            return (('sym', s[0][1], s[0][2] + k),)
        return None

    def pointers(self, st, i, n, f, d, A):
        if not n.startswith('std::unique_ptr') and not n.startswith('std::make_unique') and n != 'std::swap':
            return None
        if n.startswith('std::make_unique'):
            raise Undecided('make_unique')
        if not (isinstance(A[0], tuple) and A[0][0] == 'ptr'):
            raise Undecided('a pointer is not known')
        key = (A[0][1], A[0][2])
        if f == 'unique_ptr':
            if len(A) == 1:
                st.mem[key] = 0
            elif '&&' in params(d) and self.islocal(A[1]) and (A[1][1], A[1][2]) in st.mem:
                st.mem[key] = st.mem[(A[1][1], A[1][2])]
                st.mem[(A[1][1], A[1][2])] = 0
            else:
                st.mem[key] = A[1]
            return True
        if f in ('operator*', 'operator_arrow', 'get'):
            return st.mem.get(key, st.fresh())
        if f == 'operator bool':
            v = st.mem.get(key)
            return st.fresh() if v is None else int(v != 0)
        if f == 'release':
            v = st.mem.get(key, st.fresh())
            st.mem[key] = 0
            return v
        if f in ('reset', 'operator=', '~unique_ptr'):
            old = st.mem.get(key)
            o = self.object(st, old)
            if o and o[0] == 'tab':
                st.tabs[o[1]].open = False
            if f == 'reset':
                st.mem[key] = A[1] if len(A) > 1 else 0
            elif f == 'operator=':
                st.mem[key] = st.mem.get((A[1][1], A[1][2]), st.fresh()) if isinstance(A[1], tuple) and A[1][0] == 'ptr' else 0
                if isinstance(A[1], tuple) and A[1][0] == 'ptr':
                    st.mem[(A[1][1], A[1][2])] = 0
                return A[0]
            return True
        return None

    def islocal(self, v):
        return isinstance(v, tuple) and v[0] == 'ptr'

    TYPES = (('std::complex<float>', 'complex'), ('bool', 'bool'), ('float', 'float'), ('int', 'int'), ('double', 'double'))

    def typ(self, d):
        m = re.search(r'(?:ArrayColumn|ScalarColumn|ArrayColumnDesc)<(std::complex<float>|[a-z ]+)>', d)
        return dict(self.TYPES).get(m.group(1), m.group(1)) if m else None

    def manager(self, st, k, name):
        """condition: the manager of the column is the named one"""
        m = st.cols[k].mgr
        name = self.resolve(st, name)
        if any(x[0] != 'lit' for x in name):
            return st.fresh()
        if show(name) != TARGET:
            raise Undecided('another storage manager')
        if m is not None:
            return m == TARGET
        return ('isdysco', k)

    def casacore(self, st, i, n, f, d, A):
        if n == 'casacore::Table::Table' and len(A) >= 2:
            name = self.string(st, A[1])
            if name is None:
                raise Undecided('the name of a table is not known')
            name = self.resolve(st, name)
            st.seq += 1
            t = ('t', st.seq)
            st.obj.setdefault((('first',), 0), ('path', name))
            src = st.disk.get(name)
            if src is not None:
                T = st.tabs[src].copy()
                T.path, T.marked, T.open = name, False, True
                st.tabs[t] = T
            else:
                st.tabs[t] = Tab(name)
            st.disk[name] = t
            self.put(st, A[0], ('tab', t))
            return True
        if n == 'casacore::Table::~Table':
            o = self.object(st, A[0])
            if o and o[0] == 'tab':
                st.tabs[o[1]].open = False
            return True
        if n in ('casacore::ArrayColumn::ArrayColumn', 'casacore::ScalarColumn::ScalarColumn'):
            if len(A) >= 3:
                t = self.tabkey(st, A[1])
                self.put(st, A[0], ('colh', self.column(st, t, self.string(st, A[2]), i, self.typ(d))))
            elif len(A) == 2 and self.object(st, A[1]):
                self.put(st, A[0], self.object(st, A[1]))
            return True
        if re.match(r'casacore::(ArrayColumn|ScalarColumn|TableColumn)::', n):
            o = self.object(st, A[0])
            if f in ('columnDesc',):
                return ('ptr', ('cdesc', o[1]), 0) if o and o[0] == 'colh' else st.fresh()
            if f in ('get', 'baseGet') and len(A) >= 3:
                self.getrow(st, i, A[0], A[1], A[2])
                return True
            if f == 'put' and len(A) == 3:
                self.putrow(st, i, A[0], A[1], A[2])
                return True
            if f == 'put' and len(A) == 4:
                raise Undecided('a cell is copied by the column')
            if f in ('operator_call', 'get') and len(A) == 3 and isinstance(self.object(st, A[1]), tuple) and self.object(st, A[1])[0] == 'colh':
                self.getrow(st, i, A[1], A[2], A[0])
                return True
            if f == 'attach':
                t = self.tabkey(st, A[1])
                self.put(st, A[0], ('colh', self.column(st, t, self.string(st, A[2]), i, self.typ(d))))
                return True
            if f == 'shape' or f == 'shapeColumn':
                src = [self.object(st, a) for a in A]
                src = [x for x in src if x and x[0] == 'colh']
                if src and isinstance(A[0], tuple) and A[0][0] == 'ptr' and src[0] is not self.object(st, A[0]):
                    self.put(st, A[0], ('shape', st.cols[src[0][1]].content))
                return st.fresh()
            if f in ('operator_call', 'isDefined', 'hasContent', 'ndim', 'nrow') or f.startswith('~'):
                if f == 'nrow':
                    return ('nrow',)
                return st.fresh()
            if f == 'putColumn' and len(A) == 2 and self.object(st, A[1]) and self.object(st, A[1])[0] == 'colh' and o and o[0] == 'colh':
                src, c = st.cols[self.object(st, A[1])[1]].content, st.cols[o[1]]
                if c.content[0] == 'orig' and c.content != src:
                    raise Bad(i, 'values of column %s are overwritten by those of another column or row' % show(c.content[1]))
                c.content = ('copy', src[1]) if src[0] == 'orig' else ('mixed',)
                return True
            if f in ('putColumn', 'getColumn', 'putColumnRange', 'fillColumn'):
                raise Undecided('whole columns are copied')
            if o and o[0] == 'colh' and not d.rstrip().endswith('const'):
                raise Undecided('the call of %s is not understood' % n)
            return st.fresh()
        if n == 'casacore::ColumnDesc::dataManagerType' or n == 'casacore::ColumnDesc::dataManagerGroup':
            a = [x for x in A if isinstance(x, tuple) and x[0] == 'ptr' and x[1][0] == 'cdesc']
            if not a:
                return st.fresh()
            k = a[0][1][1]
            if f == 'dataManagerType':
                if len(A) > 1 and A[0] is not a[0]:
                    self.put(st, A[0], ('str', (('mgr', k),)))
                    return True
                st.obj[(('mgrname', k), 0)] = ('str', (('mgr', k),))
                return ('ptr', ('mgrname', k), 0)
            return st.fresh()
        if n == 'casacore::ArrayColumnDesc::ArrayColumnDesc':
            if len(A) == 2:
                o = self.object(st, A[1])
                self.put(st, A[0], o if o else ('other',))
                return True
            name = self.string(st, A[1])
            mgr, shape = None, None
            if len(A) >= 5 and self.string(st, A[3]) is not None and 'String' in params(d):
                m = self.string(st, A[3])
                mgr = TARGET if show(m) == TARGET else None if not m else 'other'
            for a in A[2:]:
                o = self.object(st, a)
                if o and o[0] == 'shape':
                    shape = o[1]
            self.put(st, A[0], ('desc', name, self.typ(d), mgr, shape))
            return True
        if n == 'casacore::ColumnDesc::ColumnDesc':
            o = self.object(st, A[1])
            self.put(st, A[0], o if o else ('other',))
            return True
        if n in ('casacore::BaseColumnDesc::setOptions', 'casacore::ColumnDesc::setOptions'):
            return True
        if n == 'casacore::IPosition::IPosition' or n == 'casacore::IPosition::operator=':
            if len(A) == 2 and self.object(st, A[1]) and isinstance(A[0], tuple):
                self.put(st, A[0], self.object(st, A[1]))
            elif isinstance(A[0], tuple) and A[0][0] == 'ptr':
                self.put(st, A[0], ('other',))
            return A[0] if f == 'operator=' else True
        if n == 'casacore::Array::Array':
            self.put(st, A[0], ('arr', None))
            return True
        if n in ('casacore::Array::~Array',):
            return True
        if n.startswith('casacore::Array::'):
            o = self.object(st, A[0])
            if o and o[0] == 'arr' and o[1] and o[1][0] == 'cell' and not d.rstrip().endswith('const'):
                self.put(st, A[0], ('arr', ('mod',) + o[1][1:]))
            return st.fresh()
        if n.startswith('casacore::Table::'):
            t = self.tabkey(st, A[0]) if f not in ('addColumn',) or True else None
            if not st.tabs[t].open:
                raise Bad(i, 'a closed table is used')
            if f in ('nrow', 'rownr'):
                return ('nrow',)
            if f == 'renameColumn':
                self.rename(st, i, t, self.name(st, A[1]), self.name(st, A[2]))
                return True
            if f == 'removeColumn':
                self.remove(st, i, t, self.name(st, A[1]))
                return True
            if f == 'addColumn':
                P = params(d)
                desc = self.object(st, A[1])
                if 'DataManager' in P:
                    dm = self.object(st, A[2])
                    if not dm or dm[0] != 'dm':
                        raise Undecided('the storage manager is not known')
                    self.add(st, i, t, desc, TARGET)
                    st.added.append((dm, i))
                    st.dysco = True
                elif P.count('String'):
                    m = self.string(st, A[2])
                    if m is None:
                        raise Undecided('the storage manager is not known')
                    if st.dysco is not True and show(m) == TARGET:
                        raise Bad(i, 'a column is added to a storage manager that may not exist')
                    self.add(st, i, t, desc, TARGET if show(m) == TARGET else 'other')
                else:
                    self.add(st, i, t, desc, None)
                return True
            if f == 'findDataManager':
                m = self.string(st, A[1])
                if m is None or show(m) != TARGET or len(A) > 2 and A[2] not in (0, False):
                    raise Undecided('a storage manager is looked up')
                return ('find',)
            if f == 'deepCopy':
                name = self.name(st, A[1])
                st.seq += 1
                k = ('t', st.seq)
                T = st.tabs[t].copy()
                T.path, T.marked, T.open = name, False, False
                st.tabs[k] = T
                st.disk[self.resolve(st, name)] = k
                st.obj[(('copyof', k), 0)] = ('of', t)
                T.gone = T.gone | {('complete',)}
                return True
            if f == 'markForDelete':
                name = self.resolve(st, st.tabs[t].path)
                snap = [k for p, k in st.disk.items() if k != t and st.obj.get((('copyof', k), 0)) == ('of', t)]
                if not snap:
                    raise Bad(i, 'the table is marked for deletion without a copy')
                if all({x: y for x, y in st.tabs[k].cols.items()} != st.tabs[t].cols for k in snap):
                    raise Bad(i, 'the table is marked for deletion although its copy is not up to date')
                st.tabs[t].marked = True
                return True
            if f == 'rename':
                new = self.resolve(st, self.name(st, A[1]))
                k = st.disk.get(new)
                if k is not None and k != t and not (st.tabs[k].marked and not st.tabs[k].open):
                    raise Bad(i, 'a table is renamed to a table that still exists')
                for p, k in list(st.disk.items()):
                    if k == t:
                        del st.disk[p]
                st.disk[new] = t
                st.tabs[t].path = new
                return True
            if f in ('flush', 'tableDesc', 'lock', 'unlock', 'isWritable', 'reopenRW', 'keywordSet', 'tableName', 'isNull', 'actualTableDesc', 'columnNames', 'dataManagerInfo', 'resync'):
                return st.fresh()
            raise Undecided('the call of %s is not understood' % n)
        if n == 'dyscostman::DyscoStMan::DyscoStMan':
            self.put(st, A[0], ('dm', (('bits', A[1], A[2]),)))
            return True
        if n.startswith('dyscostman::DyscoStMan::'):
            o = self.object(st, A[0])
            if f.startswith('~'):
                return True
            if o and o[0] == 'dm':
                self.put(st, A[0], ('dm', o[1] + ((f,) + tuple(A[1:]),)))
                return True
        return None

    def name(self, st, v):
        s = self.string(st, v)
        if s is None:
            s = self.chars(st, v)
        if s is None:
            raise Undecided('a name is not known')
        return s

    # ------------------------------------------------------------- instructions
    def load(self, st, a, size):
        if not (isinstance(a, tuple) and a[0] == 'ptr'):
            return st.fresh()
        b, off = a[1], a[2]
        if b == 'argv':
            return ('ptr', ('sarg', off // 8), 0) if isinstance(off, int) and off % 8 == 0 else st.fresh()
        if b[0] == 'sarg':
            return ('char', b[1], off)
        if (b, off) in st.mem:
            return st.mem[(b, off)]
        l = st.obj.get((b, off))
        if l and l[0] == 'svec':
            return ('ptr', ('elem', (b, off)), 0)
        if isinstance(off, int):
            l = st.obj.get((b, off - 8))
            if l and l[0] == 'svec':
                return ('ptr', ('elem', (b, off - 8)), 32 * len(l[1]))
        v = st.fresh()
        return v

    def compare(self, st, pred, a, b):
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if isinstance(a, int) and isinstance(b, int):
            M = (1 << 64) - 1
            x, y = (a & M, b & M) if pred[0] == 'u' else (a, b)
            return {'eq': a == b, 'ne': a != b, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pred[-2:]]
        if isinstance(a, tuple) and a[0] == 'ptr' and isinstance(b, tuple) and b[0] == 'ptr' and a[1] == b[1] and isinstance(a[2], int) and isinstance(b[2], int):
            return self.compare(st, pred, a[2], b[2])
        if pred in ('eq', 'ne') and isinstance(a, tuple) and a[0] == 'ptr' and b == 0:
            return pred == 'ne'
        if isinstance(a, tuple) and a[0] == 'cmp0' and b == 0:
            c = a[1]
            return c if pred == 'eq' else ('not', c) if not isinstance(c, bool) else not c
        if isinstance(a, tuple) and a[0] in ('streq', 'isdysco', 'not', 'icmp') and isinstance(b, int) and pred in ('eq', 'ne'):
            return a if (b & 1) == (pred == 'eq') else ('not', a)
        if isinstance(a, tuple) and a[0] == 'typeid' or isinstance(b, tuple) and b[0] == 'typeid':
            return pred == 'eq'
        if ('nrow',) in (a, b) and (a == 0 or b == 0):
            # tables without rows are not considered
            return {'eq': False, 'ne': True}.get(pred, True)
        if a is None or b is None or isinstance(a, tuple) and a[0] == 'u' or isinstance(b, tuple) and b[0] == 'u':
            return st.fresh()
        if pred == 'ne':
            return ('not', ('icmp', 'eq', a, b))
        neg = {'ge': 'lt', 'le': 'gt'}
        if pred[-2:] in neg:
            return ('not', ('icmp', pred[:-2] + neg[pred[-2:]], a, b))
        return ('icmp', pred, a, b)

    def simple(self, st, i):
        op = i.op
        if op == 'alloca':
            st.ssa[i.id] = ('ptr', ('al', i.id), 0)
        elif op == 'load':
            st.ssa[i.id] = self.load(st, self.val(st, i.ops[0]), i.get('size'))
        elif op == 'store':
            a = self.val(st, i.ops[1])
            if isinstance(a, tuple) and a[0] == 'ptr':
                st.mem[(a[1], a[2])] = self.val(st, i.ops[0])
        elif op == 'getelementptr':
            p = self.val(st, i.ops[0])
            if isinstance(p, tuple) and p[0] == 'ptr' and isinstance(p[2], int):
                off = p[2] + (i.get('off') or 0)
                for v in i.get('var') or []:
                    x = self.val(st, v[0])
                    off = off + x * int(v[1]) if isinstance(x, int) and isinstance(off, int) else None
                    if off is None:
                        break
                st.ssa[i.id] = ('ptr', p[1], off) if off is not None else st.fresh()
            else:
                st.ssa[i.id] = st.fresh()
        elif op in ('zext', 'sext', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'trunc'):
            v = self.val(st, i.ops[0])
            if isinstance(v, bool):
                v = int(v)
            st.ssa[i.id] = v & 1 if op == 'trunc' and i.t == 'i1' and isinstance(v, int) else v
        elif op in ('sitofp', 'uitofp', 'fptosi', 'fptoui') and isinstance(self.val(st, i.ops[0]), tuple) and self.val(st, i.ops[0])[0] in ('atoi', 'atof'):
            v = self.val(st, i.ops[0])
            st.ssa[i.id] = ('whole', v) if v[0] == ('atof' if op.startswith('fp') else 'atoi') else v
        elif op == 'icmp':
            st.ssa[i.id] = self.compare(st, i.raw['pred'], self.val(st, i.ops[0]), self.val(st, i.ops[1]))
        elif op == 'select':
            t, _ = self.truth(st, self.val(st, i.ops[0]))
            a, b = self.val(st, i.ops[1]), self.val(st, i.ops[2])
            if isinstance(a, bool):
                a = int(a)
            if isinstance(b, bool):
                b = int(b)
            c = self.val(st, i.ops[0])
            st.ssa[i.id] = a if t or a == b else b if t is False else ('or', c, b) if i.t == 'i1' and a in (1, -1) else ('and', c, a) if i.t == 'i1' and b == 0 else st.fresh()
        elif op in ('add', 'sub', 'mul', 'xor', 'and', 'or'):
            a, b = self.val(st, i.ops[0]), self.val(st, i.ops[1])
            if isinstance(a, bool):
                a = int(a)
            if isinstance(b, bool):
                b = int(b)
            r = None
            if isinstance(a, int) and isinstance(b, int):
                r = {'add': a + b, 'sub': a - b, 'mul': a * b, 'xor': a ^ b, 'and': a & b, 'or': a | b}[op]
                if i.t == 'i1':
                    r &= 1
            elif op == 'xor' and i.t == 'i1' and isinstance(b, int):
                r = a if not b & 1 else ('not', a)
            elif op in ('add', 'sub') and isinstance(a, tuple) and a[0] in ('k', 'kr', 'ks') and isinstance(b, int):
                r = (a[0], a[1], a[2] + (b if op == 'add' else -b))
            elif op in ('and', 'or') and i.t == 'i1':
                r = (op, a, b)
            st.ssa[i.id] = r if r is not None else st.fresh()
        else:
            st.ssa[i.id] = st.fresh()

    # ------------------------------------------------------------- control
    def run(self):
        st = State()
        todo = [(0, None, st)]
        while todo:
            x = todo.pop()
            st = x[2]
            try:
                todo += self.block(*x)
            except Bad as x:
                self.paths += 1
                self.bad.setdefault(x.args[0], x.i)
            except Undecided as x:
                self.paths += 1
                self.und.setdefault(str(x), getattr(st.pc, 'where', '?'))
            if time.time() > self.deadline:
                raise AnalysisError('too many paths')
            if len(self.bad) > 20 or len(self.und) > 50:
                break
        return self

    def block(self, b, pred, st, start=False):
        fn = self.fn
        self.steps += 1
        # loops that are left
        if pred is not None:
            for h in [h for h in st.mode if b not in self.loops[h]]:
                self.leave(st, h, st.mode[h])
                del st.mode[h]
                st.snap.pop(h, None)
                st.iters.pop(h, None)
                self.finish(st, h, False)
        generic = False
        if start:
            generic = 'g'
            self.forget(st, b)
        elif b in self.loops:
            inside = pred in self.loops[b]
            if not inside or b not in st.mode:
                st.mode[b], st.iters[b] = 'c', 0
                st.snap[b] = (pred, st.copy())
                if any(p == pred and self.generic(self.val(st, o)) for i in fn.blocks[b].insts if i.op == 'phi' for o, p in i.raw['in']):
                    st.mode[b] = 'g'
                    st.snap[b] = (pred, None)
                    self.forget(st, b)
            elif st.mode[b] == 'c':
                st.iters[b] += 1
                if st.iters[b] > 12:
                    raise Undecided('a loop has many iterations')
            elif st.mode[b] == 'g':
                self.arrive(st, b, pred)
                st.mode[b] = 'd'
            elif st.mode[b] == 'd':
                return []
            generic = st.mode[b]
        if generic in ('g', 'd'):
            for k in [k for k in st.cons if re.search(r"\('k[rs]?', %r," % b, repr(k))]:
                del st.cons[k]
        phis = [i for i in fn.blocks[b].insts if i.op == 'phi']
        vals = {}
        for i in phis:
            v = None
            for o, p in i.raw['in']:
                if p == pred:
                    v = self.val(st, o)
            if generic == 'g':
                v = self.induction(st, i, b, v)
            elif generic == 'd':
                v = self.carried(st, i, b, v)
            vals[i.id] = v if v is not None else st.fresh()
        st.ssa.update(vals)
        blk = fn.blocks[b]
        if len(blk.preds) > 1:
            k = (b, generic, st.key(self.live[b]))
            if k in self.seen:
                return []
            self.seen.add(k)
        for i in blk.insts:
            if i.op == 'phi':
                continue
            st.pc = i
            if i.op in ('call', 'invoke'):
                r = self.call(st, i)
                if r == 'end':
                    self.paths += 1
                    return []
                out = []
                if st.ssa.get(i.id) == ('find',):
                    st.ssa[i.id] = st.fresh()
                    if st.dysco is not True and i.op == 'invoke':
                        s2 = st.copy()
                        s2.dysco = False
                        out.append((i.raw['unwind'], b, s2))
                    if st.dysco is False:
                        st = None
                    else:
                        st.dysco = True
                if i.op == 'invoke':
                    if st is not None:
                        out.append((i.raw['normal'], b, st))
                    return out
                if st is None:
                    return []
                continue
            if i.op == 'br':
                if len(blk.succ) == 1:
                    return [(blk.succ[0], b, st)]
                return self.branch(st, b, i, self.val(st, i.ops[0]), i.ops[2]['v'], i.ops[1]['v'])
            if i.op == 'switch':
                c = self.val(st, i.raw['cond'])
                if isinstance(c, int):
                    for v, t in i.raw['cases']:
                        if int(v) == c:
                            return [(t, b, st)]
                    return [(i.raw['default'], b, st)]
                return [(t, b, st.copy()) for t in sorted({t for _, t in i.raw['cases']} | {i.raw['default']})]
            if i.op == 'ret':
                self.paths += 1
                self.ends.append(st)
                return []
            if i.op in ('resume', 'unreachable'):
                self.paths += 1
                return []
            self.simple(st, i)
        return []

    def generic(self, v):
        """a loop with this initial value is looked at in one generic iteration only"""
        return v == ('nrow',)

    def forget(self, st, h):
        """values in memory that are changed by the loop are not known in any iteration"""
        if h not in self.written:
            w = set()
            for b in self.loops[h]:
                for i in self.fn.blocks[b].insts:
                    if i.op == 'store' and isinstance(i.ops[1], int) and i.ops[1] in self.fn.inst and self.fn.inst[i.ops[1]].op == 'alloca':
                        w.add((('al', i.ops[1]), 0))
            self.written[h] = w
        for k in self.written[h]:
            st.mem.pop(k, None)

    def leave(self, st, h, mode):
        """a loop is left"""

    def arrive(self, st, h, pred):
        """the generic iteration of a loop ends"""

    def carried(self, st, i, h, v):
        """the variable after any iteration"""
        return (v[0], h, v[2] - (1 if v[0] == 'k' else -1)) if isinstance(v, tuple) and v[0] in ('k', 'kr') and v[1] == h else st.fresh()

    def induction(self, st, i, h, v):
        """value of the variable in any iteration"""
        if isinstance(v, int) or v == ('nrow',):
            for o, p in i.raw['in']:
                if p in self.loops[h] and isinstance(o, int) and o in self.fn.inst:
                    u = self.fn.inst[o]
                    if u.op == 'add' and i.id in u.ops:
                        c = [x for x in u.ops if isinstance(x, dict)]
                        step = self.val(st, c[0]) if c else None
                        if v == ('nrow',):
                            if step == -1:
                                return ('kr', h, 0)
                        elif step == 1:
                            return ('k', h, v)
                        elif isinstance(step, int):
                            return ('ks', h, v)
        return st.fresh()

    def branch(self, st, b, i, c, t, f):
        known, _ = self.truth(st, c)
        left = {x: [h for h in st.mode if b in self.loops[h] and x not in self.loops[h]] for x in (t, f)}
        if known is not None:
            return [(t if known else f, b, st)]
        exits = [h for h in set(left[t] + left[f])]
        conc = [h for h in exits if st.mode[h] == 'c']
        if conc:
            symbolic = self.aboutargs(c)
            if symbolic:
                out = []
                for x, tr in ((t, True), (f, False)):
                    s = st.copy()
                    if not self.choose(s, c, tr):
                        continue
                    if x in left and not left[x] and max(s.iters.get(h, 0) for h in conc) >= self.limit:
                        continue
                    out.append((x, b, s))
                return out
            # the number of iterations is not known: any iteration stands for all
            h = max(conc, key=lambda h: len(self.loops[h]))
            pred, s = st.snap[h]
            s = s.copy()
            s.mode[h], s.iters[h] = 'g', 0
            s.snap[h] = (pred, None)
            return [(h, pred, s, True)]
        if exits:
            out = []
            ctrl = self.control(c)
            for x, tr in ((t, True), (f, False)):
                s = st.copy()
                if not self.choose(s, c, tr):
                    continue
                if left[x]:
                    modes = {s.mode[h] for h in left[x]}
                    # the loop is left regularly
                    if (b in left[x] or ctrl) and len(left[x]) == 1:
                        h = left[x][0]
                        y = f if x == t else t
                        latch = h in self.fn.blocks[y].succ and self.fn.blocks[y].succ == [h] or y == h
                        if s.mode[h] == 'g' and not (latch and b != h):
                            continue
                        self.finish(s, h, self.full(c, h, s.mode[h] == 'd'))
                    out.append((x, b, s))
                else:
                    hs = left[f if x == t else t]
                    if len(hs) == 1 and (b == hs[0] or ctrl):
                        h = hs[0]
                        if s.mode[h] == 'd':
                            continue
                        if x == h:
                            continue
                    out.append((x, b, s))
            return out
        out = []
        for x, tr in ((t, True), (f, False)):
            s = st.copy()
            if self.choose(s, c, tr):
                out.append((x, b, s))
        return out

    def aboutargs(self, c):
        s = repr(c)
        return 'argc' in s or "'char'" in s or "'cut'" in s or "'sym'" in s

    def control(self, c):
        return "('k" in repr(c)

    def full(self, c, h, head):
        """the condition ends the loop after the last row"""
        while isinstance(c, tuple) and c[0] == 'not':
            c = c[1]
        if not (isinstance(c, tuple) and c[0] == 'icmp'):
            return False
        a, b = c[2], c[3]
        for x, y in ((a, b), (b, a)):
            if isinstance(x, tuple) and x[0] == 'kr' and x[1] == h and y == 0:
                return x[2] == (0 if head else -1) and c[1] in ('eq', 'ult', 'ugt')
        if b != ('nrow',):
            a, b = b, a
        return b == ('nrow',) and isinstance(a, tuple) and a[0] == 'k' and a[1] == h and a[2] == (0 if head else 1) and c[1] in ('eq', 'ult', 'slt', 'ugt', 'sgt')


# ----------------------------------------------------------------- checks
VALUED = ('data-bit-rate', 'weight-bit-rate', 'truncgaus', 'column')
DIST = {'gaussian': 'SetGaussianDistribution', 'uniform': 'SetUniformDistribution', 'studentt': 'SetStudentsTDistribution', 'truncgaus': 'SetTruncatedGaussianDistribution'}
NORM = {'afnormalization': 'kAF', 'rfnormalization': 'kRF', 'rownormalization': 'kRow'}


def parse(st):
    """the options on the command line of a path: [(name or None, index)], index of the path"""
    out, k = [], 1
    while True:
        c = st.cons.get(('icmp', 'eq', ('char', k, 0), 45))
        if c is None:
            c = st.cons.get(('icmp', 'eq', 45, ('char', k, 0)))
        if not c:
            return out, k
        o = st.cons.get(('is', ('sym', k, 1)))
        if o is None:
            o = st.cons.get(('is', ('sym', k, 0)))
            o = o[1:] if o else None
        out.append((o, k))
        k += 2 if o in VALUED else 1


def normal(unit):
    import re as _re
    with open(build.REPO + '/dysconormalization.h') as f:
        m = _re.search(r'enum\s+class\s+Normalization[^{]*\{([^}]*)\}', f.read())
    if not m:
        raise AnalysisError('the normalizations were not found')
    d, k = {}, 0
    for x in m.group(1).split(','):
        x = x.split('//')[0].strip()
        if not x:
            continue
        if '=' in x:
            x, v = [y.strip() for y in x.split('=')]
            k = int(v, 0)
        d[x] = k
        k += 1
    return d


def explore(unit, limit):
    m, f = program(unit)
    return Interp(m, f, *limit).run()


def columns(st):
    """the selected columns"""
    opts, k = parse(st)
    l = [(('sym', i + 1, 0),) for o, i in opts if o == 'column']
    return l or [LIT('DATA')]


def final(unit, st):
    """statements that do not hold at the end of a path"""
    out = []
    first = st.obj.get((('first',), 0))
    if first is None:
        return out
    path = first[1]
    t = st.disk.get(path)
    if t is None:
        return ['the measurement set is not where it was']
    for p in st.disk:
        if p != path and not st.tabs[st.disk[p]].marked:
            out.append('a copy of the measurement set is left at %s' % show(p[1:] if p and p[0] == 'cut' else [x for x in p if isinstance(x, tuple)]))
    T = st.tabs[t]
    if T.marked:
        out.append('the measurement set is deleted')
    for n in T.gone:
        if n != ('complete',) and not show(n).startswith('TEMP_'):
            out.append('column %s is missing' % show(n))
    for n, k in T.cols.items():
        c = st.cols[k].content
        if show(n).startswith('TEMP_'):
            out.append('column %s is left' % show(n))
        elif c not in (('orig', n), ('copy', n)):
            out.append('column %s does not have its values: it is %s' % (show(n), Interp.tell(None, c)))
    if unit.startswith('decompress'):
        for n in ('DATA', 'WEIGHT_SPECTRUM'):
            k = T.cols.get(LIT(n))
            if k is None or st.cols[k].mgr in (TARGET, None):
                out.append('column %s may still be compressed' % n)
    else:
        for n in columns(st):
            n = Interp.resolve(None, st, n)
            k = T.cols.get(n)
            if k is None or st.cols[k].mgr != TARGET:
                out.append('the selected column %s is not compressed' % show(n))
        sel = [Interp.resolve(None, st, n) for n in columns(st)]
        for n, k in T.cols.items():
            if n not in sel and k[0] == 'new':
                out.append('column %s is replaced although it was not selected' % show(n))
    return out


def report(r, unit, I):
    r.count('paths of %s' % unit, I.paths)
    r.count('ends of %s' % unit, len(I.ends))
    for k, i in I.bad.items():
        r.bad('%s: %s' % (unit, k), '%s: %s' % (getattr(i, 'where', unit), k))
    for k, w in I.und.items():
        r.undecided('%s: %s' % (unit, k), '%s: %s' % (w, k))


def depth():
    import os
    return (2,) if os.environ.get('MSQ') else (4, 4) if os.environ.get('VERIF_TIER') == 'thorough' else (3, 2)


def p23(r):
    for unit, low in (('decompress.cc', 4), ('dscompress.cc', 20)):
        I = explore(unit, depth())
        report(r, unit, I)
        if not I.und and not I.bad:
            r.require(len(I.ends) >= low, '%s: only %d ways through the program were found' % (unit, len(I.ends)))
            seen = [st for st in I.ends if (('first',), 0) in st.obj]
            r.require(any(any(k[0] == 'new' for k in st.cols) for st in seen), '%s: no way through the program replaces a column' % unit)
        n = 0
        for st in I.ends:
            bad = final(unit, st)
            for x in bad:
                r.bad('%s: at the end %s' % (unit, x), 'main of %s: at the end of a path with the options %s %s' % (unit, ' '.join('-' + (o or '?') for o, _ in parse(st)[0]) or '(none)', x))
            n += not bad
        if n:
            r.ok('%s: %d final states' % (unit, n))
    import msrows
    msrows.p23_rows(r)


def p35(r):
    unit = 'dscompress.cc'
    I = explore(unit, depth())
    for k, w in I.und.items():
        r.undecided('%s: %s' % (unit, k), '%s: %s' % (w, k))
    enum = normal(unit)
    n = 0
    covered = set()
    for st in I.ends:
        first = st.obj.get((('first',), 0))
        if first is None:
            continue
        opts, k = parse(st)
        text = ' '.join('-' + (o or '?') for o, _ in opts) or '(none)'
        if any(o is None for o, _ in opts):
            r.bad('an unknown option is accepted', 'main of %s: a path with an option that is none of the known ones goes on and opens a table' % unit)
            continue
        r.check(first[1] == (('sym', k, 0),), 'table for %s' % text, 'main of %s: with the options %s the table that is opened is not the argument after the options' % (unit, text))
        bits, weight, dist, norm, static, trunc = 8, 12, 'truncgaus', 'afnormalization', False, ('fp', 2.5)
        for o, i in opts:
            v = (('sym', i + 1, 0),)
            covered.add(o)
            if o == 'data-bit-rate':
                bits = ('atoi', v)
            elif o == 'weight-bit-rate':
                weight = ('atoi', v)
            elif o in DIST:
                dist = o
                if o == 'truncgaus':
                    trunc = ('atof', v)
            elif o in NORM:
                norm = o
            elif o == 'static-seed':
                static = True
        reorder = any(o == 'reorder' for o, _ in opts)
        made = [k for k in st.cols if k[0] == 'new']
        if made:
            copied = any(k[0] == ('copyof',) or isinstance(k[0], tuple) and k[0][0] == 'copyof' for k in st.obj)
            r.check(copied == reorder, 'rewriting for %s' % text, 'main of %s: with the options %s the measurement set is %s' % (unit, text, 'rewritten although this was not asked for' if copied else 'not rewritten'))
        for dm, i in st.added:
            n += 1
            calls = [x for x in dm[1]]
            b = tuple(('atoi', x[1][1]) if isinstance(x, tuple) and x[0] == 'whole' and x[1][0] == 'atof' else x for x in calls[0])
            w = i.where

            def say(ok, what, how):
                r.check(ok, '%s for %s' % (what, text), '%s: with the options %s %s' % (w, text, how))
            if b[0] != 'bits' or any(x == ('u',) for x in b[1:]):
                r.undecided('bit rates', '%s: the bit rates are not known' % w)
            else:
                say(b[1] == bits, 'bits of the data', 'the bits per data value are %s' % lit(b[1]))
                say(b[2] == weight, 'bits of the weights', 'the bits per weight are %s' % lit(b[2]))
            d = [x for x in calls[1:] if x[0].endswith('Distribution')]
            say(bool(d) and d[-1][0] == DIST[dist], 'distribution', 'the distribution is set by %s' % (d[-1][0] if d else 'nothing'))
            if d and d[-1][0] == DIST[dist] and dist in ('truncgaus', 'studentt'):
                want = trunc if dist == 'truncgaus' else ('fp', 1.0)
                got = d[-1][1] if len(d[-1]) > 1 else None
                if got and got[0] == 'whole':
                    say(False, 'parameter of the distribution', 'the parameter of the distribution is rounded to a whole number')
                elif got in (None, ('u',)):
                    r.undecided('parameter of the distribution', '%s: it is not known' % w)
                else:
                    got = ('fp', float(got[1])) if got[0] == 'fp' else got
                    say(got == want, 'parameter of the distribution', 'the parameter of the distribution is %s' % lit(got))
            s = [x for x in calls[1:] if x[0] == 'SetNormalization']
            if not s:
                say(False, 'normalization', 'the normalization is not set')
            elif s[-1][1] == ('u',):
                r.undecided('normalization', '%s: it is not known' % w)
            else:
                say(s[-1][1] == enum.get(NORM[norm]), 'normalization', 'the normalization is not %s' % NORM[norm])
            s = [x for x in calls[1:] if x[0] == 'SetStaticSeed']
            v = s[-1][1] if s else 0
            if v == ('u',):
                r.undecided('static seed', '%s: it is not known' % w)
            else:
                say(bool(v) == static, 'static seed', 'the seed is %s' % ('static' if v else 'not static'))
    r.count('storage managers that are made', n)
    if not I.bad and not I.und:
        r.require(n >= 20, 'only %d paths make a storage manager' % n)
        for o in list(VALUED) + list(DIST) + list(NORM) + ['static-seed', 'reorder']:
            r.check(o in covered, 'option ' + o, 'main of %s: the option -%s is not accepted' % (unit, o))


def lit(v):
    if isinstance(v, tuple) and v[0] in ('atoi', 'atof'):
        return 'those of argument %d' % v[1][0][1] if v[1] and v[1][0][0] == 'sym' else 'those of an argument'
    return str(v[1]) if isinstance(v, tuple) and v[0] == 'fp' else 'something else' if isinstance(v, tuple) else str(v)
