"""The compression tool: what one generic row and one generic value go through."""
import re
from vfw.build import AnalysisError
import msops
from msops import Interp, Undecided, Bad, show, LIT, columns, program

NAMES = {'TIME': 'T', 'FIELD_ID': 'F', 'DATA_DESC_ID': 'D'}


def unknown(v):
    return v is None or v == ('u',) or isinstance(v, tuple) and any(unknown(x) for x in v if isinstance(x, tuple))


def mentions(v, what):
    return v == what or isinstance(v, tuple) and any(mentions(x, what) for x in v if isinstance(x, tuple))


def kinds(v, k):
    if isinstance(v, tuple):
        if v and v[0] == k:
            yield v
        for x in v:
            for y in kinds(x, k):
                yield y


class Rows(Interp):
    def __init__(self, mod, fn):
        Interp.__init__(self, mod, fn, 2)
        self.rec = {}           # loop -> [(kind, conditions, incoming values, pushes)]
        self.init = {}
        self.sizes = {}
        self.cells = set()

    # ------------------------------------------------------------- conditions
    def compare(self, st, pred, a, b):
        for x, y, p in ((a, b, pred), (b, a, {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(pred[-2:], pred[-2:]))):
            if isinstance(x, tuple) and x[0] == 'accp' and y == 0:
                return {'eq': False, 'ne': True, 'gt': True, 'le': False, 'ge': True, 'lt': False}[p[-2:]]
            if isinstance(x, tuple) and x[0] == 'acc' and y == 0 and p in ('gt', 'le') and pred[0] == 'u':
                c = ('icmp', 'eq') + self.order(x, 0)
                return ('not', c) if p == 'gt' else c
            if isinstance(x, tuple) and x[0] == 'acc' and isinstance(y, tuple) and y[0] == 'vsize' and p[-2:] in ('lt', 'ge') and pred[0] == 'u':
                # an offset never exceeds the size unless it was equal to it before
                c = ('icmp', 'eq') + self.order(x, y)
                return ('not', c) if p[-2:] == 'lt' else c
        if a == b and isinstance(a, tuple) and not unknown(a) and pred[-2:] in ('eq', 'ne'):
            return pred[-2:] == 'eq'
        if unknown(a) or unknown(b):
            return st.fresh()
        c = Interp.compare(self, st, pred, a, b)
        n = False
        while isinstance(c, tuple) and c[0] == 'not':
            c, n = c[1], not n
        if isinstance(c, tuple) and c[0] == 'icmp' and c[1] == 'eq':
            c = c[:2] + self.order(c[2], c[3])
            if c in st.cons and any(True for _ in kinds(c, 'flagel')):
                c = st.cons[c]
        return (('not', c) if not isinstance(c, bool) else not c) if n else c

    def order(self, a, b):
        if isinstance(b, int) or isinstance(b, tuple) and b[0] in ('nrow', 'argc'):
            return (a, b)
        if isinstance(a, int):
            return (b, a)
        return tuple(sorted((a, b), key=repr))

    def asbool(self, c):
        if isinstance(c, tuple) and c[0] in ('flagel', 'acc', 'accp') and not unknown(c):
            return ('not', ('icmp', 'eq') + self.order(c, 0)) if c[0] != 'accp' else True
        return c

    def truth(self, st, c):
        return Interp.truth(self, st, self.asbool(c))

    def choose(self, st, c, truth):
        c = self.asbool(c)
        if isinstance(c, tuple) and c[0] == 'streq' and truth and c[1][2] and c[2] != 'column':
            return False
        return Interp.choose(self, st, c, truth)

    def atoms(self, c):
        c = self.asbool(c)
        if isinstance(c, tuple) and c[0] in ('and', 'or'):
            return self.atoms(c[1]) + self.atoms(c[2])
        if isinstance(c, tuple) and c[0] == 'not':
            return self.atoms(c[1])
        return [c]

    def branch(self, st, b, i, c, t, f):
        if len(self.atoms(c)) > 1 and self.truth(st, c)[0] is None:
            for a in self.atoms(c):
                if isinstance(a, tuple) and a[0] in ('icmp', 'streq') and self.truth(st, a)[0] is None:
                    out = []
                    for tr in (True, False):
                        s = st.copy()
                        if self.choose(s, a, tr):
                            out += self.branch(s, b, i, c, t, f)
                    return out
        return Interp.branch(self, st, b, i, c, t, f)

    # ------------------------------------------------------------- values
    def simple(self, st, i):
        op = i.op
        if op == 'fcmp':
            p = i.raw['pred']
            if p[1:] in ('eq', 'ne') or p[:3] in ('oeq', 'ueq', 'one', 'une'):
                st.ssa[i.id] = self.compare(st, p[-2:], self.val(st, i.ops[0]), self.val(st, i.ops[1]))
                return
        if op in ('add', 'sub', 'ashr', 'lshr', 'sdiv', 'udiv', 'or', 'and'):
            a, b = self.val(st, i.ops[0]), self.val(st, i.ops[1])
            if op == 'add' and isinstance(a, tuple) and a[0] in ('acc', 'accp') and isinstance(b, int) and b > 0:
                st.ssa[i.id] = ('accp', a[1], b + (a[2] if a[0] == 'accp' else 0))
                return
            if op == 'sub' and all(isinstance(x, tuple) and x[0] == 'ptr' for x in (a, b)) and a[1][0] == 'pend' and b[1] == ('pel', a[1][1]):
                st.ssa[i.id] = ('bytes', a[1][1])
                return
            if isinstance(a, tuple) and a[0] == 'bytes' and (op in ('ashr', 'lshr') and b == 3 or op in ('sdiv', 'udiv') and b == 8):
                st.ssa[i.id] = ('vsize', a[1])
                return
            if op == 'or' and b == 1:
                st.ssa[i.id] = 1
                return
            if op == 'and' and b in (1, 255) and isinstance(a, tuple) and a[0] in ('acc', 'flagel', 'accp'):
                st.ssa[i.id] = a
                return
        if op == 'xor':
            a, b = [self.val(st, o) for o in i.ops]
            if isinstance(a, tuple) and a[0] == 'acc' and b in (1, -1, True):
                t = self.truth(st, a)[0]
                st.ssa[i.id] = ('icmp', 'eq') + self.order(a, 0) if t is None else not t
                return
        if op in ('or', 'select'):
            # a variable that becomes true with a flag
            v = [self.val(st, o) for o in i.ops]
            if op == 'select' and len(v) == 3 and v[1] in (1, -1, True):
                v = [v[0], v[2]]
            if len(v) == 2 and {x[0] for x in v if isinstance(x, tuple)} == {'acc', 'flagel'}:
                x, y = v if v[0][0] == 'acc' else v[::-1]
                t = self.truth(st, y)[0]
                if t is not None:
                    st.ssa[i.id] = ('accp', x[1], 1) if t else x
                    return
        if op in ('trunc', 'zext') and isinstance(self.val(st, i.ops[0]), tuple) and self.val(st, i.ops[0])[0] in ('acc', 'accp', 'flagel'):
            st.ssa[i.id] = self.val(st, i.ops[0])
            return
        if op == 'getelementptr':
            p = self.val(st, i.ops[0])
            if isinstance(p, tuple) and p[0] == 'ptr' and p[1][0] in ('pel', 'ael') and len(i.get('var') or []) == 1:
                x, w = self.val(st, i.get('var')[0][0]), int(i.get('var')[0][1])
                if p[1][0] == 'pel' and len(p[1]) == 2 and w == 8 and p[2] == 0 and not unknown(x):
                    st.ssa[i.id] = ('ptr', ('pel', p[1][1], x), i.get('off') or 0)
                    return
                if p[1][0] == 'ael' and p[2] == 0 and isinstance(x, tuple) and x[0] == 'k' and x[2] == 0 and w == self.width(st, p[1][1]):
                    st.ssa[i.id] = ('ptr', ('ae', p[1][1], x[1]), i.get('off') or 0)
                    return
        if op == 'store':
            a, v = self.val(st, i.ops[1]), self.val(st, i.ops[0])
            if isinstance(a, tuple) and a[0] == 'ptr' and a[1][0] in ('ae', 'ael'):
                self.stored(st, i, a, v)
                return
        Interp.simple(self, st, i)

    def isnan(self, v):
        if isinstance(v, tuple) and v[0] == 'cplx':
            return self.isnan(v[1]) or self.isnan(v[2])
        if isinstance(v, tuple) and v[0] == 'fp':
            return 'nan' in v[1].lower() or v[1] == '?'
        return v == ('nan',)

    def stored(self, st, i, a, v):
        if a[1][0] == 'ael':
            raise Undecided('a value is stored to an array at an unknown place')
        if unknown(v):
            raise Undecided('a value that is stored to an array is not known')
        k = (('st', a[1][2]), 0)
        arr = st.obj.get(a[1][1])
        st.obj[k] = st.obj.get(k, frozenset()) | {('nan' if self.isnan(v) else 'other', a[1][1], arr[1] if arr else None)}

    def width(self, st, key):
        o = st.obj.get(key)
        o = o[1] if o and o[0] == 'arr' else None
        if not o or o[1][0] not in ('orig', 'copy'):
            return None
        return {'FLAG': 1, 'WEIGHT_SPECTRUM': 4}.get(show(o[1][1]), 8)

    def load(self, st, a, size):
        if isinstance(a, tuple) and a[0] == 'ptr':
            b, off = a[1], a[2]
            if b[0] == 'ae':
                o = st.obj.get(b[1])
                o = o[1] if o and o[0] == 'arr' else None
                if o and o[0] == 'cell' and o[1] == ('orig', LIT('FLAG')):
                    return ('flagel', o[2], b[2])
                return st.fresh()
            if b[0] == 'pel':
                return ('pelv', b[1], b[2], off) if len(b) == 3 and off in (0, 4) else st.fresh()
            if (b, off) not in st.mem and st.obj.get((b, off)) == ('pvec',):
                return ('ptr', ('pel', (b, off)), 0)
            if isinstance(off, int) and st.obj.get((b, off - 8)) == ('pvec',):
                return ('ptr', ('pend', (b, off - 8)), 0)
        return Interp.load(self, st, a, size)

    def casacore(self, st, i, n, f, d, A):
        if n == 'std::numeric_limits::quiet_NaN' or n == 'std::numeric_limits::signaling_NaN' or n in ('nanf', 'nan', 'std::nanf', 'std::nan'):
            return ('nan',)
        if n.startswith('std::complex::'):
            if f == 'complex' and len(A) == 3:
                st.mem[(A[0][1], A[0][2])] = ('cplx', A[1], A[2])
                return True
            if f == 'operator=' and len(A) == 2 and isinstance(A[0], tuple) and A[0][0] == 'ptr':
                v = self.load(st, A[1], 8) if isinstance(A[1], tuple) and A[1][0] == 'ptr' else A[1]
                if A[0][1][0] in ('ae', 'ael'):
                    self.stored(st, i, A[0], v)
                else:
                    st.mem[(A[0][1], A[0][2])] = v
                return A[0]
            if f in ('real', 'imag') and len(A) == 2 and isinstance(A[0], tuple) and A[0][0] == 'ptr' and A[0][1][0] in ('ae', 'ael'):
                self.stored(st, i, A[0], A[1])
                return True
            if isinstance(A[0], tuple) and A[0][0] == 'ptr' and A[0][1][0] in ('ae', 'ael') and not d.rstrip().endswith('const'):
                raise Undecided('the call of %s is not understood' % n)
        if n.startswith('std::vector') and 'pair<int, int>' in d.split('(')[0]:
            key = (A[0][1], A[0][2]) if isinstance(A[0], tuple) and A[0][0] == 'ptr' else None
            if key is None:
                raise Undecided('a vector is not known')
            if f == 'vector' and len(A) == 1:
                st.obj[key] = ('pvec',)
                return True
            if f.startswith('~') or f == 'reserve':
                return True
            if st.obj.get(key) != ('pvec',):
                raise Undecided('a vector is not known')
            if f in ('push_back', 'emplace_back'):
                ld = lambda v: self.load(st, v, 4) if isinstance(v, tuple) and v[0] == 'ptr' else v
                if len(A) == 3:
                    v = (ld(A[1]), ld(A[2]))
                else:
                    v = ld(A[1])
                    if isinstance(v, tuple) and v[0] == 'pair':
                        v = v[1:]
                    elif isinstance(A[1], tuple) and A[1][0] == 'ptr':
                        v = (ld(A[1]), ld(('ptr', A[1][1], A[1][2] + 4)))
                    else:
                        v = (('u',), ('u',))
                k = (('push',), key)
                st.obj[k] = st.obj.get(k, ()) + (v,)
                for c in [c for c in st.cons if mentions(c, ('vsize', key))]:
                    del st.cons[c]
                return st.fresh()
            if f == 'size':
                return ('vsize', key)
            if f == 'empty':
                return ('icmp', 'eq', ('vsize', key), 0)
            if f in ('operator[]', 'at') and not unknown(A[1]):
                return ('ptr', ('pel', key, A[1]), 0)
            raise Undecided('the call of %s is not understood' % n)
        if n == 'std::make_pair' and len(A) == 2:
            ld = lambda v: self.load(st, v, 4) if isinstance(v, tuple) and v[0] == 'ptr' else v
            return ('pair', ld(A[0]), ld(A[1]))
        if n == 'std::pair::pair' and len(A) == 3 and isinstance(A[0], tuple) and A[0][0] == 'ptr':
            ld = lambda v: self.load(st, v, 4) if isinstance(v, tuple) and v[0] == 'ptr' else v
            st.mem[(A[0][1], A[0][2])], st.mem[(A[0][1], A[0][2] + 4)] = ld(A[1]), ld(A[2])
            return True
        if re.match(r'std::operator[!=]=', n) and len(A) == 2 and 'pair<int, int>' in d:
            def part(v, off):
                if not (isinstance(v, tuple) and v[0] == 'ptr'):
                    return st.fresh()
                w = st.mem.get((v[1], v[2])) if v[1][0] != 'pel' else None
                if isinstance(w, tuple) and w[0] == 'pair':
                    return w[1 + off // 4]
                return self.load(st, ('ptr', v[1], v[2] + off), 4)
            c = [self.compare(st, 'eq', part(A[0], o), part(A[1], o)) for o in (0, 4)]
            c = c[1] if c[0] is True else c[0] if c[1] is True else False if False in c else ('and', c[0], c[1])
            return (not c if isinstance(c, bool) else ('not', c)) if 'operator!' in n else c
        if n.startswith('casacore::ScalarColumn::'):
            o = self.object(st, A[0])
            if o and o[0] == 'colh' and f in ('operator_call', 'get') and len(A) >= 2:
                c = st.cols[o[1]].content
                if not isinstance(A[1], int):
                    self.cells.add(show(c[1]) if c[0] == 'orig' else '?')
                v = ('cellv', show(c[1]) if c[0] == 'orig' else '?', A[1]) if not unknown(A[1]) else st.fresh()
                if f == 'get' and len(A) >= 3 and isinstance(A[2], tuple) and A[2][0] == 'ptr':
                    st.mem[(A[2][1], A[2][2])] = v
                    return True
                return v
        if n.startswith('casacore::Array::'):
            o = self.object(st, A[0])
            if o and o[0] == 'arr':
                key = (A[0][1], A[0][2])
                if f in ('cbegin', 'data', 'cdata'):
                    return ('ptr', ('ael', key), 0)
                if f == 'cend':
                    return ('ptr', ('aend', key), 0)
                if f in ('size', 'nelements'):
                    return ('asize', key)
        if n.startswith('casacore::ArrayBase::') and f in ('size', 'nelements'):
            o = self.object(st, A[0])
            if o and o[0] == 'arr':
                return ('asize', (A[0][1], A[0][2]))
        return Interp.casacore(self, st, i, n, f, d, A)

    def putrow(self, st, i, col, row, arr):
        o, a = self.object(st, col), self.object(st, arr)
        if o and o[0] == 'colh' and a and a[0] == 'arr' and a[1] and a[1][0] == 'nan':
            c = st.cols[o[1]].content
            if unknown(row) or unknown(a[1][2]):
                raise Undecided('the row of a value is not known')
            if a[1][1] == c and a[1][2] == row:
                if isinstance(row, tuple) and row[0] in ('k', 'kr'):
                    st.obj[(('done',), row[1])] = c
                return
            raise Bad(i, 'values of column %s are put into another column or row' % show(a[1][1][1]))
        Interp.putrow(self, st, i, col, row, arr)

    # ------------------------------------------------------------- loops
    def generic(self, v):
        return Interp.generic(self, v) or isinstance(v, tuple) and v[0] == 'ptr' and v[1][0] == 'ael'

    def induction(self, st, i, h, v):
        if isinstance(v, tuple) and v[0] == 'ptr' and v[1][0] == 'ael':
            return ('ptr', ('ae', v[1][1], h), 0) if v[2] == 0 else ('u',)
        x = Interp.induction(self, st, i, h, v)
        if x == ('u',) and not unknown(v) and (isinstance(v, int) or isinstance(v, tuple) and v[0] in ('cellv', 'fp', 'acc', 'accp')):
            if self.init.setdefault(i.id, v) != v:
                self.init[i.id] = None
            return ('acc', i.id)
        return x

    def carried(self, st, i, h, v):
        if isinstance(v, tuple) and v[0] == 'ptr' and v[1][0] == 'ae':
            return ('ptr', v[1], 0)
        if isinstance(v, tuple) and v[0] in ('k', 'kr') and v[1] == h or v is None:
            return Interp.carried(self, st, i, h, v)
        return v

    def incoming(self, st, h, pred):
        out = {}
        for i in self.fn.blocks[h].insts:
            if i.op == 'phi':
                for o, p in i.raw['in']:
                    if p == pred:
                        out[i.id] = (st.ssa.get(i.id), self.val(st, o))
        return out

    def forget(self, st, h):
        Interp.forget(self, st, h)
        mine = {i.id for i in self.fn.blocks[h].insts if i.op == 'phi'}
        for c in list(st.cons):
            if isinstance(c, tuple) and (any(x[1] in mine for t in ('acc', 'accp') for x in kinds(c, t)) or any(x[2] == h for t in ('ae', 'flagel') for x in kinds(c, t))):
                del st.cons[c]

    def leave(self, st, h, mode):
        st.obj.pop((('left',), 0), None)
        if mode == 'g':
            st.obj[(('left',), 0)] = h

    def arrive(self, st, h, pred):
        inc = self.incoming(st, h, pred)
        el = [(x, y) for x, y in inc.values() if isinstance(x, tuple) and x[0] == 'ptr' and x[1][0] == 'ae' and x[1][2] == h]
        ev = st.obj.pop((('st', h), 0), frozenset())
        flags = {c: v for c, v in st.cons.items() if isinstance(c, tuple) and any(x[2] == h for x in kinds(c, 'flagel'))}
        for c in list(st.cons):
            if c in flags or isinstance(c, tuple) and any(x[2] == h for x in kinds(c, 'ae')):
                del st.cons[c]
        if el or ev or flags:
            self.element(st, h, inc, el, ev, flags)
            return
        if any(any(True for _ in kinds(c, 'cellv')) for c in st.cons) or any(isinstance(k[0], tuple) and k[0] == ('push',) for k in st.obj):
            self.note(st, h, 'next', inc)
            for k in [k for k in st.obj if k[0] == ('push',)]:
                del st.obj[k]
        # rows whose flagged values were replaced
        done = st.obj.pop((('done',), h), None)
        for k, o in list(st.obj.items()):
            if isinstance(o, tuple) and o and o[0] == 'arr' and o[1] and o[1][0] == 'nan' and isinstance(o[1][2], tuple) and o[1][2][1] == h and done is None:
                if o[1][3] == 'clean':
                    done = o[1][1]
                if o[1][3] is False and any(v is True and c[0] == 'icmp' and c[3] == 0 and c[2][0] == 'acc' for c, v in st.cons.items() if isinstance(c, tuple) and len(c) == 4 and isinstance(c[2], tuple)):
                    done = o[1][1]
        if done is not None:
            st.obj[(('rows',), h)] = done
        else:
            st.obj.pop((('rows',), h), None)

    def element(self, st, h, inc, el, ev, flags):
        if any(isinstance(x, tuple) and x[0] == 'acc' and unknown(y) for x, y in inc.values()):
            raise Undecided('what a loop over values leaves in a variable is not known')
        for x, y in el:
            w = self.width(st, x[1][1])
            if unknown(y) or w is None or not (isinstance(y, tuple) and y[0] == 'ptr' and y[1] == x[1]):
                raise Undecided('the place in an array is not known')
            if y[2] != w:
                raise Bad(st.pc, 'flags and values do not advance together')
        flagged = None
        inc = {p: (x, self.settled(st, flags, y)) for p, (x, y) in inc.items()}
        for c, v in flags.items():
            if c[0] == 'icmp' and c[1] == 'eq' and c[3] == 0 and c[2][0] == 'flagel':
                flagged = not v
                row = c[2][1]
            else:
                raise Undecided('a condition on flags is not understood')
        if not ev and flagged is None:
            return
        arrs = {(k, a) for _, k, a in ev}
        if flagged is not True and ev:
            raise Bad(st.pc, 'a value that is not flagged is overwritten')
        if flagged and not any(x[0] == 'nan' for x in ev):
            raise Bad(st.pc, 'a flagged value is kept')
        if len(arrs) > 1 or any(a is None or a[0] != 'cell' for _, a in arrs):
            raise Undecided('an array is not known')
        if ev and [a for _, a in arrs][0][2] != row:
            raise Bad(st.pc, 'flags of another row are used')
        key = [k for k, _ in arrs][0] if arrs else None
        if key is None:
            # the array that would be overwritten: the other one that is walked through
            ks = [x[1][1] for x, _ in el if self.width(st, x[1][1]) != 1]
            key = ks[0] if len(ks) == 1 else None
            if not el:
                ks = [k for k, o in st.obj.items() if o[0] == 'arr' and o[1] and o[1][0] == 'cell' and o[1][2] == row and self.width(st, k) == 8]
                key = ks[0] if len(ks) == 1 else None
            if key is None:
                raise Undecided('an array is not known')
        if flagged is False and any(isinstance(x, tuple) and x[0] == 'acc' and y is False and st.cons.get(('icmp', 'eq') + self.order(x, 0)) is True for x, y in inc.values()):
            flagged = 'clean'       # the variable tells that nothing was flagged so far
        st.obj[(('it', h), 0)] = (key, flagged)

    def settled(self, st, flags, v):
        n = isinstance(v, tuple) and v[0] == 'not'
        c = v[1] if n else v
        if isinstance(c, tuple) and c in flags:
            return flags[c] != n
        return False if v is False or v == 0 and not isinstance(v, tuple) else v

    def full(self, c, h, head):
        x = c
        while isinstance(x, tuple) and x[0] == 'not':
            x = x[1]
        if isinstance(x, tuple) and x[0] == 'icmp' and x[1] in ('eq', 'ult', 'ugt'):
            for a, b in ((x[2], x[3]), (x[3], x[2])):
                if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == 'ptr' and b[0] == 'ptr' and a[1][0] == 'ae' and a[1][2] == h and b[1][0] == 'aend':
                    return b[2] == 0 and (a[2] == 0 if head else a[2] > 0)
                if isinstance(b, tuple) and b[0] == 'asize' and isinstance(a, tuple) and a[0] == 'k' and a[1] == h:
                    return a[2] == (0 if head else 1)
        return Interp.full(self, c, h, head)

    def control(self, c):
        return Interp.control(self, c) or "('ae'," in repr(c)

    def finish(self, st, h, full):
        it = st.obj.pop((('it', h), 0), None)
        st.obj.pop((('st', h), 0), None)
        if full:
            st.obj[(('all',), h)] = ('yes',)
        if it is not None:
            key, flagged = it
            o = st.obj.get(key)
            if o and o[1]:
                st.obj[key] = ('arr', ('nan', o[1][1], o[1][2], flagged) if full else ('mod',) + o[1][1:])
        r = st.obj.pop((('rows',), h), None)
        if r is not None and full:
            st.obj[(('flagged',), r[1])] = ('yes',)
        Interp.finish(self, st, h, full)

    def call(self, st, i):
        r = Interp.call(self, st, i)
        if r == 'end' and i.cdem == '__cxa_throw' or r == 'end' and i.callee == '__cxa_throw':
            hs = [h for h in st.mode if st.mode[h] == 'g'] + ([st.obj[(('left',), 0)]] if (('left',), 0) in st.obj else [])
            if hs:
                for h in hs:
                    self.note(st, h, 'throw', None)
            else:
                self.note(st, None, 'throw', None)
        return r

    def note(self, st, h, kind, inc):
        push = [(k[1], v) for k, v in st.obj.items() if k[0] == ('push',)]
        self.rec.setdefault(h, []).append((kind, dict(st.cons), inc, push, st.pc))


# ----------------------------------------------------------------- judgement
def run():
    m, f = program('dscompress.cc')
    return Rows(m, f).run()


def flags(r, I):
    """flagged values of every selected column become NaN"""
    n = 0
    for st in I.ends:
        if (('first',), 0) not in st.obj:
            continue
        for name in columns(st):
            name = I.resolve(st, name)
            if show(name) == 'WEIGHT_SPECTRUM':
                continue
            n += 1
            r.check((('flagged',), name) in st.obj, 'flags of %s' % show(name), 'main of dscompress.cc: flagged values of the selected column %s are not replaced in all rows' % show(name))
    return n


def kinds_of(I, name):
    """cells of this column are read in some loop"""
    return name in I.cells


def regular(r, I):
    loops = [h for h, l in I.rec.items() if h is not None and any(k == 'next' and any(x[1] in ('ANTENNA1', 'ANTENNA2') for c in cons for x in kinds(c, 'cellv')) for k, cons, _, _, _ in l)]
    if not loops and any(kinds_of(I, x) for x in ('ANTENNA1', 'ANTENNA2')):
        r.undecided('irregular sets', 'dscompress.cc: how antennas are compared was not recognised')
        return 0
    if not loops:
        r.bad('irregular sets', 'main of dscompress.cc: no loop over the rows compares antennas with those of the first block')
        return 0
    n = 0
    for h in loops:
        n += block_loop(r, I, h)
    return n


class Unclear(Exception):
    pass


def block_loop(r, I, h):
    recs, seen = [], set()
    for kind, cons, inc, push, pc in I.rec[h]:
        key = (kind, frozenset((k, v) for k, v in cons.items() if any(True for t in ('cellv', 'acc', 'vsize') for _ in kinds(k, t))), repr(inc), repr(push))
        if key not in seen:
            seen.add(key)
            recs.append((kind, cons, inc, push, pc))
    nxt = [x for x in recs if x[0] == 'next']
    row = {v for x in nxt for c in x[1] for v in kinds(c, 'cellv')}
    ks = {v[2] for v in row if isinstance(v[2], tuple) and v[2][0] == 'k' and v[2][1] == h}
    if len(ks) != 1:
        r.undecided('irregular sets', 'dscompress.cc: the rows are not compared in order')
        return 0
    K = next(iter(ks))
    for v in sorted(row, key=repr):
        if v[2] != K:
            r.bad('irregular sets: row of ' + v[1], 'main of dscompress.cc: in the check of a row the %s of another row is looked at' % v[1])
            return 1
    if not all((('all',), h) in st.obj for st in I.ends if (('first',), 0) in st.obj):
        r.bad('irregular sets: rows', 'main of dscompress.cc: the check of the order ends before the last row')
    if K[2] != 0:
        if any(len(x[3]) == 1 and len(x[3][0][1]) == 1 for x in nxt):
            r.bad('irregular sets: rows', 'main of dscompress.cc: the check of the order leaves out the first row')
        else:
            r.undecided('irregular sets', 'dscompress.cc: the first row is looked at separately')
        return 1
    # roles of the variables
    last, off, num = {}, set(), set()
    for x in nxt:
        for p, (v, w) in x[2].items():
            if isinstance(w, tuple) and w[0] == 'cellv' and w[1] in NAMES:
                last.setdefault(w[1], set()).add(p)
        for c in x[1]:
            if c[0] == 'icmp' and isinstance(c[2], tuple):
                for a, b in ((c[2], c[3]), (c[3], c[2])):
                    if isinstance(a, tuple) and a[0] == 'acc' and isinstance(b, tuple) and b[0] == 'vsize':
                        off.add(a[1])
                    if isinstance(a, tuple) and a[0] == 'acc' and b == 0:
                        num.add(a[1])
            for p in kinds(c, 'pelv'):
                if isinstance(p[2], tuple) and p[2][0] == 'acc':
                    off.add(p[2][1])
    mine = {i.id for i in I.fn.blocks[h].insts if i.op == 'phi'}
    off &= mine
    num &= mine - off
    if len(off) != 1 or len(num) > 1:
        r.undecided('irregular sets', 'dscompress.cc: the offset in a block and its number were not recognised')
        return 0
    O, N = next(iter(off)), next(iter(num)) if num else None
    if I.init.get(O) != 0 or N is not None and I.init.get(N) != 0:
        r.undecided('irregular sets', 'dscompress.cc: the first values of the offset or the number of a block are not known')
        return 0
    count = {'new': 0, 'same': 0, 'first': 0, 'throw': 0}
    for kind, cons, inc, push, pc in recs:
        try:
            a = atoms(cons, K, O, N, last)
            for p, name in [(p, n) for n, l in last.items() for p in l]:
                if inc is not None and p in inc and inc[p][1] != ('cellv', name, K):
                    r.bad('irregular sets: last ' + name, '%s: %s is not always compared with that of the row before' % (pc.where if pc else 'dscompress.cc', name))
            for t in judge(kind, a, inc, push, O, N, K, count):
                r.bad('irregular sets: ' + t, 'main of dscompress.cc: ' + t)
            r.ok('row path %d' % (sum(count.values())))
        except Unclear as x:
            r.undecided('irregular sets', 'dscompress.cc: %s' % x)
    for k in ('T', 'F', 'D'):
        names = [n for n in NAMES if NAMES[n] == k]
        if not last.get(names[0]):
            r.bad('irregular sets: ' + names[0], 'main of dscompress.cc: a change of %s is not seen as the start of a block' % names[0])
    r.count('paths of a row in the check of the order', len(recs))
    # after the last row
    ends = set()
    for st in I.ends:
        if (('first',), 0) in st.obj:
            ends.add(after(st.cons, O))
    thr = {after(c, O) for k, c, _, _, _ in I.rec.get(None, []) if k == 'throw'} - {None}
    if None in ends:
        r.bad('irregular sets: last block', 'main of dscompress.cc: the last block is accepted whatever its size is')
    if False in ends:
        r.bad('irregular sets: last block', 'main of dscompress.cc: a last block of another size is accepted')
    if True in thr:
        r.bad('irregular sets: complete last block', 'main of dscompress.cc: a complete last block is refused')
    if ends == {True}:
        r.ok('last block')
    return len(recs)


def after(cons, O):
    """the last block is complete"""
    for c, v in cons.items():
        if isinstance(c, tuple) and c[0] == 'icmp' and c[1] == 'eq':
            for a, b in ((c[2], c[3]), (c[3], c[2])):
                if isinstance(b, tuple) and b[0] == 'vsize' and (isinstance(a, tuple) and a[0] == 'accp' and a[1] == O or a == 1):
                    return v
    return None


def atoms(cons, K, O, N, last):
    a = {}
    for c, v in cons.items():
        if not isinstance(c, tuple) or c[0] != 'icmp' or not any(True for t in ('cellv', 'acc', 'vsize', 'pelv') for _ in kinds(c, t)):
            continue
        if c[1] != 'eq':
            if c[1][-2:] not in ('lt', 'gt'):
                raise Unclear('a condition on rows is not understood')
            if v is not True:
                other = ('icmp', c[1], c[3], c[2])
                rev = ('icmp', c[1][0] + {'lt': 'gt', 'gt': 'lt'}[c[1][-2:]], c[2], c[3])
                if cons.get(other) is False or cons.get(rev) is False:
                    v = True
                else:
                    continue
            else:
                v = False
        x, y = c[2], c[3]
        name = None
        for p, q in ((x, y), (y, x)):
            if isinstance(p, tuple) and p[0] == 'cellv' and p[1] in NAMES and p[2] == K and isinstance(q, tuple) and q[0] == 'acc' and q[1] in last.get(p[1], ()):
                name = NAMES[p[1]]
            elif isinstance(p, tuple) and p[0] == 'cellv' and p[1] in ('ANTENNA1', 'ANTENNA2') and p[2] == K and isinstance(q, tuple) and q[0] == 'pelv':
                which = {0: 'ANTENNA1', 4: 'ANTENNA2'}[q[3]]
                if which != p[1]:
                    name = ('wrong', p[1], which)
                else:
                    name = (p[1][-1], 0 if q[2] == 0 else 'off' if q[2] == ('acc', O) else 'other')
            elif p == ('acc', O) and isinstance(q, tuple) and q[0] == 'vsize':
                name = 'S'
            elif p == 0 and isinstance(q, tuple) and q[0] == 'vsize':
                name = 'Z'
            elif N is not None and p == ('acc', N) and q == 0:
                name = 'B'
        if name is None:
            if any(True for _ in kinds(c, 'cellv')) or mentions(c, ('acc', O)):
                raise Unclear('a condition on rows is not understood')
            continue
        a[name] = v
    return a


def judge(kind, a, inc, push, O, N, K, count):
    new = any(a.get(x) is False for x in 'TFD')
    same = all(a.get(x) is True for x in 'TFD')
    wrong = [k for k in a if isinstance(k, tuple) and (k[0] == 'wrong' or k[1] == 'other')]
    where = 0 if new else 'off'
    ant = [a.get(('1', where)), a.get(('2', where))]
    first = not new and a.get('B') is True
    if wrong:
        yield 'antennas of a row are compared with those of another place in the first block'
        return
    if kind == 'throw':
        count['throw'] += 1
        if a.get('Z') is True:
            return
        ok = new and a.get('S') is False or not first and False in ant or not first and not new and a.get('S') is True
        if not ok:
            yield 'a regular measurement set is refused'
        return
    if not new and not same:
        miss = [n for n in NAMES if a.get(NAMES[n]) is None]
        yield 'a row counts as part of a block without a look at %s' % ' and '.join(miss)
        return
    if new:
        count['new'] += 1
        if a.get('S') is not True:
            yield 'a block that is smaller than the first one is accepted'
        want = {O: 1, N: ('accp', N, 1)}
    else:
        want = {O: ('accp', O, 1), N: ('acc', N)}
        count['first' if first else 'same'] += 1
    for p, w in want.items():
        if p is not None and p in inc and inc[p][1] != w:
            if inc[p][1] is None or inc[p][1] == ('u',):
                raise Unclear('the offset in a block or its number is not known')
            yield 'the %s is not kept (%s block)' % ('offset in a block' if p == O else 'number of the block', 'new' if new else 'same')
    if first:
        if len(push) != 1 or len(push[0][1]) != 1:
            yield 'a row of the first block is not remembered'
        else:
            v = push[0][1][0]
            if any(x == ('u',) for x in v):
                raise Unclear('antennas that are remembered are not known')
            if v != (('cellv', 'ANTENNA1', K), ('cellv', 'ANTENNA2', K)):
                yield 'other antennas than those of the row are remembered'
        return
    if push:
        yield 'a row of a later block is remembered as one of the first block'
    if None in ant or False in ant:
        yield 'a row is accepted without comparing both of its antennas'
    if not new and a.get('S') is not False:
        yield 'antennas are compared beyond the end of the first block'


def guarded(r, name):
    I = run()
    for k, w in I.und.items():
        r.undecided(name + ': ' + k, '%s: %s' % (w, k))
    return I


def p36(r):
    I = guarded(r, 'flags')
    for k, i in I.bad.items():
        if 'flag' in k or 'put into another' in k:
            r.bad('flags: ' + k, '%s: %s' % (getattr(i, 'where', 'dscompress.cc'), k))
    n = flags(r, I)
    r.count('ways through the program on which flags are applied', n)
    if not I.bad and not I.und:
        r.require(n >= 20, 'only %d ways through the program apply flags' % n)


def p23_rows(r):
    I = guarded(r, 'order of the rows')
    if I.und and not I.rec:
        return
    n = regular(r, I)
    if not I.bad and not I.und:
        r.require(n >= 8, 'only %d paths of a row were found' % n)
