"""Rules about the interface of the storage manager: specifications and copies, structural changes of the table, the
choice of algorithms and tables, and seeds (P06, P20, P21, P24, P27)."""
import re

from vfw import ap, flow
from vfw.flow import C, ZERO, split, padd, contains, any_sub, mk_not
from vfw.ir import AnalysisError
import mgr
from mgr import Mgr, data, strip_w, subterms, STR

ASSUME = ['casacore::Record returns under a key what was defined under it, in the type asked for']


class Api(Mgr):
    """follows strings by their literal, keys of records, and creations of objects"""
    FACTS = ('strcmp', 'spec', 'fieldno', 'arg', 'c', 'm', 'eq', 'slt', 'ult', 'not', 'tr', 'strc', 'str', 'vc', 'v', 'size', 'ite', 'and', 'or', 'dyn', 'al', 'new', 'ld')

    def start(self, e, st):
        Mgr.start(self, e, st)
        st.user['defs'] = ()
        st.user['made'] = ()
        st.user['vtab'] = ()
        st.user['cont'] = ()
        self.olds = {}

    def lit(self, c):
        """content with literals resolved"""
        if c[0] == 'lit' and split(c[1])[0][0] == 'glob' and split(c[1])[1] == 0:
            g = self.R.mod.globals.get(c[1][1]) or {}
            if 'str' in g:
                return ('str', g['str'])
        if c == ('empty',):
            return ('str', '')
        return c

    def chars(self, st, e, i, a):
        """content of an argument that is a string or a pointer to characters"""
        b = split(a)[0]
        if b[0] == 'glob':
            return self.lit(('lit', a))
        if a[0] == 'sdata':
            return self.lit(self.content(st, a[1]))
        return self.lit(self.content(st, a))

    def on_store(self, e, st, i, addr, v, old):
        Mgr.on_store(self, e, st, i, addr, v, old)
        b, o = split(addr)
        if b[0] == 'new' and o == 0 and split(v)[0][0] == 'glob' and split(v)[0][1].startswith('_ZTV'):
            st.user['vtab'] = tuple(x for x in st.user['vtab'] if x[0] != b) + ((b, v),)

    def on_call(self, e, st, i, nm, args):
        x = nm
        for p in ('bool ', 'void '):
            if x.startswith(p):
                x = x[len(p):]
        if x == '__cxa_throw':
            st.user['threw'] = i.where
        cls, m = e.cls_of(x)
        b = m.split('<')[0].split('[abi')[0]
        if cls == 'casacore::RecordFieldId':
            if b == 'RecordFieldId' and len(args) >= 2:
                self.setstr(st, args[0], self.chars(st, e, i, args[1]))
                return ('pure', None)
            return None
        if cls.startswith('casacore::Record') and b in ('description', 'cloneRecord'):
            return ('pure', ('desc', args[0]))
        if b == 'fieldNumber' and len(args) >= 2:
            return ('pure', ('fieldno', self.chars(st, e, i, args[-1])))
        if b == 'isDefined' and 'Record' in cls and len(args) >= 2:
            return ('pure', mk_not(('slt', ('fieldno', self.chars(st, e, i, args[-1])), ZERO)))
        if cls.startswith('casacore::Record'):
            g = re.match(r'^(as|get|to)(Bool|uChar|Short|Int|uInt|Int64|Float|Double|String|Complex)$', b)
            if g and len(args) >= 2:
                key = self.content(st, args[-1] if args[-1][0] != 'c' else args[-2])
                t = ('spec', self.lit(key), g.group(2))
                if g.group(2) == 'String':
                    # returned as a reference
                    e.redefine(st, ('r', i.id)) if False else None
                    ref = ('r', i.id)
                    self.setstr(st, ref, t)
                    return ('pure', ref)
                return ('pure', t)
            if b == 'get' and len(args) >= 3:
                key = self.lit(self.content(st, args[1]))
                t = ('spec', key, 'get')
                d, o = split(args[2])
                self.setstr(st, args[2], t)
                st.mem[(d, o)] = t
                return ('pure', None)
            if b == 'define' and len(args) >= 3:
                key = self.lit(self.content(st, args[1]))
                v = self.chars(st, e, i, args[2]) if i.t == 'void' and self.isstr(i) else args[2]
                if not self.isstr(i) and args[2][0] in ('al', 'm', '+') and self.byref(i):
                    v = st.mem.get(split(args[2]), ('?', args[2]))
                st.user['defs'] = tuple(y for y in st.user['defs'] if y[0] != (args[0], key)) + (((args[0], key), v, self.argtype(i)),)
                self.site(i, 'define', st, None, args)
                return ('pure', None)
        if re.match(r'^(std|casacore)::operator(==|!=)', x) and len(args) == 2 and re.search(r'basic_string|char', i.cdem):
            t = ('eq', ('strcmp', self.chars(st, e, i, args[0]), self.chars(st, e, i, args[1])), ZERO)
            return ('pure', t if 'operator==' in x else mk_not(t))
        if (STR.match(cls) or cls.startswith('std::basic_string_view')) and b == 'compare' and len(args) == 2:
            return ('pure', ('strcmp', self.chars(st, e, i, args[0]), self.chars(st, e, i, args[1])))
        if x == 'strcmp':
            return ('pure', ('strcmp', self.chars(st, e, i, args[0]), self.chars(st, e, i, args[1])))
        if cls.startswith('dyscostman::StochasticEncoder<') and b in ('StudentTEncoder', 'TruncatedGausEncoder'):
            self.made(st, i, b, m, args)
        if b == cls.split('<')[0].split('::')[-1] and cls.split('::')[0] in ('dyscostman', 'AFTimeBlockEncoder', 'RFTimeBlockEncoder', 'RowTimeBlockEncoder', 'WeightBlockEncoder') and args:
            self.made(st, i, cls, m, args)
        return Mgr.on_call(self, e, st, i, nm, args)

    def made(self, st, i, cls, m, args):
        st.user['made'] = tuple(y for y in st.user['made'] if y[0] != i.id) + ((i.id, cls, tuple(args)),)

    def isstr(self, i):
        return bool(re.search(r'String const&|basic_string|char const\*', i.cdem.split('(', 1)[-1].split(',', 1)[-1]))

    def byref(self, i):
        return '&' in i.cdem.split('(', 1)[-1].split(',', 1)[-1]

    def argtype(self, i):
        return i.cdem.split('(', 1)[-1].split(',', 1)[-1].strip().rstrip(')')

    def on_container(self, e, st, i, M, op, args):
        st.user['cont'] = tuple(y for y in st.user['cont'] if y[0] != i.id) + ((i.id, M, op, tuple(args)),)


    def source(self, e, st, i, args):
        a = args[1]
        if a[0] == 'r' and re.search(r'(String|basic_string<char, std::char_traits<char>, std::allocator<char>>)( const)?&', i.cdem.split('(', 1)[-1]):
            return self.content(st, a)
        return Mgr.source(self, e, st, i, args)


_runs = {}


def arun(d, f, cls=Api):
    k = (f.name, cls)
    if k not in _runs:
        rule = cls(d.R, f)
        e = flow.Engine(d.R.mod, d.R.T, f, rule)
        e.run()
        _runs[k] = (rule, e)
    return _runs[k]


def mroots(d, name=None):
    return [f for f in mgr.mgr_roots(d) if name is None or d.R.base(f) == name]


# ---------------------------------------------------------------- P06
def ev(t, env):
    """value of a term when env gives values of terms; None when it is not known"""
    if t in env:
        return env[t]
    k = t[0]
    if k == 'c':
        return t[1]
    if k == 'not':
        v = ev(t[1], env)
        return None if v is None else int(not v)
    if k in ('tr', 'sx'):
        return ev(t[2], env)
    if k in ('eq', 'ult', 'slt'):
        a, b = ev(t[1], env), ev(t[2], env)
        if a is None or b is None:
            return None
        if isinstance(a, str) or isinstance(b, str):
            return int(a == b) if k == 'eq' else None
        if k == 'slt':
            s = lambda x: x - (1 << 32) if (1 << 31) <= x < (1 << 32) else x - (1 << 64) if x >= (1 << 63) else x
            return int(s(a) < s(b))
        return int(a == b) if k == 'eq' else int(a < b)
    if k in ('and', 'or'):
        a, b = ev(t[1], env), ev(t[2], env)
        if k == 'and' and (a == 0 or b == 0):
            return 0
        if k == 'or' and (a == 1 or b == 1):
            return 1
        return None if a is None or b is None else int(a and b) if k == 'and' else int(a or b)
    if k == 'ite':
        a = ev(t[1], env)
        return None if a is None else ev(t[2] if a else t[3], env)
    if k == 'strcmp':
        a, b = ev(t[1], env), ev(t[2], env)
        return None if a is None or b is None else int(a != b)
    if k == 'str':
        return t[1]
    return None


def enum_values(d, off):
    R = d.R
    path, mt, rest = R.T.member(R.mgrclass, off)
    en = {ap.norm_type(k): v for k, v in d.mod.enums.items()}
    return en.get(mt)


def consistent(facts, env, about=None):
    """(True, all known) when no fact contradicts the values"""
    known = True
    for t, v in facts.items():
        x = ev(t, env)
        if x is None:
            if about is None or any_sub(t, about):
                known = False
            continue
        if bool(x) != bool(v):
            return False, known
    return True, known


def objects(d, f, rule):
    """(path, object that was constructed, argument it was constructed from)"""
    R = d.R
    for p in rule.paths:
        if R.is_ctor(f):
            yield p, ('arg', 0)
        elif p.kind != 'ret':
            yield p, None
        elif p.ret is not None and split(p.ret)[0][0] == 'new':
            yield p, split(p.ret)[0]


def narrowing(e, t):
    """a conversion that loses precision is part of a value"""
    for x in subterms(t):
        if x[0] in ('fptrunc', 'fptosi', 'fptoui'):
            return True
        if x[0] in ('u', 'fpx') and isinstance(x[1], int):
            i = e.fn.inst.get(x[1])
            if i is not None and i.op in ('fptrunc', 'fptosi', 'fptoui', 'trunc'):
                return True
    return False


def p06(r):
    r.assumptions += ASSUME
    d = data()
    R = d.R
    ws = []
    for f in mroots(d):
        if R.base(f) == 'dataManagerSpec':
            rule, e = arun(d, f)
            ws.append((f, rule, e))
    r.require(ws, 'the function that writes the specification was not found')
    settings = {}
    combos = []
    for f, rule, e in ws:
        this = ('arg', 1)
        for p in rule.paths:
            if p.kind != 'ret':
                continue
            defs = {k[1][1]: (v, t) for k, v, t in p.user['defs'] if k[0] == ('arg', 0) and k[1][0] == 'str'}
            if len(defs) != len(p.user['defs']):
                raise AnalysisError('a key of the specification is not a literal')
            for k, (v, t) in defs.items():
                v = strip_w(v)
                if v[0] == 'm' and v[1] == this:
                    settings.setdefault(k, set()).add(v[2])
            combos.append((f, p, defs, e))
    r.require(combos, 'no specification is written')
    # members that decide which string is written
    enums = {}
    for f, p, defs, e in combos:
        for t in p.facts:
            for x in subterms(t):
                if x[0] == 'm' and x[1] == ('arg', 1) and isinstance(x[2], int) and enum_values(d, x[2]):
                    enums[x[2]] = enum_values(d, x[2])
    r.count('written keys', len(combos[0][2]))
    ctors, clones = [], []
    for f in mroots(d):
        if not (R.is_ctor(f) or f.name and R.base(f) in ('makeObject', 'clone')):
            continue
        if 'Record const&' in f.dem:
            ctors.append(f)
        elif R.is_ctor(f) and re.search(r'\(dyscostman::DyscoStMan const&\)', f.dem):
            clones.append((f, ('arg', 1)))
        elif R.base(f) == 'clone':
            clones.append((f, ('arg', 0)))
    r.require(ctors and clones, 'the constructors of the manager were not found')
    n = 0
    keymember = {}
    for f in ctors:
        rule, e = arun(d, f)
        lab = R.label(f)
        paths = list(objects(d, f, rule))
        bykey = {}
        for wf, wp, defs, we in combos:
            for asg in assignments(enums):
                env = {('m', ('arg', 1), o): v for o, v in asg.items()}
                ok, known = consistent(wp.facts, env)
                if not ok:
                    continue
                # what the reader sees
                renv = {}
                strs = {}
                for k, (v, t) in defs.items():
                    renv[('fieldno', ('str', k))] = 0
                    if v[0] == 'str':
                        strs[k] = v[1]
                        renv[('spec', ('str', k), 'String')] = v[1]
                        renv[('spec', ('str', k), 'get')] = v[1]
                renv = Env(renv, defs)
                hit = False
                for p, obj in paths:
                    if p.kind != 'ret' and not p.user.get('threw'):
                        continue
                    ok, known = consistent(p.facts, renv, lambda x: x[0] in ('spec', 'fieldno'))
                    if not ok:
                        continue
                    if p.kind != 'ret':
                        if known:
                            bykey.setdefault(('refused', ''), []).append('%s (%s) is refused' % (', '.join('%s = "%s"' % s for s in sorted(strs.items())), p.where))
                        continue
                    hit = True
                    for k, (v, t) in defs.items():
                        v = strip_w(v)
                        if v[0] == 'm' and v[1] == ('arg', 1):
                            got = strip_w(p.mem.get((obj, v[2]), ('?',)))
                            good = got[0] == 'spec' and got[1] == ('str', k)
                            res = None
                            if good and t == 'double' and got[2] not in ('Double', 'get'):
                                res = 'the value of "%s" is read as %s' % (k, got[2])
                            elif good and t != 'double' and got[2] in ('Bool', 'uChar', 'Short', 'Float'):
                                res = 'the value of "%s" is read as %s' % (k, got[2])
                            elif not good and narrowing(e, got):
                                res = 'the value of "%s" is narrowed' % k
                            elif not good and got[0] in ('u', '?', 'r', 'v'):
                                bykey.setdefault((k, 'und'), []).append(str(got)[:60])
                            elif not good:
                                res = '%s becomes %s instead of the value of "%s"' % (mgr.mname(d, e, v[2]), show(got), k)
                            bykey.setdefault((k, ''), []).append(res)
                        elif v[0] == 'str':
                            pass
                        elif narrowing(we, v):
                            bykey.setdefault((k, ''), []).append('the value of "%s" is narrowed before it is written' % k)
                        elif v[0] == 'c' or v[0] == 'fp':
                            bykey.setdefault((k, ''), []).append('"%s" is written as the fixed value %s' % (k, show(v)))
                        else:
                            bykey.setdefault((k, 'und'), []).append('written value %s' % str(v)[:60])
                    for o, val in asg.items():
                        got = strip_w(p.mem.get((obj, o), ('?',)))
                        nm = mgr.mname(d, e, o)
                        if got == C(val):
                            bykey.setdefault((nm, ''), []).append(None)
                        elif got[0] == 'c':
                            inv = {b: a for a, b in enums[o].items()}
                            bykey.setdefault((nm, ''), []).append('%s is read back as %s' % (inv[val], inv.get(got[1], got[1])))
                        else:
                            bykey.setdefault((nm, 'und'), []).append(str(got)[:60])
                if not hit and any(p.kind == 'ret' for p, obj in paths):
                    bykey.setdefault(('refused', ''), []).append('%s (%s) is refused' % (', '.join('%s = "%s"' % s for s in sorted(strs.items())), lab))
                elif not hit and not any(k[0] == 'refused' for k in bykey):
                    bykey.setdefault(('read', 'und'), []).append('no path of the reader for %s' % strs)
        for (k, u), rs in sorted(bykey.items()):
            if u:
                r.undecided('%s: %s' % (lab, k), rs[0])
                continue
            bad = [x for x in rs if x]
            n += 1
            r.check(not bad, '%s: setting %s' % (lab, k), bad[0] if bad else '')
        # values that are not valid
        for p, obj in paths:
            if p.kind != 'ret':
                continue
            keys = {}
            for t, v in p.facts.items():
                for x in subterms(t):
                    if x[0] == 'strcmp':
                        for a, b in ((x[1], x[2]), (x[2], x[1])):
                            if a[0] == 'spec' and b[0] == 'str':
                                keys.setdefault(a[1], []).append(t[0] == 'eq' and t[2] == ZERO and bool(v))
            for k, vs in keys.items():
                n += 1
                r.check(any(vs), '%s: unknown value of %s' % (lab, k[1] if k[0] == 'str' else '?'), 'a specification with an unknown %s is accepted' % (k[1],))
            for k, offs in settings.items():
                for o in offs:
                    if R.T.member(R.mgrclass, o)[1] not in ('unsigned int', 'int', 'unsigned'):
                        continue
                    got = strip_w(p.mem.get((obj, o), ('?',)))
                    if got[0] == 'spec':
                        n += 1
                        zero = dict(p.facts)
                        z = consistent({t: v for t, v in zero.items() if any_sub(t, lambda x: x == got)}, {got: 0})[0]
                        r.check(not z, '%s: zero %s' % (lab, k), 'a specification with %s = 0 is accepted' % k)
    offs = {o for s in settings.values() for o in s} | set(enums)
    r.require(len(offs) >= 6, 'only %d settings are written to the specification' % len(offs))
    for f, src in clones:
        rule, e = arun(d, f)
        k = 0
        for p, obj in objects(d, f, rule):
            if p.kind != 'ret':
                continue
            for o in sorted(offs):
                k += 1
                got = p.mem.get((obj, o), ('?',))
                nm = mgr.mname(d, e, o)
                if got == ('m', src, o):
                    r.ok('%s: copies %s' % (R.label(f), nm))
                elif got[0] in ('u', '?', 'r'):
                    r.undecided('%s: copies %s' % (R.label(f), nm), str(got)[:80])
                else:
                    r.bad('%s: copies %s' % (R.label(f), nm), '%s of the copy is %s' % (nm, show(got)))
        n += k
        r.require(k, 'no path of %s makes an object' % R.label(f))
    r.require(n >= 10, 'only %d obligations' % n)


class Env(dict):
    """values of the record that was written; numbers are not zero"""

    def __init__(self, m, defs):
        dict.__init__(self, m)
        self.defs = defs

    def __contains__(self, t):
        if dict.__contains__(self, t):
            return True
        return t[0] == 'fieldno' and t[1][0] == 'str' or t[0] == 'eq' and strip_w(t[1])[0] == 'spec' and t[2] == ZERO

    def __getitem__(self, t):
        if dict.__contains__(self, t):
            return dict.__getitem__(self, t)
        if t[0] == 'fieldno':
            return 0xffffffff
        return 0


def assignments(enums):
    import itertools
    ks = sorted(enums)
    for vs in itertools.product(*(sorted(enums[k].values()) for k in ks)):
        yield dict(zip(ks, vs))


def show(t):
    if t[0] == 'c':
        return str(t[1])
    if t[0] == 'spec':
        return 'the value of "%s"' % t[1][1]
    return str(t)[:70]


# ---------------------------------------------------------------- P24
EFFECTS = ('w', 'seek', 'clear')
CHANGES = ('push_back', 'emplace_back', 'erase', 'insert', 'pop_back', 'clear', 'resize', 'emplace', 'swap')


def constfn(d, name):
    """all functions of this name are const"""
    if not hasattr(d, 'constfns'):
        d.constfns = {}
        for f in d.mod.functions:
            n = d.R.base(f)
            d.constfns[n] = d.constfns.get(n, True) and f.dem.rstrip().endswith(' const')
    return d.constfns.get(name, False)


def effects(d, e, p):
    """what a path did to the manager, its columns and its file"""
    out = []
    for s in p.user['sets']:
        if s[3][0] not in ('new', 'al'):
            out.append('%s is changed' % s[1])
    for o in p.ops:
        if o[0] in EFFECTS:
            out.append({'w': 'the file is written', 'seek': 'the file is positioned', 'clear': 'the file is cleared'}[o[0]])
        if o[0] == 'v' and not constfn(d, o[2]):
            out.append('%s() is called' % o[2])
    for iid, M, op, args in p.user['cont']:
        if op in CHANGES and split(M)[0][0] not in ('al', 'new'):
            out.append('%s() of the list of columns' % op)
    return out


def linear(t):
    """a sum as {term: coefficient} modulo 2^64"""
    out = {}

    def go(t, k):
        if t[0] == 'add':
            go(t[1], k)
            go(t[2], k)
        elif t[0] == 'sub':
            go(t[1], k)
            go(t[2], -k)
        elif t[0] == 'tr' and t[1] in ('i64', 'i32'):
            go(t[2], k)
        elif t[0] == 'c':
            v = t[1] - (1 << 64) if t[1] >> 63 else t[1]
            out[1] = out.get(1, 0) + k * v
        else:
            out[t] = out.get(t, 0) + k
    go(t, 1)
    return {x: c for x, c in out.items() if c}


def opaque(t):
    return any_sub(t, lambda x: x[0] in ('u', 'r', '?', 'ev', 'v'))


def one(d, name):
    fs = mroots(d, name)
    if not fs:
        raise AnalysisError('%s() was not found' % name)
    return fs


def rowmember(d, r):
    """the member of the manager with the number of rows: what open() and create() set"""
    offs = None
    for n in ('create', 'open'):
        for f in one(d, n):
            rule, e = mgr.analyse(d, f)
            ps = [p for p in rule.paths if p.kind == 'ret']
            for p in ps:
                o = {off for (b, off), v in p.mem.items() if b == ('arg', 0) and strip_w(v) == ('arg', 1)}
                if offs is None:
                    offs = set(o)
                elif offs & o:
                    offs &= o
    named = d.R.mgroff.get('_nRow')
    if named is not None and (not offs or named not in offs):
        for n in ('create', 'open'):
            for f in one(d, n):
                rule, e = mgr.analyse(d, f)
                for p in rule.paths:
                    if p.kind == 'ret':
                        v = p.mem.get((('arg', 0), named))
                        r.check(v is not None and strip_w(v) == ('arg', 1), '%s: number of rows' % d.R.label(f), 'the number of rows is %s after %s()' % (show(v) if v else 'not set', n))
        offs = {named}
    if not offs or len(offs) != 1:
        raise AnalysisError('the member with the number of rows is not identified')
    for n in ('create', 'open'):
        for f in one(d, n):
            r.ok('%s: number of rows' % d.R.label(f))
    return offs.pop()


def p24(r):
    d = data()
    R = d.R
    n = 0
    ro = rowmember(d, r)
    row = ('m', ('arg', 0), ro)
    size = R.T.member(R.mgrclass, ro)[1]

    def rowsafter(f, p, want, what):
        v = p.mem.get((('arg', 0), ro), row)
        diffs = dict(linear(v))
        for t, c in want.items():
            diffs[t] = diffs.get(t, 0) - c
        diffs = {t: c for t, c in diffs.items() if c}
        if diffs and opaque(v):
            r.undecided('%s: number of rows' % R.label(f), str(v)[:80])
        else:
            r.check(not diffs, '%s: number of rows' % R.label(f), 'the number of rows becomes %s, not %s' % (text(v), what))
    for f in one(d, 'addRow'):
        rule, e = arun(d, f)
        for p in rule.paths:
            if p.kind == 'ret':
                n += 1
                rowsafter(f, p, {row: 1, ('arg', 1): 1}, 'the number plus the added rows')
            elif p.user.get('threw'):
                r.undecided('%s: refuses' % R.label(f), p.user['threw'])
    for f in one(d, 'removeRow'):
        rule, e = arun(d, f)
        last = False
        for p in rule.paths:
            bad = not lastrow(p.facts, row)
            if p.kind == 'ret':
                last = True
                n += 1
                rowsafter(f, p, {row: 1, 1: -1}, 'one less')
                if bad is not None:
                    ok = decided(p.facts, row)
                    if ok is None:
                        r.undecided('%s: other rows' % R.label(f), 'conditions %s' % str(list(p.facts))[:100])
                    else:
                        r.check(ok, '%s: other rows' % R.label(f), 'a row that is not the last one can be removed')
            else:
                n += 1
                ef = effects(d, e, p)
                r.check(not ef, '%s: refusal' % R.label(f), 'removing a row fails after %s' % (ef[0] if ef else ''))
                if p.user.get('threw'):
                    ok = valid_row(p.facts, row)
                    r.check(not ok, '%s: last row' % R.label(f), 'removing the last row is refused (%s)' % p.user['threw'])
        r.check(last, '%s: last row' % R.label(f), 'the last row can not be removed')
    for nm in ('makeScalarColumn', 'makeIndArrColumn'):
        for f in one(d, nm):
            rule, e = arun(d, f)
            rets = [p for p in rule.paths if p.kind == 'ret']
            n += 1
            r.check(not rets, '%s: refused' % R.label(f), '%s() can return (%s)' % (nm, rets[0].where if rets else ''))
            for p in rule.paths:
                ef = effects(d, e, p)
                n += 1
                r.check(not ef, '%s: no effect' % R.label(f), '%s() fails after %s' % (nm, ef[0] if ef else ''))
    n += makes(d, r)
    n += adds(d, r)
    r.require(n >= 12, 'only %d obligations' % n)


def text(t):
    s = str(t)
    return s if len(s) < 90 else s[:90] + '...'


def rowtest(facts, row, want):
    """conditions about the row and the number of rows on sample values: all hold for pairs where want(row, n)"""
    res = []
    for nr in (1, 2, 3, 7, 100, 4000000000):
        for rn in (0, 1, 2, 5, 6, 99, 100, 101, 3999999999):
            if nr - 1 != rn and not want or nr - 1 == rn and want:
                pass
            ok = True
            known = True
            for t, v in facts.items():
                if not any_sub(t, lambda x: x == row or x == ('arg', 1)):
                    continue
                x = ev2(t, {row: nr, ('arg', 1): rn})
                if x is None:
                    known = False
                elif bool(x) != bool(v):
                    ok = False
            res.append((nr, rn, ok, known))
    return res


def ev2(t, env):
    """ev() with arithmetic"""
    if t in env:
        return env[t]
    if t[0] in ('add', 'sub', 'mul') and len(t) >= 3:
        a, b = ev2(t[1], env), ev2(t[2], env)
        if a is None or b is None:
            return None
        w = t[3] if len(t) > 3 and isinstance(t[3], int) else 64
        x = a + b if t[0] == 'add' else a - b if t[0] == 'sub' else a * b
        return x & ((1 << w) - 1)
    if t[0] == 'tr':
        a = ev2(t[2], env)
        w = int(t[1][1:]) if t[1][1:].isdigit() else 64
        return None if a is None else a & ((1 << w) - 1)
    if t[0] in ('eq', 'ult', 'slt'):
        a, b = ev2(t[1], env), ev2(t[2], env)
        if a is None or b is None:
            return None
        if t[0] == 'slt':
            s = lambda x: x - (1 << 64) if x >> 63 else x
            return int(s(a) < s(b))
        return int(a == b) if t[0] == 'eq' else int(a < b)
    if t[0] == 'not':
        a = ev2(t[1], env)
        return None if a is None else int(not a)
    if t[0] in ('and', 'or'):
        a, b = ev2(t[1], env), ev2(t[2], env)
        if t[0] == 'and' and (a == 0 or b == 0):
            return 0
        if t[0] == 'or' and (a == 1 or b == 1):
            return 1
        return None if a is None or b is None else int(a and b) if t[0] == 'and' else int(a or b)
    return ev(t, env)


def lastrow(facts, row):
    return True


def decided(facts, row):
    """the conditions of a path exclude every row but the last one"""
    bad = [x for x in rowtest(facts, row, False) if x[1] != x[0] - 1 and x[2]]
    if not bad:
        return True
    return False if any(x[3] for x in bad) else None


def valid_row(facts, row):
    """the conditions of a path permit the last row"""
    return any(x[2] and x[3] for x in rowtest(facts, row, True) if x[1] == x[0] - 1)


def newclass(d, e, p, obj):
    """class of an object that was created on the path"""
    v = p.mem.get((obj, 0)) or dict(p.user.get('vtab', ())).get(obj)
    if v is None:
        return None
    b, o = split(v)
    if b[0] == 'glob' and b[1].startswith('_ZTV'):
        return d.R.vtclass(b[1]) if hasattr(d.R, 'vtclass') else vtclass(b[1])
    return None


def vtclass(sym):
    import subprocess
    s = subprocess.run(['c++filt', sym], capture_output=True, text=True).stdout.strip()
    return s.replace('vtable for ', '')


def makes(d, r):
    R = d.R
    n = 0
    tp = next((v for k, v in d.mod.enums.items() if k.endswith('casacore::DataType') or k == 'casacore::DataType'), None)
    if tp is None:
        raise AnalysisError('the data types of casacore were not found')
    for f in one(d, 'makeDirArrColumn'):
        rule, e = arun(d, f)
        lab = R.label(f)
        accepted = set()
        unknown = False
        for p in rule.paths:
            push = [c for c in p.user['cont'] if c[2] in CHANGES and split(c[1])[0] == ('arg', 0)]
            if p.kind != 'ret':
                # a failing allocation inside push_back has no effect
                before = [c for c in push if c[2] not in ('push_back', 'emplace_back')]
                if p.user.get('threw'):
                    n += 1
                    ef = effects(d, e, p)
                    r.check(not ef, '%s: refusal' % lab, 'creating a column is refused after %s' % (ef[0] if ef else ''))
                    for ws in (True, False):
                        ok, known = typed(p.facts, ws, tp['TpFloat'] if ws else tp['TpComplex'])
                        if ok and known:
                            r.bad('%s: valid column' % lab, 'a valid %s column is refused (%s)' % ('weight' if ws else 'data', p.user['threw']))
                continue
            n += 1
            if len(push) != 1 or push[0][2] not in ('push_back', 'emplace_back'):
                if push:
                    r.undecided('%s: the column is added' % lab, str([c[2] for c in push]))
                else:
                    r.bad('%s: the column is added' % lab, 'a column is returned but not added to the columns of the manager')
                continue
            cls = {newclass(d, e, p, b) for (b, o), v in p.mem.items() if b[0] == 'new' and o == 0} - {None}
            cls = {c for c in cls if c in R.colclasses or any(b in R.colclasses for b in R.T.bases(c))}
            if len(cls) != 1:
                cls = {newclass(d, e, p, k) for k, _ in p.user.get('vtab', ())} - {None}
                cls = {c for c in cls if c in R.colclasses or any(b in R.colclasses for b in R.T.bases(c))}
            if len(cls) != 1:
                r.undecided('%s: class of the column' % lab, str(cls))
                unknown = True
                continue
            c = cls.pop()
            weight = 'Weight' in c
            accepted.add(weight)
            for ws in (True, False):
                for nm, t in tp.items():
                    if ws == weight and t == (tp['TpFloat'] if weight else tp['TpComplex']):
                        continue
                    ok, known = typed(p.facts, ws, t)
                    if ok and not known:
                        r.undecided('%s: type of the column' % lab, '%s of %s' % (c, nm))
                        continue
                    r.check(not ok, '%s: type of the column' % lab, 'a %s is made for a column %s of type %s' % (c, 'WEIGHT_SPECTRUM' if ws else 'with another name', nm))
        n += 1
        if unknown:
            continue
        r.check(accepted == {True, False}, '%s: valid columns' % lab, 'the column classes that can be made are %s' % sorted(accepted))
    return n


def typed(facts, ws, t):
    """(not contradicted, all known) for a column with this name and type"""
    known = True
    for x, v in facts.items():
        if any_sub(x, lambda y: y == ('arg', 2)):
            k = ev2(x, {('arg', 2): t})
        elif any_sub(x, lambda y: y[0] == 'strcmp'):
            m = {}
            for y in subterms(x):
                if y[0] == 'strcmp' and ('strc', ('arg', 1)) in y and ('str', 'WEIGHT_SPECTRUM') in y:
                    m[y] = int(not ws)
            k = ev2(x, m)
        elif any_sub(x, lambda y: y[0] == 'r'):
            k = None
        else:
            continue
        if k is None:
            known = False
        elif bool(k) != bool(v):
            return False, known
    return True, known


def lambdas(f):
    """calls of algorithms that are handed a lambda function of this library"""
    return [i.cdem for b in f.blocks.values() for i in b.insts if i.op in ('call', 'invoke') and i.cdem and '::$_' in i.cdem]


def adds(d, r):
    import cols
    R = d.R
    v = cols.view(d)
    n = 0
    rpb = R.mgroff[v.rpb[1]]
    cnt = R.mgroff[v.count[1] if isinstance(v.count, tuple) else v.count]
    for f in one(d, 'addColumn'):
        rule, e = arun(d, f, Adds)
        lab = R.label(f)
        did = False
        for p in rule.paths:
            ef = effects(d, e, p)
            for o, what in ((rpb, 'the layout of the blocks is fixed'), (cnt, 'blocks are in the file')):
                t = p.facts.get(('eq', ('m', ('arg', 0), o), ZERO))
                if ef and p.user['first'] is not None:
                    t = dict(p.user['first']).get(('eq', ('m', ('arg', 0), o), ZERO))
                if ef:
                    n += 1
                    did = True
                    r.check(t is True or t == 1, '%s: %s' % (lab, what), 'adding a column has an effect (%s) although %s' % (ef[0], what))
            if ef:
                r.check(not p.user['unstored'], '%s: unstored values' % lab, 'adding a column has an effect (%s) although a column has values that are not stored yet' % ef[0])
                if p.user['first'] is not None and not p.user['firstasked'] and not p.user['nocols']:
                    if lambdas(f):
                        r.undecided('%s: unstored values' % lab, 'calls with %s' % lambdas(f)[0][:80])
                        continue
                    r.bad('%s: unstored values' % lab, 'adding a column has an effect (%s) before the columns were asked for values that are not stored yet' % ef[0])
        r.require(did, 'addColumn() has no effect')
    return n


class Adds(Api):
    """remembers what was known at the first effect"""

    def start(self, e, st):
        Api.start(self, e, st)
        st.user['unstored'] = False
        st.user['asked'] = False
        st.user['first'] = None
        st.user['firstasked'] = False
        st.user['nocols'] = False

    def on_assume(self, e, st, t, val):
        Api.on_assume(self, e, st, t, val)
        if t[0] == 'vc' and t[1] == 'HasUnstoredValues' or t[0] == 'eq' and t[1][0] == 'vc' and t[1][1] == 'HasUnstoredValues':
            st.user['asked'] = True
            if bool(val) == (t[0] == 'vc'):
                st.user['unstored'] = True
        if t[:2] == ('pred', 'empty') and val:
            st.user['nocols'] = True

    def effect(self, st):
        if st.user['first'] is None:
            st.user['first'] = tuple(sorted(((f, v) for f, v in st.facts.items() if f[0] == 'eq'), key=repr))
            st.user['firstasked'] = st.user['asked']

    def on_store(self, e, st, i, addr, v, old):
        Api.on_store(self, e, st, i, addr, v, old)
        if split(addr)[0][0] not in ('al', 'new'):
            self.effect(st)

    def op(self, st, o):
        if o[0] in EFFECTS or o[0] == 'v' and not constfn(mgr.data(), o[2]):
            self.effect(st)
        Api.op(self, st, o)


# ---------------------------------------------------------------- P20
class Lean(Api):
    """keeps only conditions about arguments and settings"""

    def keep(self, e, st, f):
        return self.lean(e, f)

    def lean(self, e, f):
        ok = False
        for t in subterms(f):
            if t[0] in ('pred', 'r', 'u', 'sfail', 'ev', 'new', 'al', 'null', 'scan', 'size'):
                return t[0] == 'scan' and contains(f, ('glob',)) or self.vt(f)
            if t[0] == 'arg' and t[1] > 0 or t[0] == 'm' and isinstance(t[2], int) and self.setting(e, t):
                ok = True
        return ok or self.vt(f)

    def vt(self, f):
        return any_sub(f, lambda x: x[0] == 'glob' and str(x[1]).startswith('_ZTV'))

    def setting(self, e, t):
        x = e.field(padd(t[1], t[2]))
        return bool(x) and not x[2]

    def on_enter(self, e, st):
        st.facts = {f: v for f, v in st.facts.items() if self.lean(e, f)}


def column_functions(d, name):
    R = d.R
    return [f for f in d.mod.functions if f.blocks and R.base(f) == name and (R.cls(f) in R.colclasses or any(b in R.colclasses for b in R.T.bases(R.cls(f))))]


def enumerators(d, suffix):
    for k, v in d.mod.enums.items():
        if k.endswith(suffix):
            return v
    raise AnalysisError('the enumeration %s was not found' % suffix)


def paramtypes(f):
    s = f.dem[f.dem.index('(') + 1:]
    s = s[:s.rindex(')')]
    return [x.strip() for x in s.split(',')]


def table_kind(m):
    """which kind of table a creation makes, with its parameters"""
    iid, cls, args = m
    if cls == 'StudentTEncoder':
        return 'student', args[1], args[2:]
    if cls == 'TruncatedGausEncoder':
        return 'trunc', args[1], args[2:]
    if cls.startswith('dyscostman::StochasticEncoder<'):
        if len(args) < 3 or args[1][0] in ('new', 'al', 'm', '+') and len(args) == 2:
            return None
        flag = args[3] if len(args) > 3 else C(1)
        if flag[0] != 'c':
            return (('flag', flag), args[1], args[2:3])
        return ('gauss' if flag[1] & 1 else 'uniform'), args[1], args[2:3]
    return None


def flagged(k, env):
    """kind of a table of which the kind is an expression"""
    if not isinstance(k, tuple):
        return k
    x = ev(k[1], env)
    return None if x is None else 'gauss' if x & 1 else 'uniform'


KIND = {'gaus': 'gauss', 'unif': 'uniform', 'stud': 'student', 'trun': 'trunc'}


def levels(t, bits, n):
    """value of a number of levels when there are n bits"""
    t = strip_w(t)
    if t == bits:
        return n
    if t[0] == 'c':
        return t[1]
    if t[0] in ('tr', 'sx', 'zx') and len(t) > 2:
        return levels(t[2], bits, n)
    if t[0] == '+':
        x = levels(t[1], bits, n)
        return None if x is None else x + t[2]
    if t[0] in ('shl', 'add', 'mul', 'sub', 'xor', 'or', 'and'):
        x, y = levels(t[1], bits, n), levels(t[2], bits, n)
        if x is None or y is None:
            return None
        return {'shl': lambda: x << (y & 63), 'add': lambda: x + y, 'mul': lambda: x * y, 'sub': lambda: x - y, 'xor': lambda: x ^ y,
                'or': lambda: x | y, 'and': lambda: x & y}[t[0]]()
    return None


def quant_ok(t, bits):
    """2^bits, None when that is not known"""
    if bits is None:
        return None
    got = [levels(t, bits, n) for n in (2, 3, 4, 6, 8, 10, 12, 16)]
    if None in got:
        return None
    return all(x & 0xffffffff == 1 << n for x, n in zip(got, (2, 3, 4, 6, 8, 10, 12, 16)))


def bits_offset(d):
    """the member of a column with the number of bits per symbol"""
    R = d.R
    offs = set()
    for f in column_functions(d, 'getBitsPerSymbol') + column_functions(d, 'GetBitsPerSymbol'):
        for p in arun(d, f, Lean)[0].paths:
            if p.kind == 'ret' and p.ret and strip_w(p.ret)[0] == 'm':
                offs.add(strip_w(p.ret)[2])
    if not offs:
        for f in column_functions(d, 'SetBitsPerSymbol'):
            for p in arun(d, f, Lean)[0].paths:
                for (b, o), v in p.mem.items():
                    if b == ('arg', 0) and strip_w(v) == ('arg', 1) and p.kind == 'ret':
                        offs.add(o)
    return offs


def spec_members(d):
    """key of the specification -> member of the manager"""
    out = {}
    for f in mroots(d, 'dataManagerSpec'):
        rule, e = arun(d, f)
        for p in rule.paths:
            for k, v, t in p.user['defs']:
                v = strip_w(v)
                if k[1][0] == 'str' and v[0] == 'm' and v[1] == ('arg', 1):
                    out[k[1][1]] = v[2]
    return out


def p20(r):
    d = data()
    R = d.R
    n = 0
    dist, norm = enumerators(d, 'DyscoDistribution'), enumerators(d, '::Normalization')
    offs = bits_offset(d)
    preps = [f for f in column_functions(d, 'Prepare')]
    tables = 0
    encs = {}
    normoff = {}
    nupos = {}
    for f in preps:
        rule, e = arun(d, f, Lean)
        if not any(p.user['made'] for p in rule.paths):
            continue
        lab = R.label(f)
        ts = paramtypes(f)
        pd = [k + 1 for k, t in enumerate(ts) if t.endswith('DyscoDistribution')]
        pn = [k + 1 for k, t in enumerate(ts) if t.endswith('Normalization')]
        r.require(len(pd) == 1 and len(pn) == 1, 'the parameters of %s are not recognised' % lab)
        pd, pn = ('arg', pd[0]), ('arg', pn[0])
        rets = [p for p in rule.paths if p.kind == 'ret']
        has = any(table_kind(m) for p in rets for m in p.user['made'])
        for nm, v in sorted(dist.items() if has else ()):
            want = KIND.get(nm[:4].lower())
            got = set()
            for p in rets:
                ok, known = consistent(p.facts, {pd: v}, lambda x: x == pd)
                if not ok:
                    continue
                ks = [table_kind(m) for m in p.user['made']]
                ks = [(flagged(k[0], {pd: v}),) + tuple(k[1:]) for k in ks if k]
                got.add(tuple(k[0] for k in ks))
                for k, q, params in ks:
                    n += 1
                    tables += 1
                    b = [quant_ok(q, ('m', ('arg', 0), o)) for o in offs]
                    if True in b or not offs:
                        r.ok('%s: size of the table' % lab)
                    elif None in b:
                        r.undecided('%s: size of the table' % lab, str(q)[:80])
                    else:
                        r.bad('%s: size of the table' % lab, 'the table for %s has %s entries' % (nm, text(q)))
                    if k in ('student', 'trunc'):
                        nupos.setdefault(k, set()).add(params[0])
                    one_ = params[-1]
                    n += 1
                    if one_[0] == 'fp':
                        r.check(one_ == ('fp', '1'), '%s: scale of the table' % lab, 'the table for %s is made for a deviation of %s' % (nm, one_[1]))
            if any(len(k) for k in got):
                n += 1
                if any(None in k for k in got):
                    r.undecided('%s: table for %s' % (lab, nm), 'kind of the table')
                else:
                    r.check(got == {(want,)} or (want,) in got and len(got) == 1, '%s: table for %s' % (lab, nm), 'with %s the table that is made is %s' % (nm, sorted(got)))
            else:
                r.bad('%s: table for %s' % (lab, nm), 'with %s no table is made' % nm)
        for p in rets:
            for m in p.user['made']:
                if m[1].endswith('WeightBlockEncoder'):
                    n += 2
                    q = quant_ok(m[2][3], next((('m', ('arg', 0), o) for o in offs), None))
                    if q is None:
                        r.undecided('%s: size of the table' % lab, str(m[2][3])[:80])
                    else:
                        r.check(q, '%s: number of levels' % lab, 'the number of levels is %s' % text(m[2][3]))
                    dims(r, lab, m)
        stored = {o for p in rets for (b, o), v in p.mem.items() if b == ('arg', 0) and v == pn}
        used = encoder_classes(d, r, f, rule, e, norm, {pn}, 'decoder')
        if used:
            n += len(used)
            encs[R.cls(f)] = used
            normoff[R.cls(f)] = stored
    r.require(tables and encs, 'no table or no decoder is made by the functions that prepare columns')
    for c, used in encs.items():
        its = [f for f in column_functions(d, 'initializeEncodeThread') if R.cls(f) == c]
        r.require(its, 'the function that makes the encoder of a thread was not found')
        for f in its:
            rule, e = arun(d, f, Lean)
            pv = {('m', ('arg', 1), o) for o in normoff[c]}
            if not normoff[c]:
                r.bad('%s: normalization is kept' % c, 'the normalization that is prepared is not kept for the encoding threads')
                continue
            mine = encoder_classes(d, r, f, rule, e, norm, pv, 'encoder')
            r.require(mine, 'no encoder is made in %s' % R.label(f))
            for nm in norm:
                n += 1
                if nm in used and nm in mine:
                    a, b = used[nm], mine[nm]
                    r.check(a[0] == b[0] and relax(a[1]) == relax(b[1]), '%s: same algorithm for %s' % (R.label(f), nm), 'with %s values are decoded by %s and encoded by %s' % (nm, describe(a), describe(b)))
        for f in column_functions(d, 'usesAntennaIndices'):
            if R.cls(f) != c:
                continue
            rule, e = arun(d, f, Lean)
            for nm, v in norm.items():
                want = used.get(nm, ('',))[0].startswith('AF')
                for p in rule.paths:
                    if p.kind != 'ret':
                        continue
                    env = {('m', ('arg', 0), o): v for o in normoff[c]}
                    if not consistent(p.facts, env)[0]:
                        continue
                    x = ev(p.ret, env)
                    n += 1
                    if x is None:
                        r.undecided('%s: %s' % (R.label(f), nm), text(p.ret))
                    else:
                        r.check(bool(x) == want, '%s: %s' % (R.label(f), nm), 'antenna indices are %s for %s' % ('checked' if x else 'not checked', nm))
    n += manager_side(d, r, offs, nupos)
    n += forwarding(d, r)
    r.require(n >= 25, 'only %d obligations' % n)


def relax(args):
    """arguments independent of which argument is the column"""
    def go(t):
        if t[:1] == ('arg',):
            return ('this',)
        return tuple(go(x) if isinstance(x, tuple) else x for x in t)
    return tuple(go(a) for a in args)


def describe(a):
    return '%s(%s)' % (a[0], ', '.join(dimname(x) for x in a[1]))


def dimname(t):
    if t[0] == 'ixp' and t[2][0] == 'c':
        return 'shape[%d]' % t[2][1]
    return str(t[1]) if t[0] == 'c' else text(t)


def dims(r, lab, m):
    a = m[2]
    x, y = strip_w(a[1]), strip_w(a[2])
    if x[0] == 'ixp' and y[0] == 'ixp' and x[2][0] == 'c' and y[2][0] == 'c':
        r.check(x[2] == C(0) and y[2] == C(1), '%s: dimensions of %s' % (lab, m[1]), '%s is made with %s polarizations and %s channels' % (m[1], dimname(x), dimname(y)))
    else:
        r.undecided('%s: dimensions of %s' % (lab, m[1]), '%s, %s' % (text(x), text(y)))


def encoder_classes(d, r, f, rule, e, norm, about, what):
    """for each normalization, the class of the encoder that is made and its arguments"""
    out = {}
    lab = d.R.label(f)
    if not any('TimeBlockEncoder' in m[1] for p in rule.paths for m in p.user['made']):
        return out
    for nm, v in sorted(norm.items()):
        got = set()
        for p in rule.paths:
            if p.kind != 'ret':
                continue
            env = {a: v for a in about}
            if not consistent(p.facts, env, lambda x: x in about)[0]:
                continue
            ms = [m for m in p.user['made'] if 'TimeBlockEncoder' in m[1]]
            for m in ms:
                dims(r, lab, m)
            got.add(tuple((m[1], m[2][1:]) for m in ms))
        want = nm[1:].lower()
        if len(got) != 1:
            if any(not g for g in got):
                r.bad('%s: %s for %s' % (lab, what, nm), 'with %s no %s is made on some path' % (nm, what))
            else:
                r.bad('%s: %s for %s' % (lab, what, nm), 'with %s the %s is one of %s' % (nm, what, sorted({x[0] for g in got for x in g})))
            continue
        g = got.pop()
        if len(g) != 1:
            r.bad('%s: %s for %s' % (lab, what, nm), 'with %s %s %s made' % (nm, 'no ' + what if not g else 'several', 'is' if not g else 'are'))
            continue
        c = g[0][0].split('::')[-1]
        r.check(c.lower().startswith(want + 'timeblock'), '%s: %s for %s' % (lab, what, nm), 'with %s the %s is a %s' % (nm, what, c))
        out[nm] = (c, g[0][1])
    return out


class Prep(Lean):
    """remembers the bit count of a column when it is prepared"""

    def on_vcall(self, e, st, i, tg, args):
        names = {self.R.base(self.R.mod.byname[t]) for t in tg or [] if t in self.R.mod.byname}
        if names == {'Prepare'}:
            bits = {o: v for (b, o), v in st.mem.items() if b == args[0] or strip_w(b) == strip_w(args[0])}
            self.all.add((i.id, tuple(args), tuple(sorted(bits.items(), key=repr)), tuple(sorted(st.facts.items(), key=repr))))
        return Lean.on_vcall(self, e, st, i, tg, args)

    def start(self, e, st):
        Lean.start(self, e, st)
        self.all = set()

    def lean(self, e, f):
        return Lean.lean(self, e, f) or f[0] == 'eq' and contains(f, ('null',)) and any_sub(f, lambda x: x[0] in ('scan', 'elem', 'node', 'r'))

    def op(self, st, o):
        pass

    def on_store(self, e, st, i, addr, v, old):
        pass

    def on_container(self, e, st, i, M, op, args):
        pass


def manager_side(d, r, offs, nupos):
    R = d.R
    n = 0
    keys = spec_members(d)
    fs = [f for f in mroots(d) if f.blocks and any(i.op in ('call', 'invoke') and not i.raw.get('callee') for b in f.blocks.values() for i in b.insts)]
    seen = set()
    for f in mroots(d, 'prepare') or fs:
        rule, e = arun(d, f, Prep)
        lab = R.label(f)
        for iid, args, bits, facts in rule.all:
            n += 1
            # settings that are passed on
            for k, a in enumerate(args[1:], 1):
                a = strip_w(a)
                if a[0] != 'm' or a[1] != ('arg', 0):
                    r.undecided('%s: settings of a column' % lab, text(a))
                    continue
                t = R.T.member(R.mgrclass, a[2])[1]
                for kind, key in (('student', 'studentTNu'), ('trunc', 'distributionTruncation')):
                    if ('arg', k) in nupos.get(kind, ()) and key in keys:
                        n += 1
                        r.check(a[2] == keys[key], '%s: %s' % (lab, key), 'the parameter of the %s table is %s' % (kind, mgr.mname(d, e, a[2])))
            fd = dict(facts)
            cls = None
            for t, v in fd.items():
                if t[0] == 'eq' and v and any_sub(t, lambda x: x[0] == 'glob' and str(x[1]).startswith('_ZTV')) and contains(t, args[0]):
                    g = next(x for x in subterms(t) if x[0] == 'glob')
                    cls = vtclass(g[1])
            bd = dict(bits)
            mine = [(o, strip_w(v)) for o, v in bd.items() if o in offs]
            if cls is None:
                continue
            weight = 'Weight' in cls
            key = 'weightBitCount' if weight else 'dataBitCount'
            n += 1
            seen.add(weight)
            if not mine:
                r.bad('%s: bit count of a %s' % (lab, cls), 'a %s is prepared before its bit count is set' % cls)
            else:
                v = mine[0][1]
                if v[0] == 'm' and v[1] == ('arg', 0) and key in keys:
                    r.check(v[2] == keys[key], '%s: bit count of a %s' % (lab, cls), 'the bit count of a %s is %s' % (cls, mgr.mname(d, e, v[2])))
                elif opaque(v):
                    r.undecided('%s: bit count of a %s' % (lab, cls), text(v))
                else:
                    r.bad('%s: bit count of a %s' % (lab, cls), 'the bit count of a %s is %s' % (cls, text(v)))
    if len(seen) < 2:
        r.undecided('bit counts of the columns', 'the classes of the columns are not distinguished: %s' % seen)
    return n


FORWARD = ('initializeDecode', 'decode', 'encode', 'metaDataFloatCount', 'symbolCount')


def forwarding(d, r):
    """the functions of a column hand their arguments to its encoder in the same order"""
    R = d.R
    n = 0
    for nm in FORWARD:
        for f in column_functions(d, nm):
            rule, e = arun(d, f, Forward)
            for p in rule.paths:
                if p.kind != 'ret':
                    continue
                cs = [c for c in p.user['fwd']]
                if len(cs) != 1:
                    continue
                iid, callee, args = cs[0]
                ks = [a[1] for a in args if a[0] == 'arg' and a[1] > 0]
                n += 1
                if nm == 'encode':
                    ks = [k for k in ks if k != 1]
                own = len(paramtypes(f))
                if nm in ('symbolCount', 'metaDataFloatCount') and len(args) == own + 1:
                    r.check(ks == list(range(1, own + 1)), '%s: all arguments' % R.label(f), 'the arguments %s are handed to %s, not all %d' % (ks, callee, own))
                r.check(ks == sorted(ks) and len(set(ks)) == len(ks), '%s: arguments' % R.label(f), 'the arguments of %s are handed on in another order: %s' % (callee, ks))
    return n


class Forward(Lean):
    def start(self, e, st):
        Lean.start(self, e, st)
        st.user['fwd'] = ()

    def on_vcall(self, e, st, i, tg, args):
        st.user['fwd'] = tuple(x for x in st.user['fwd'] if x[0] != i.id) + ((i.id, 'the encoder', tuple(args)),)
        return Lean.on_vcall(self, e, st, i, tg, args)

    def on_call(self, e, st, i, nm, args):
        if 'Encoder::' in nm and '~' not in nm:
            st.user['fwd'] = tuple(x for x in st.user['fwd'] if x[0] != i.id) + ((i.id, nm, tuple(args)),)
        return Lean.on_call(self, e, st, i, nm, args)


# ---------------------------------------------------------------- P27
class Quiet:
    """a report that is not used"""

    def __getattr__(self, n):
        return lambda *a, **k: None


def p27(r):
    import cols
    d = data()
    R = d.R
    v = cols.view(d)
    cols.positions(d, Quiet())
    if not getattr(d, 'coloff', None):
        raise AnalysisError('the offset of a column in a block was not identified')
    n = 0
    lists = ('erase',)
    possible = False
    for f in one(d, 'removeColumn'):
        lab = R.label(f)
        rule, e = arun(d, f)
        rets = [p for p in rule.paths if p.kind == 'ret']
        r.require(rets, '%s never returns' % lab)
        count = ('m', ('arg', 0), R.mgroff[v.count[1]])
        for p in rets:
            ch = [c for c in p.user['cont'] if c[2] in CHANGES and split(c[1])[0] not in (('al',), ('new',)) and split(c[1])[0][0] not in ('al', 'new')]
            eqs = [t for t, val in p.facts.items() if val and t[0] == 'eq' and ('arg', 1) in t[1:]]
            n += 1
            if not ch:
                r.bad('%s: the column is removed' % lab, '%s can return without removing a column from the list (%s)' % (lab, p.where))
                continue
            if len(ch) != 1 or ch[0][2] != 'erase':
                r.undecided('%s: the column is removed' % lab, 'operations %s' % [c[2] for c in ch])
                continue
            iid, M, op, args = ch[0]
            it = args[1] if len(args) > 1 else ('?',)
            scans = {x[1] for t in p.facts if t[0] == 'eq' and ('arg', 1) in t[1:] for x in subterms(t) if x[0] == 'node' and len(x) > 1}
            if not eqs and it[0] == 'scan':
                r.bad('%s: the column is removed' % lab, 'an element is erased without comparing it to the column that was given')
            elif eqs and it in scans:
                r.ok('%s: the column is removed' % lab)
            elif it[0] == 'scan' and scans and all(x[0] == 'scan' and x[1] == it[1] for x in scans) and begins(rule, p, it):
                r.bad('%s: the column is removed' % lab, 'the element that is erased is the first one, not the column that was given')
            else:
                r.undecided('%s: the column is removed' % lab, 'erased position %s' % text(it))
            # the header
            n += 1
            w = [o for o in p.ops if o[0] == 'w']
            r.check(len(w) >= 6, '%s: header' % lab, 'the header is not written after a column was removed, so the table can not be opened again')
            # the layout
            zero = p.facts.get(('eq', count, ZERO))
            if zero is not True:
                possible = True
            for s in p.user['sets']:
                if s[:2] in (v.rpb, v.ants, v.bs):
                    n += 1
                    same_ = strip_w(s[2]) == ('m', ('arg', 0), R.mgroff[s[1]])
                    r.check(same_, '%s: %s' % (lab, s[1]), '%s is changed when a column is removed while blocks are stored with another value' % s[1])
                if s[:2] == v.hs and zero is not True:
                    n += 1
                    r.check(strip_w(s[2]) == ('m', ('arg', 0), R.mgroff[s[1]]), '%s: %s' % (lab, s[1]),
                            '%s is changed when a column is removed while there are blocks: they are no longer found' % s[1])
                if s[:2] == v.count:
                    n += 1
                    r.check(strip_w(s[2]) == count, '%s: %s' % (lab, s[1]), 'the number of blocks changes when a column is removed')
        for p in rule.paths:
            if p.kind == 'ret' or not p.user.get('threw'):
                continue
            n += 1
            ef = effects(d, e, p)
            if [c for c in p.user['cont'] if c[2] == 'erase'] or any(o[0] == 'w' for o in p.ops):
                continue    # the header could not be written
            r.check(not ef, '%s: refusal' % lab, 'a column that is not in the list is refused after %s' % (ef[0] if ef else ''))
        # the offsets of the columns that remain
        rl = cols.Lay(R, f, v, d.coloff, d.coloffn)
        rl.setter = cols.setters(d, d.coloff)
        e2 = flow.Engine(R.mod, R.T, f, rl)
        e2.run()
        n += 1
        moved = [x for l in rl.its.values() for it in l for x in it[0] if x[0] == 'off']
        r.check(not moved, '%s: offsets of the other columns' % lab, 'the offset in the block of a remaining column is set while its blocks are stored at the old offset')
    # what a column does when it is removed: its destructor ends its thread (P13), which writes at its own offset (P08)
    # after reopening: where the offsets come from
    derived, other = [], []
    for f in mgr.mgr_roots(d):
        rule, e = mgr.analyse(d, f)
        if not any(o[0] == 'v' and o[2] == 'CalculateBlockSize' for p in rule.paths for o in p.ops):
            continue
        rl = cols.Lay(R, f, v, d.coloff, d.coloffn)
        rl.setter = cols.setters(d, d.coloff)
        e2 = flow.Engine(R.mod, R.T, f, rl)
        e2.run()
        for l in rl.its.values():
            for it, nx, bs in l:
                for x in it:
                    if x[0] != 'off':
                        continue
                    leaves = set()
                    todo = [x[2]] + [t for q, t in nx]
                    for t in todo:
                        for y in mgr.expand(e2, t):
                            for z in subterms(y):
                                if z[0] == 'rd' or z[0] == 'm' and z[1] != ('arg', 0) and z[0] != 'node' and e2.field(padd(z[1], z[2])) and e2.field(padd(z[1], z[2]))[:2] not in d.coloff and isinstance(z[2], int) and z[1][0] != 'node':
                                    leaves.add(z)
                    (other if any(z[0] == 'rd' for z in leaves) else derived).append((R.label(f), leaves))
    r.require(derived or other, 'the function that computes the offsets of the columns was not found')
    n += 1
    if possible and derived and not other:
        r.bad('DyscoStMan::removeColumn: offsets after reopening',
              'a column can be removed while blocks are stored, but %s computes the offsets in a block from the columns that remain: after reopening the other columns read other values' % derived[0][0])
    else:
        r.ok('DyscoStMan::removeColumn: offsets after reopening')
    r.require(n >= 5, 'only %d obligations' % n)


def begins(rule, p, it):
    """a position is the result of a call of begin()"""
    return any(c[0] == it[2] and c[2] in ('begin', 'cbegin') for c in p.user['cont'])


# ---------------------------------------------------------------- P21
RANDOM = re.compile(r'^(std::random_device::|std::chrono::[a-z_0-9:]*clock::now|rand$|random$|drand48$|lrand48$|time$|getrandom$|arc4random|clock_gettime$|gettimeofday$|std::this_thread::get_id|getpid$)')


class Seeds(Lean):
    """calls that draw or set seeds"""

    def start(self, e, st):
        Lean.start(self, e, st)
        st.user['rnd'] = ()

    def note(self, st, i, what, args):
        st.user['rnd'] = tuple(x for x in st.user['rnd'] if x[0] != i.id) + ((i.id, what, tuple(args)),)

    def on_call(self, e, st, i, nm, args):
        x = nm[5:] if nm.startswith(('bool ', 'void ')) else nm
        cls, m = e.cls_of(x)
        b = m.split('<')[0]
        if cls.startswith('std::mersenne_twister_engine') and args:
            self.note(st, i, b, args)
            if b == 'operator()':
                return ('pure', ('draw', i.id, args[0]))
        elif RANDOM.match(x):
            self.note(st, i, 'random source ' + x.split('(')[0], args)
        return Lean.on_call(self, e, st, i, nm, args)


def bool_members(facts, base):
    out = set()
    for t, v in facts.items():
        if t[0] == 'eq' and t[2] == ZERO and t[1][0] == 'm' and t[1][1] == base:
            out.add((t[1][2], not v))
        elif t[0] == 'm' and t[1] == base:
            out.add((t[2], bool(v)))
    return out


def p21(r):
    d = data()
    R = d.R
    n = 0
    norm = enumerators(d, '::Normalization')
    # the member of the column that tells to use random seeds
    flags = {}
    its = [f for f in column_functions(d, 'initializeEncodeThread')]
    r.require(its, 'the function that makes the data of a thread was not found')
    seeds = {}
    for f in its:
        rule, e = arun(d, f, Seeds)
        rets = [p for p in rule.paths if p.kind == 'ret']
        seeded = [p for p in rets if any(x[1] == 'seed' or x[1].startswith('random source') for x in p.user['rnd'])]
        if not any(p.user['rnd'] for p in rets):
            continue
        cand = None
        for p in rets:
            b = {(o, v) for o, v in bool_members(p.facts, ('arg', 1)) if R.T.member('dyscostman::' + R.cls(f) if not R.cls(f).startswith('dyscostman') else R.cls(f), o)[1] == 'bool'}
            if p in seeded:
                cand = set(b) if cand is None else cand & b
        for o, v in set(cand or ()):
            # without this condition nothing is seeded
            if all((o, not v) in bool_members(p.facts, ('arg', 1)) for p in rets if p not in seeded):
                flags.setdefault(R.cls(f), set()).add((o, v))
        seeds[R.cls(f)] = (f, rule, e, rets, seeded)
    # the member that is set when a static seed is requested
    for c, (f, rule, e, rets, seeded) in seeds.items():
        lab = R.label(f)
        tcs = [g for g in column_functions(d, 'defaultThreadCount') if R.cls(g) == c]
        single = set()
        for g in tcs:
            grule, ge = arun(d, g, Lean)
            for p in grule.paths:
                if p.kind == 'ret' and p.ret == C(1):
                    single |= {(o, not v) for o, v in bool_members(p.facts, ('arg', 0))}
        fl = flags.get(c, set()) | single
        offs = {o for o, v in fl}
        if not fl:
            r.bad('%s: static seed' % lab, 'the seed of a thread and the number of threads do not depend on the request for a static seed')
            continue
        if len(offs) != 1:
            raise AnalysisError('the member of %s that requests a static seed is not identified: %s' % (c, sorted(fl)))
        off = offs.pop()
        fv = {v for o, v in fl}
        n += 2
        r.check(flags.get(c), '%s: seed' % lab, 'threads are seeded from random numbers also when a static seed was requested, or never')
        if fv != {True} and fv != {False}:
            r.bad('%s: static seed' % lab, 'the seed of a thread and the number of threads depend on the request in opposite ways')
            continue
        rv = fv.pop()
        # randomising: different seeds; otherwise none
        for p in rets:
            b = dict(bool_members(p.facts, ('arg', 1)))
            if b.get(off) == rv:
                n += 1
                made = [x for x in p.user['rnd'] if x[1] == 'seed']
                if not made:
                    r.bad('%s: seeds of the threads' % lab, 'a thread gets no seed of its own although no static seed was requested')
                for x in made:
                    v = strip_w(x[2][1]) if len(x[2]) > 1 else ('none',)
                    fresh = v[0] == 'draw' or any_sub(v, lambda y: y[0] == 'draw') or any(y[1].startswith('random source') for y in p.user['rnd'])
                    if v[0] == 'c' or v[0] == 'none' or v[0] == 'm':
                        r.bad('%s: seeds of the threads' % lab, 'every thread gets the same seed (%s)' % text(v))
                    elif not fresh:
                        r.undecided('%s: seeds of the threads' % lab, text(v))
                    else:
                        src = next((y for y in subterms(v) if y[0] == 'draw'), None)
                        r.check(src is None or split(src[2])[0] == ('arg', 1), '%s: seeds of the threads' % lab, 'every thread draws its seed from a generator that starts anew')
            elif b.get(off) is not None:
                n += 1
                x = [y for y in p.user['rnd'] if y[1] in ('seed',) and len(y[2]) > 1 and strip_w(y[2][1])[0] != 'c' or y[1].startswith('random source') or y[1] == 'operator()']
                r.check(not x, '%s: static seed' % lab, 'a thread is seeded with a random number although a static seed was requested')
        # number of threads
        r.require(tcs, 'the number of threads of %s is not found' % c)
        for g in tcs:
            grule, ge = arun(d, g, Lean)
            for p in grule.paths:
                if p.kind != 'ret':
                    continue
                b = dict(bool_members(p.facts, ('arg', 0)))
                n += 1
                if b.get(off) == rv:
                    continue
                r.check(p.ret == C(1), '%s: one thread' % R.label(g), 'the number of encoding threads is %s when a static seed was requested' % text(p.ret))
        n += request(d, r, c, off, rv)
    r.require(n >= 8, 'only %d obligations' % n)
    n += startup(d, r)
    sources(d, r)


def request(d, r, c, off, rv):
    """making a column honours the request, for the manager and its copies"""
    R = d.R
    n = 0
    ms = set()
    for f in one(d, 'makeDirArrColumn'):
        rule, e = arun(d, f)
        lab = R.label(f)
        for p in rule.paths:
            if p.kind != 'ret':
                continue
            objs = [b for (b, o), v in p.mem.items() if b[0] == 'new' and o == 0 and (newclass(d, e, p, b) or '').endswith(c.split('::')[-1])]
            if len(objs) != 1:
                continue
            v = p.mem.get((objs[0], off))
            req = {(o, x) for o, x in bool_members(p.facts, ('arg', 0)) if R.T.member(R.mgrclass, o)[1] == 'bool'}
            n += 1
            if v is None or v[0] != 'c':
                t = v and strip_w(v)
                m = [x for x in subterms(t) if x[0] == 'm' and x[1] == ('arg', 0)] if t else []
                if len(m) == 1:
                    for val in (0, 1):
                        x = ev(t, {m[0]: val})
                        if x is None:
                            r.undecided('%s: static seed' % lab, text(v))
                        else:
                            r.check(bool(x) == (rv if not val else not rv), '%s: static seed' % lab, 'the column %s when a static seed was %s' % ('is randomised' if bool(x) == rv else 'is not randomised', 'requested' if val else 'not requested'))
                            ms.add(m[0][2])
                else:
                    r.undecided('%s: static seed' % lab, str(v)[:60])
                continue
            random = bool(v[1] & 1) == rv
            if not req:
                r.bad('%s: static seed' % lab, 'a data column is always %s, whether or not a static seed was requested' % ('randomised' if random else 'made with a static seed'))
                continue
            if len(req) > 1:
                r.undecided('%s: static seed' % lab, str(req))
                continue
            o, x = req.pop()
            ms.add(o)
            r.check(random == (not x), '%s: static seed' % lab, 'a data column is %s when a static seed was %s' % ('randomised' if random else 'made with a static seed', 'requested' if x else 'not requested'))
    if len(ms) != 1:
        return n
    o = ms.pop()
    for f in mroots(d):
        rule = e = None
        if R.is_ctor(f) and re.search(r'\(dyscostman::DyscoStMan const&\)', f.dem):
            src = ('arg', 1)
        elif R.base(f) == 'clone':
            src = ('arg', 0)
        else:
            continue
        rule, e = arun(d, f)
        for p, obj in objects(d, f, rule):
            if p.kind == 'ret':
                n += 1
                got = p.mem.get((obj, o), ('?',))
                r.check(got == ('m', src, o) or got[0] in ('u', '?'), '%s: static seed' % R.label(f), 'the request for a static seed is %s in a copy of the manager' % text(got))
    return n


class Start(Lean):
    """conditions at the creation of threads"""

    def start(self, e, st):
        Lean.start(self, e, st)
        self.made_at = []

    def keep(self, e, st, f):
        return True

    def lean(self, e, f):
        return any_sub(f, lambda x: x[0] == 'vc' and x[1] == 'defaultThreadCount')

    def on_call(self, e, st, i, nm, args):
        if re.search(r'vector<std::thread.*::(emplace_back|push_back|resize)', nm) or re.search(r'^std::thread::thread', nm):
            self.made_at.append((i, dict(st.facts)))
        return Lean.on_call(self, e, st, i, nm, args)

    def on_container(self, e, st, i, M, op, args):
        if 'std::thread' in i.cdem and op in ('emplace_back', 'push_back'):
            self.made_at.append((i, dict(st.facts)))
        Lean.on_container(self, e, st, i, M, op, args)


def startup(d, r):
    """as many threads are started as the column asks for"""
    R = d.R
    n = 0
    for f in d.mod.functions:
        if not f.blocks or not (R.cls(f) in R.colclasses or any(b in R.colclasses for b in R.T.bases(R.cls(f)))):
            continue
        if not any(i.op in ('call', 'invoke') and 'vector<std::thread' in (i.cdem or '') and re.search(r'::(emplace_back|push_back)', i.cdem) for b in f.blocks.values() for i in b.insts):
            continue
        rule = Start(R, f)
        e = flow.Engine(R.mod, R.T, f, rule)
        e.run()
        for i, facts in rule.made_at:
            n += 1
            k = [t for t in facts if any_sub(t, lambda x: x[0] == 'vc' and x[1] == 'defaultThreadCount')]
            r.check(k, '%s: number of threads' % R.label(f), 'a thread is started independent of the number of threads the column asks for')
    if not n:
        r.undecided('number of threads', 'the function that starts threads was not found')
    return n


# (a function of a library's template may name a class of ours in its arguments
# only: the name of the function itself is looked at)
OURS = re.compile(r'(^|[ *&])(dyscostman::|aocommon::|TimeBlockBuffer|RFTimeBlockEncoder|AFTimeBlockEncoder|RowTimeBlockEncoder|'
                  r'TimeBlockEncoder|WeightBlockEncoder|StochasticEncoder|BytePacker|GausEncoder|_GLOBAL__|__cxx_global)')


def sources(d, r):
    """random sources are used only where columns and their threads are made"""
    from vfw import build
    from vfw import ir
    raw = build.dump(build.library_units(), [], 'raw')
    mod = ir.Module(raw)
    k = 0
    for f in mod.functions:
        if not f.blocks or not OURS.search(re.sub(r'\(.*', '', f.dem)):
            continue
        k += 1
        for b in f.blocks.values():
            for i in b.insts:
                if i.op in ('call', 'invoke') and i.cdem and RANDOM.match(re.sub(r'\(.*', '', i.cdem)) and not '~' in i.cdem:
                    b_ = f.dem.split('(')[0]
                    made = b_.endswith('DyscoDataColumn::DyscoDataColumn') or b_.endswith('::initializeEncodeThread') or 'stopwatch' in b_.lower()
                    r.check(made, '%s: random source' % b_.split('::')[-1], '%s draws from %s' % (b_, i.cdem.split('(')[0]))
    r.count('functions searched for random sources', k)


if __name__ == '__main__':
    import sys
    d = data()
    for f in d.mod.functions:
        if sys.argv[1] in f.dem and f.blocks:
            rule, e = arun(d, f)
            print(f.dem, len(rule.paths))
            for p in rule.paths:
                if p.kind == 'ret':
                    print(p.kind, p.ret)
                    for k, v, ty in p.user['defs']:
                        print('   ', k, v)
                    for k, v in p.mem.items():
                        if k[0][0] in ('arg', 'new', 'm'):
                            print('   mem', k, str(v)[:100])
                    for k, v in p.facts.items():
                        print('      ', v, str(k)[:140])
            break
