"""Identifies the parts of the storage manager by their types, and summarises the effects of functions."""
import re
from . import ap, vslot
from .build import AnalysisError

S = ap.short


class Roles:
    def __init__(self, mod):
        self.mod = mod
        self.T = ap.Types(mod)
        self.paths = {}
        self.find_column()
        self.find_manager()
        self.find_threads()
        self.find_entries()
        self.find_flags()

    def P(self, fn):
        p = self.paths.get(fn.name)
        if p is None:
            p = self.paths[fn.name] = ap.Paths(fn, self.T)
        return p

    # ---------------------------------------------------------------- records
    def find_column(self):
        self.colclasses = []
        for n, r in self.T.rec.items():
            if not n.startswith('dyscostman::'):
                continue
            mt = {m[0]: ap.norm_type(m[3]) for m in r['m'] if m[0] != '<base>'}
            mutex = [k for k, t in mt.items() if t == 'std::mutex']
            cv = [k for k, t in mt.items() if t == 'std::condition_variable']
            cache = [k for k, t in mt.items() if t.startswith('std::map<unsigned long,') and ap.targs(t)[1].strip().endswith('*')]
            if mutex and cv and cache:
                self.colclasses.append(n)
                if len(mutex) > 1 or len(cv) > 1 or len(cache) > 1:
                    raise AnalysisError('more than one mutex, condition or cache in ' + n)
                self.col = S(n)
                self.mutex = (self.col, mutex[0])
                self.cv = (self.col, cv[0])
                self.cache = (self.col, cache[0])
                self.itemtype = ap.norm_type(ap.targs(mt[cache[0]])[1].strip()[:-1].strip())
                self.item = S(self.itemtype)
                buf = [k for k, t in mt.items() if t.startswith('std::unique_ptr<TimeBlockBuffer<')]
                if len(buf) != 1:
                    raise AnalysisError('no unique block buffer in ' + n)
                self.buffer = (self.col, buf[0])
                self.bools = [(self.col, k) for k, t in mt.items() if t == 'bool']
                self.colrec = r
        if not self.colclasses:
            raise AnalysisError('no column class with a write cache, a mutex and a condition')
        ir = self.T.get(self.itemtype)
        mt = {m[0]: ap.norm_type(m[3]) for m in ir['m']}
        b = [k for k, t in mt.items() if t == 'bool']
        e = [k for k, t in mt.items() if t.startswith('std::unique_ptr<TimeBlockBuffer<')]
        if len(b) != 1 or len(e) != 1:
            raise AnalysisError('unexpected members of the cache item')
        self.busy = (self.item, b[0])
        self.itembuf = (self.item, e[0])
        self.itemoff = {m[0]: m[1] for m in ir['m']}
        self.coloff = {m[0]: m[1] for m in self.colrec['m']}

    def find_manager(self):
        self.mgr = None
        for n, r in self.T.rec.items():
            if not n.startswith('dyscostman::'):
                continue
            mt = {m[0]: ap.norm_type(m[3]) for m in r['m'] if m[0] != '<base>'}
            st = [k for k, t in mt.items() if t.startswith('std::unique_ptr<std::basic_fstream<')]
            if st:
                self.mgr = S(n)
                self.mgrclass = n
                self.stream = (self.mgr, st[0])
                mu = [k for k, t in mt.items() if t == 'std::mutex']
                if len(mu) != 1:
                    raise AnalysisError('no unique mutex in ' + n)
                self.mgrmutex = (self.mgr, mu[0])
                self.mgroff = {m[0]: m[1] for m in r['m']}
                self.mgrsize = {m[0]: m[2] for m in r['m']}
        if not self.mgr:
            raise AnalysisError('no class with a file stream')

    # ---------------------------------------------------------------- functions
    def find_threads(self):
        """functions that run in the encoding threads: name -> how they are reached"""
        self.threadroots = []
        names = {f.dem: f for f in self.mod.functions}
        for n in list(self.mod.globals) + [f.name for f in self.mod.functions]:
            d = self.mod.globals[n].get('dem', '') if n in self.mod.globals else self.mod.byname[n].dem
            m = re.search(r'std::thread::_State_impl<std::thread::_Invoker<std::tuple<(.*)>\s*>\s*>', d)
            if not m or 'dyscostman' not in d:
                continue
            x = m.group(1).strip()
            for f in self.mod.functions:
                q = ap.strip_args(f.dem)
                if q == x + '::operator()' and f not in self.threadroots:
                    self.threadroots.append(f)
                # member function pointer
                mm = re.match(r'void \((.*)::\*\)\(.*\)', x)
        if not self.threadroots:
            raise AnalysisError('no function that is executed by a thread was found')

    def vtargets(self, fn):
        """(call, [functions]) of the virtual calls of a function"""
        out = []
        for i in fn.insts():
            if i.op in ('call', 'invoke') and i.callee is None:
                tg = vslot.targets(self.mod, self.P(fn), i, self.T)
                fs = [self.mod.byname[t] for t in tg or [] if t in self.mod.byname]
                out.append((i, tg, fs))
        return out

    def find_entries(self):
        vts = vslot.vtables(self.mod)
        own = {}
        for c, vt in vts.items():
            if not c.startswith('dyscostman::'):
                continue
            b = self.T.bases(c)
            if not any(x.startswith('casacore::') for x in b):
                continue
            for s in vt:
                if s and s in self.mod.byname:
                    own.setdefault(s, []).append(c)
        # functions that are only called from threads
        seen, todo = set(), list(self.threadroots)
        thread_reach = []
        while todo:
            f = todo.pop()
            for i, tg, fs in self.vtargets(f):
                for g in fs:
                    if g.name not in seen:
                        seen.add(g.name)
                        thread_reach.append(g)
                        todo.append(g)
        user_called = set()
        for s in own:
            f = self.mod.byname[s]
            if s in seen:
                continue
            for i, tg, fs in self.vtargets(f):
                user_called |= {g.name for g in fs}
        ctors = [f for f in self.mod.functions if self.is_ctor(f)]
        statics = [f for f in self.mod.functions if ap.strip_args(f.dem) in (self.mgrclass + '::makeObject',)]
        self.threadcalled = thread_reach
        self.user_called = user_called
        self.entries = [self.mod.byname[s] for s in own if s not in seen or s in user_called]
        for f in ctors + statics:
            if f not in self.entries:
                self.entries.append(f)
        self.own = own
        # roots from which no thread can run yet: the functions that create or open the file
        self.fresh = {f.name for f in self.entries if self.base(f) in ('create', 'open', 'setShapeColumn') or self.is_ctor(f)}
        ch = True
        callers = {}
        for f in self.entries + self.threadroots + thread_reach:
            for i, tg, fs in self.vtargets(f):
                for g in fs:
                    callers.setdefault(g.name, set()).add(f.name)
        self.callers = callers
        external = {'Prepare'}
        while ch:
            ch = False
            for f in self.entries:
                if f.name in self.fresh or f.name not in callers:
                    continue
                # virtual functions that are not part of the interface of casacore
                if self.casacore_virtual(f):
                    continue
                if callers[f.name] <= self.fresh:
                    self.fresh.add(f.name)
                    ch = True

    def casacore_virtual(self, f):
        """overrides a virtual function of casacore (can be called from outside)"""
        # a name that is declared in this library only is not in the vtable of a casacore class; decide by position
        if self.base(f).startswith('~'):
            return True
        vts = vslot.vtables(self.mod)
        for c in self.own.get(f.name, []):
            k = [n for n, s in enumerate(vts[c]) if s == f.name]
            n = self.casacore_slots(c)
            if any(x < n for x in k):
                return True
        return False

    def casacore_slots(self, c):
        # the slots of the casacore base come first; the first slot that holds a function this library
        # declares on its own follows them
        vts = vslot.vtables(self.mod)
        vt = vts[c]
        last = -1
        for k, s in enumerate(vt):
            if s and re.search(r'^_ZN?K?N?8casacore|casacore', s) and 'dyscostman' not in s:
                last = k
        return last + 1

    def base(self, f):
        q = ap.strip_args(f.dem)
        d, k = 0, len(q)
        for n in range(len(q) - 1, -1, -1):
            if q[n] == '>':
                d += 1
            elif q[n] == '<':
                d -= 1
            elif q[n] == ':' and d == 0:
                return q[n + 1:]
        return q

    def cls(self, f):
        b = self.base(f)
        q = ap.strip_args(f.dem)
        return q[:-len(b) - 2] if len(q) > len(b) else ''

    def is_ctor(self, f):
        c = self.cls(f)
        if not c.startswith('dyscostman::'):
            return False
        if S(c) != self.base(f):
            return False
        return any(x.startswith('casacore::') for x in self.T.bases(c))

    def is_dtor(self, f):
        return self.base(f).startswith('~')

    def label(self, f):
        return S(self.cls(f)) + '::' + self.base(f) if self.cls(f) else self.base(f)

    # ---------------------------------------------------------------- members
    def find_flags(self):
        # the stop request is the flag of the column that the thread function reads
        r = set()
        for f in self.threadroots:
            P = self.P(f)
            for i in f.insts():
                if i.op == 'load':
                    x = P.field(P.loc(i.ops[0]))
                    if x and (x[0], x[1]) in self.bools:
                        r.add((x[0], x[1]))
        if len(r) != 1:
            raise AnalysisError('no unique flag that stops the threads: %s' % sorted(r))
        self.stop = r.pop()
        # the flag that the function that fills the buffer sets
        c = {}
        for f in self.entries:
            if not any('TimeBlockBuffer' in i.cdem and '::SetData' in i.cdem for i in f.calls()):
                continue
            P = self.P(f)
            for i in f.insts():
                if i.op == 'store':
                    x = P.field(P.loc(i.ops[1]))
                    if x and (x[0], x[1]) in self.bools and isinstance(i.ops[0], dict) and str(i.ops[0].get('v')) == '1':
                        c[(x[0], x[1])] = 1
        c.pop(self.stop, None)
        if len(c) != 1:
            raise AnalysisError('no unique flag for unstored values: %s' % sorted(c))
        self.changed = list(c)[0]
        # the block number of the buffer: the size_t member that is stored with the constant -1 or that is the key of insertions
        cand = {}
        P0 = None
        for f in self.mod.functions:
            P = self.P(f)
            for i in f.calls():
                if re.search(r'std::map<unsigned long.*>::(find|count|operator\[\]|emplace|insert)', i.cdem) and len(i.args) > 1:
                    for a in i.args[1:]:
                        if isinstance(a, int):
                            x = P.field(P.loc(a))
                            if x and x[0] == self.col and not x[2]:
                                cand[(x[0], x[1])] = cand.get((x[0], x[1]), 0) + 1
        if not cand:
            for f in self.mod.functions:
                P = self.P(f)
                for i in f.insts():
                    if i.op == 'store' and isinstance(i.ops[0], dict) and str(i.ops[0].get('v')) in ('18446744073709551615', '-1'):
                        x = P.field(P.loc(i.ops[1]))
                        if x and x[0] == self.col:
                            cand[(x[0], x[1])] = 1
        if len(cand) != 1:
            raise AnalysisError('no unique member for the current block: %s' % sorted(cand))
        self.current = list(cand)[0]
        # the block count: member of the manager that thread code writes
        w = set()
        for f in self.threadroots + self.threadcalled:
            P = self.P(f)
            for i in f.insts():
                if i.op == 'store':
                    x = P.field(P.loc(i.ops[1]))
                    if x and x[0] == self.mgr:
                        w.add((x[0], x[1]))
        self.mgrwritten = w
        if not w:
            raise AnalysisError('the threads do not maintain the block count')

    # ---------------------------------------------------------------- summaries
    def summary(self, f):
        """effects of a function including the virtual functions it calls"""
        c = getattr(self, '_sum', None)
        if c is None:
            c = self._sum = {}
            loc = {}
            for g in self.mod.functions:
                loc[g.name] = self.local(g)
            ch = True
            for n in loc:
                c[n] = {k: set(v) for k, v in loc[n].items()}
            calls = {g.name: [h.name for i, tg, fs in self.vtargets(g) for h in fs] for g in self.mod.functions}
            while ch:
                ch = False
                for n in c:
                    for m in calls[n]:
                        for k in c[n]:
                            if not c[m][k] <= c[n][k]:
                                c[n][k] |= c[m][k]
                                ch = True
        return c[f.name]

    def local(self, g):
        P = self.P(g)
        r = {'writes': set(), 'locks': set(), 'does': set()}
        for i in g.insts():
            if i.op == 'store':
                x = P.field(P.loc(i.ops[1]))
                if x:
                    r['writes'].add((x[0], x[1]))
            elif i.op in ('call', 'invoke') and i.callee:
                q, d = i.cq, i.cdem
                if q == 'pthread_mutex_lock':
                    x = P.field(P.loc(i.args[0])) if isinstance(i.args[0], int) else None
                    # unique_lock keeps the mutex in a local variable
                    r['locks'].add((x[0], x[1]) if x else ('?', '?'))
                elif q.startswith('std::condition_variable::wait'):
                    r['does'].add('wait')
                elif q.startswith('std::thread::join'):
                    r['does'].add('join')
                elif 'std::vector<std::thread' in d and ('emplace_back' in d or 'push_back' in d):
                    r['does'].add('start')
                elif re.search(r'std::map<unsigned long.*>::(insert|emplace|operator\[\]|try_emplace|insert_or_assign)', d):
                    r['does'].add('insert')
                elif re.match(r'^std::(basic_)?ostream(<.*>)?::(write|put|operator<<|flush)', q):
                    r['does'].add('streamwrite')
        if ('?', '?') in r['locks']:
            r['locks'].discard(('?', '?'))
            # resolve through the mutexes whose address is taken in this function
            for i in g.insts():
                if i.op == 'store' and isinstance(i.ops[0], int):
                    x = P.field(P.loc(i.ops[0]))
                    if x and (x[0], x[1]) in (self.mutex, self.mgrmutex):
                        r['locks'].add((x[0], x[1]))
        return r
