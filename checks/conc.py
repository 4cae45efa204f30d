"""Concurrency, ordering and buffering rules of the columns (P10 to P14, P25), decided by a typestate
analysis of every entry point and of the encoding threads."""
import multiprocessing as mp
import os
import pickle
import re
import hashlib
import sys

from vfw import ap, build, flow, roles, s1, vslot
from vfw.flow import C, NULL, ZERO, split, padd, any_sub, contains
from vfw.ir import AnalysisError

MAXK = (1 << 64) - 1
INSERT = ('insert', 'emplace', 'emplace_hint', 'insert_or_assign', 'try_emplace', 'operator[]')


def unsign(t):
    return C(t[1] & MAXK) if t[0] == 'c' else t


class Conc(flow.Rule):
    def __init__(self, R, fn, thread=False, ro=False, held=()):
        self.R, self.fn, self.thread, self.ro = R, fn, thread, ro
        self.held = held
        self.name = R.label(fn)
        self.base = R.base(fn)
        self.colroot = not thread and fn.args and self.is_column_class()
        self.events = set()      # shared accesses
        self.viol = {}           # (prop, key) -> text
        self.oblig = {}          # (prop, name) -> count
        self.edges = set()       # lock order
        self.infos = {}
        self.vc = set()
        self.track = {R.changed, R.current, R.buffer, R.stop, R.busy, R.itembuf, R.stream, (R.mgr, '_rowsPerBlock')} | R.mgrwritten
        self.track |= {(R.col, m) for m in R.coloff if m.startswith('_lastWritten')}
        self.track |= {('DyscoStManColumn', '_storageManager'), ('EncodingThreadFunctor', 'parent')}
        self.fresh_root = fn.name in R.fresh

    def is_column_class(self):
        t = self.R.P(self.fn).btype.get(('arg', 0))
        return bool(t) and (t in self.R.colclasses or any(b in self.R.colclasses for b in self.R.T.bases(t)))

    # ------------------------------------------------------------ reporting
    def bad(self, prop, key, text, i=None):
        k = (prop, '%s: %s' % (self.name, key))
        w = ' (%s)' % i.where if i is not None else ''
        self.viol.setdefault(k, text + w)

    def ok(self, prop, name, i=None):
        k = (prop, '%s: %s%s' % (self.name, name, ' at %s' % i.where if i is not None else ''))
        self.oblig[k] = self.oblig.get(k, 0) + 1

    def need(self, cond, prop, key, text, i=None):
        if cond:
            self.ok(prop, key, i)
        else:
            self.bad(prop, key, text, i)
        return cond

    # ------------------------------------------------------------ helpers
    def me(self, e):
        """term of the column this root works on"""
        if self.thread and not self.colroot_thread:
            return None
        return ('arg', 0)

    def fld(self, e, addr):
        f = e.field(addr)
        return (f[0], f[1]) if f else None

    def full(self, e, addr):
        return e.field(addr)

    def slot(self, e, st, member):
        """value of a member of the column of this root"""
        off = self.R.coloff[member[1]]
        v = st.mem.get((('arg', 0), off))
        if v is None:
            v = e.load(st, padd(('arg', 0), off), 8, None)
        return v

    def is_changed(self, e, st):
        """0, 1 or None"""
        v = self.slot(e, st, self.R.changed)
        if v[0] == 'c':
            return v[1] & 1
        x = e.eval(st, e.cmp(st, 'eq', v, ZERO))
        if x is None:
            return None
        return 0 if x else 1

    def lockname(self, e, m):
        if m[0] == 'ctx':
            return m[1]
        f = e.field(m)
        return (f[0], f[1]) if f else None

    def lock_held(self, e, st, member, base=None):
        for m in st.locks:
            n = self.lockname(e, m)
            if n == member:
                if m[0] == 'ctx' or base is None or split(m)[0] == base or base[0] not in ('arg',):
                    return True
        return False

    def T(self, st):
        return st.user.get('T', 1)

    # ------------------------------------------------------------ start
    def start(self, e, st):
        R = self.R
        st.user['T'] = 0 if R.is_ctor(self.fn) else 1
        st.user['pend'] = ''
        st.user['abs'] = frozenset()
        for h in self.held:
            st.locks = st.locks | {('ctx', h)}
        self.colroot_thread = False
        if self.thread:
            st.user['A'] = ('idle',)
        if self.ro and self.colroot:
            off = R.coloff[R.changed[1]]
            st.mem[(('arg', 0), off)] = ZERO

    def tracked(self, e, f):
        return f is not None and ((f[0], f[1]) in self.track or f[0].startswith('closure{'))

    def keep(self, e, st, f):
        # conditions on the values of members matter for the whole function
        if any_sub(f, lambda t: t[0] in ('r', 'u', 'lp', 'scan')):
            return False
        if self.coarse:
            # too many paths: only conditions on the members the rules are about
            return any_sub(f, lambda t: t[0] in ('m', 'v') and self.tracked(e, e.field(padd(t[1], t[2])))) or \
                any_sub(f, lambda t: t[0] in ('urem', 'udiv'))
        return True

    # ------------------------------------------------------------ locks
    def on_lock(self, e, st, i, m):
        n = self.lockname(e, m)
        for h in st.locks:
            hn = self.lockname(e, h)
            if h == m or (hn == n and h[0] == 'ctx'):
                self.bad('P11', 'double lock of %s' % (n and n[1]), 'the lock is acquired while this thread already holds it', i)
            elif hn != n:
                self.edges.add((hn, n, self.name, i.where))
            else:
                self.edges.add((hn, n, self.name, i.where))
        self.ok('P11', 'lock %s' % (n and n[1],), i)
        if n == self.R.mutex:
            st.user.pop('nsec', None)
            e.bump(st, i.id)
        elif n == self.R.mgrmutex:
            b = split(m)[0]
            for (ow, mem) in self.R.mgrwritten:
                o = self.R.mgroff[mem]
                e.havoc(st, b, o, o + self.R.mgrsize[mem], i.id)

    def on_unlock(self, e, st, i, m):
        n = self.lockname(e, m)
        if m not in st.locks:
            self.bad('P11', 'unlock without lock', 'a mutex is released that is not held', i)
        if n == self.R.mutex:
            st.user.pop('nsec', None)
            self.proceed(e, st, i)
            if self.thread and st.user.get('A', ('idle',))[0] in ('deleted', 'erased!'):
                self.bad('P13', 'lock released between delete and erase', 'an item is deleted while it is still in the write cache when the lock is released', i)
            e.bump(st, i.id)

    def on_unwind(self, e, st, unw, i):
        # an exception does not act on what was waited for
        unw.user.pop('why', None)

    def on_wait(self, e, st, i, cv, m):
        R = self.R
        if split(cv)[0][0] == 'new':
            return      # object made in this function: no thread was started
        self.need(m in st.locks, 'P11', 'wait holds its lock', 'the condition is waited for without the lock of the condition', i)
        others = [self.lockname(e, x) for x in st.locks if x != m]
        self.need(not others, 'P11', 'wait holds no other lock', 'a condition is waited for while %s is held' % others, i)
        self.need(not st.user['pend'], 'P12', 'no pending notification at a wait',
                  'a change of the write cache (%s) is not signalled before this thread waits' % st.user['pend'], i)
        if self.thread:
            self.need(st.user['A'][0] == 'idle', 'P13', 'no unfinished item at a wait', 'a thread waits while it still has an item to write', i)
        # the reasons for waiting
        why = self.reasons(e, st)
        if not why:
            self.bad('P12', 'unconditional wait', 'the thread waits without testing a shared condition under the lock', i)
        else:
            self.ok('P12', 'wait depends on a shared condition', i)
        e.bump(st, i.id)
        st.user.pop('nsec', None)
        # what is true now must be tested again before the thread proceeds
        st.user['why'] = (why, i.where)
        st.user['last'] = 0

    def kind(self, e, f, v):
        """condition on shared state without its version"""
        if f[0] == 'pred':
            return (f[1], self.objname(e, f[2]), f[3], v)
        if f[0] == 'eq' and f[1][0] == 'v' and f[2] == ZERO:
            x = e.field(padd(f[1][1], f[1][2]))
            if x and (x[0], x[1]) == self.R.stop:
                return ('stop', None, None, v)
        return None

    def objname(self, e, M):
        x = e.field(M)
        return (x[0], x[1]) if x else None

    def reasons(self, e, st):
        out = set()
        for f, v in st.facts.items():
            k = self.kind(e, f, v)
            if k and (k[0] == 'stop' or k[1] == self.R.cache):
                # conditions that another thread can change to let this one proceed
                if k[0] in ('full', 'exhausted') and v or k[0] in ('absent', 'empty') and not v or k[0] == 'stop' and v:
                    out.add(k)
        return frozenset(out)

    def proceed(self, e, st, i):
        """the thread acts on the state it waited for"""
        w = st.user.pop('why', None)
        if w:
            self.bad('P12', 'condition not tested again after a wait',
                     'after the wait at %s the thread proceeds without having tested the condition again' % w[1], i)

    def on_eval(self, e, st, t):
        if self.thread and t[0] == 'eq' and t[2] == NULL:
            a = st.user['A']
            if len(a) > 2 and t[1] == a[2]:
                return False        # the item was dereferenced when it was marked
        return None

    def on_assume(self, e, st, t, val):
        R = self.R
        if t[0] == 'pred':
            o = self.objname(e, t[2])
            if t[1] == 'empty' and o and o[0] == 'threadgroup' or t[1] == 'empty' and o == getattr(R, 'threadvec', None):
                if val:
                    st.user['T'] = 0
            if o == R.cache and t[1] == 'absent' and val and not self.thread:
                st.user['abs'] = st.user['abs'] | {t[3]}
        if self.thread and self.kind(e, t, val) == ('stop', None, None, False):
            st.user['sawstop'] = 1
        if val and st.user.get('emptyterm') and t == st.user['emptyterm'] or not val and st.user.get('emptyterm') and t == ('eq', st.user['emptyterm'], ZERO):
            st.user['empty'] = 1
        w = st.user.get('why')
        if w:
            k = self.kind(e, t, val)
            if k:
                op = (k[0], k[1], k[2], not val)
                if op in w[0]:
                    rest = frozenset(x for x in w[0] if x != op)
                    # for the threads one true condition is enough, a writer needs all of its own
                    if self.thread or not rest:
                        st.user.pop('why', None)
                    else:
                        st.user['why'] = (rest, w[1])

    # ------------------------------------------------------------ notification
    def pend(self, e, st, what):
        # a waiting thread only continues when the lock is released: a notification that was sent since the
        # lock was acquired reaches the threads after the change
        n = st.user.get('nsec')
        if n and self.lock_held(e, st, self.R.mutex) and (n == 'all' or what == 'insert'):
            return
        p = set(st.user['pend'].split('+')) - {''}
        p.add(what)
        st.user['pend'] = '+'.join(sorted(p))

    def on_notify(self, e, st, i, cv, all_):
        f = self.fld(e, cv)
        if f != self.R.cv:
            return
        if self.lock_held(e, st, self.R.mutex):
            if all_ or not st.user.get('nsec'):
                st.user['nsec'] = 'all' if all_ else 'one'
        p = set(st.user['pend'].split('+')) - {''}
        if all_:
            p = set()
        else:
            p -= {'insert'}
        st.user['pend'] = '+'.join(sorted(p))
        self.ok('P12', 'notification', i)

    def quiet(self, e, st, i, where):
        self.need(not st.user['pend'], 'P12', 'change signalled before %s' % where,
                  'a change of the write cache or of the stop request (%s) is not signalled to all waiting threads' % st.user['pend'], i)

    # ------------------------------------------------------------ accesses
    def access(self, e, st, i, addr, rw):
        f = self.fld(e, addr)
        if f is None:
            return
        b = split(addr)[0]
        if b[0] in ('al', 'new'):
            return
        held = []
        for m in st.locks:
            n = self.lockname(e, m)
            if n is None:
                continue
            if n[0] == f[0] and m[0] != 'ctx' and split(m)[0] != b and b[0] == 'arg' and split(m)[0][0] == 'arg':
                continue
            held.append(n)
        self.events.add(('thread' if self.thread else 'user', self.name, f, rw, frozenset(held), self.T(st), i.where, self.fresh_root))

    def on_load(self, e, st, i, addr, v):
        R = self.R
        self.access(e, st, i, addr, 'r')
        f = self.fld(e, addr)
        if f in R.mgrwritten and not self.thread:
            st.user['nb'] = st.user.get('nb', frozenset()) | {(v, k) for k in st.user['abs']}

    def on_store(self, e, st, i, addr, v, old):
        R = self.R
        self.access(e, st, i, addr, 'w')
        f = self.fld(e, addr)
        b, o = split(addr)
        if f == R.busy and b[0] != 'new' and b[0] != 'al':
            if self.thread:
                self.mark(e, st, i, b, v)
            elif v != C(1):
                self.pend(e, st, 'insert')
        if f == R.stop and b[0] not in ('al', 'new'):
            if v == ZERO:
                self.need(self.T(st) == 0, 'P13', 'the stop request is only withdrawn after all threads ended',
                          'the stop request is withdrawn while threads may still run', i)
                st.user['stopreq'] = 0
            elif not self.thread:
                self.pend(e, st, 'stop')
                st.user['stopreq'] = 1
                self.proceed(e, st, i)
                if self.T(st):
                    k = [x for x, val in st.facts.items() if val and x[0] == 'pred' and x[1] == 'empty' and self.objname(e, x[2]) == R.cache]
                    self.need(k, 'P13', 'threads are only stopped when the write cache is empty',
                              'threads are asked to stop while blocks may still wait to be written', i)
            else:
                self.bad('P13', 'thread requests stop', 'an encoding thread sets the stop request', i)
        if b == ('arg', 0) and self.colroot:
            self.col_store(e, st, i, f, addr, v)
        if b == ('arg', 0) and o == 0 and v[0] in ('glob', '+') and R.is_dtor(self.fn):
            self.vptr(e, st, i, v)
        if b[0] == 'r' and st.user.get('opslot') and b == st.user['opslot'][0] and o == 0:
            self.inserted(e, st, i, st.user['opslot'][1], v)
            st.user.pop('opslot', None)

    def on_atomic(self, e, st, i, addr):
        self.access(e, st, i, addr, 'w')

    # ------------------------------------------------------------ thread automaton
    def mark(self, e, st, i, item, v):
        R = self.R
        if v == ZERO:
            if st.user['A'][0] != 'idle':
                self.bad('P13', 'item given back', 'an item is made available again while this thread works on it', i)
            else:
                self.bad('P13', 'item of another thread', 'an item is made available again that this thread does not own', i)
            return
        it = None
        if item[0] in ('m', 'v') and item[1][0] == 'node':
            it = item[1][1]
        if st.user['A'][0] != 'idle':
            self.bad('P13', 'two items', 'a second item is taken before the first one is finished', i)
        self.need(self.lock_held(e, st, R.mutex), 'P13', 'item is marked under the lock', 'an item is marked as being written without the lock', i)
        fresh = False
        for f, val in st.facts.items():
            if f[0] == 'eq' and f[1][0] == 'v' and f[2] == ZERO and val and f[1][1] == item and f[1][3] == st.ver:
                if e.field(padd(f[1][1], f[1][2]))[:2] == R.busy:
                    fresh = True
        self.need(fresh, 'P13', 'an item is only taken when no other thread has it',
                  'the item is not known to be free in the critical section in which it is taken', i)
        some = any(f[0] == 'pred' and f[1] == 'exhausted' and not val for f, val in st.facts.items()) or \
            any(f[0] == 'pred' and f[1] in ('empty', 'absent') and not val for f, val in st.facts.items())
        self.need(some, 'P13', 'an item is only taken when there is one', 'the end of the write cache may be taken for an item', i)
        self.proceed(e, st, i)
        st.user['A'] = ('marked', it, item)

    def step(self, e, st, i, frm, to, what):
        a = st.user['A']
        if a[0] not in frm:
            self.bad('P13', what, '%s while the item is %s' % (what, a[0]), i)
        else:
            self.ok('P13', what, i)
        if len(a) > 1:
            st.user['A'] = (to,) + a[1:]

    # ------------------------------------------------------------ column state
    def col_store(self, e, st, i, f, addr, v):
        R = self.R
        u = st.user
        if f == R.changed:
            if v == ZERO:
                u['stale'] = 0
                if u.get('dirty') and not u.get('inserted_after'):
                    self.bad('P25', 'unstored values forgotten', 'the flag for unstored values is cleared although values were put in the buffer', i)
                elif self.is_changed(e, st) != 0 and not u.get('moved') and self.base != 'Prepare' and not R.is_ctor(self.fn):
                    self.bad('P25', 'unstored values forgotten', 'the flag for unstored values is cleared without storing the block', i)
            elif v[0] == 'c':
                u['dirty'] = 0
                if u.get('stale'):
                    self.ok('P13', 'changed after insertion', i)
        elif f == R.current:
            v = unsign(v)
            if v == C(MAXK):
                return
            if R.is_ctor(self.fn):
                return
            if v == ZERO or v[0] == 'c':
                # first row of a new table
                self.need(u.get('empty') or u.get('fresh'), 'P25', 'block number set for an empty buffer',
                          'the buffer is declared to hold another block while it may hold values', i)
                return
            self.need(u.get('fresh'), 'P25', 'buffer emptied before it is used for another block',
                      'the buffer is declared to hold another block without having been emptied', i)
            known = False
            for x, val in st.facts.items():
                if x[0] == 'ult' and x[1] == v and not val and (x[2], v) in u.get('nb', ()):
                    known = True
                if x[0] == 'ult' and x[1] == v and not val and not known:
                    known = None
            if u.get('read') == v or u.get('read') == '?':
                known = True
            if known is None:
                self.bad('P25', 'block looked up before it was stored', 'the block count is read before it is certain that the block is not waiting to be written', i)
            else:
                self.need(known, 'P25', 'stored block is loaded before it is changed',
                          'the buffer is declared to hold a block without loading the stored values of this block', i)
            u['partial'] = 0
        elif f == R.buffer and self.full(e, addr)[2]:
            old = st.mem.get(split(addr))
            if old is None:
                old = e.load(st, addr, 8, i)
            if v == NULL:
                if old != NULL:
                    u['took'] = old
            else:
                u['fresh'] = 1 if v[0] == 'new' else 0

    def vptr(self, e, st, i, v):
        b = v if v[0] == 'glob' else split(v)[0]
        if b[0] != 'glob':
            return
        d = self.R.mod.globals.get(b[1], {}).get('dem', '')
        cls = ap.norm_type(d[len('vtable for '):]) if d.startswith('vtable for ') else ''
        own = self.R.cls(self.fn)
        if cls == ap.norm_type(own) or not self.colroot:
            return
        if own in self.R.colclasses:
            return      # the base class does not call functions of derived classes any more
        self.need(self.T(st) == 0 and self.is_changed(e, st) == 0, 'P13', 'the column is shut down before it is destructed',
                  'the derived class is destructed while threads may run or values are not stored', i)

    # ------------------------------------------------------------ containers
    def on_container(self, e, st, i, M, op, args):
        R = self.R
        f = self.fld(e, M)
        if f is None:
            return
        mut = op not in ('find', 'count', 'end', 'cend', 'begin', 'cbegin', 'size', 'empty')
        self.access(e, st, i, M, 'w' if mut else 'r')
        if f == R.cache and op in INSERT:
            self.before_insert(e, st, i, M, op, args)
        if f == R.cache and op in ('erase', 'clear', 'swap', 'operator=', 'pop_back'):
            if self.thread:
                it = e.load(st, args[1], 8, i) if op == 'erase' and len(args) > 1 and args[1][0] == 'al' else (args[1] if len(args) > 1 else None)
                a = st.user['A']
                self.need(self.lock_held(e, st, R.mutex), 'P13', 'item is removed under the lock', 'an item is removed without the lock', i)
                same = len(a) > 1 and (it == a[1] or self.same_key(e, st, it, a, args))
                self.need(a[0] in ('written', 'deleted'), 'P13', 'an item is removed only after it was written',
                          'an item is removed from the write cache while it is %s' % a[0], i)
                self.need(same or a[0] not in ('written', 'deleted'), 'P13', 'the item that was written is removed', 'another item than the written one is removed', i)
                if len(a) > 1:
                    st.user['A'] = ('idle',) if a[0] == 'deleted' else ('erased',) + a[1:]
            elif self.T(st) or not R.is_dtor(self.fn):
                self.bad('P13', 'cache emptied outside the threads', 'blocks that wait to be written are dropped', i)
            self.pend(e, st, 'erase')
        if op in ('erase', 'clear', 'pop_back', 'resize', 'operator=') and f[0] == R.mgr:
            t = e.obj_type(M) or ''
            m = re.match(r'std::vector<std::unique_ptr<(dyscostman::[A-Za-z_]+)', t)
            if m:
                tg = []
                for c in vslot.derived(R.mod, R.T, m.group(1)):
                    for s in vslot.vtables(R.mod)[c]:
                        g = R.mod.byname.get(s)
                        if g is not None and R.is_dtor(g):
                            tg.append(g)
                self.effects(e, st, i, tg)

    def same_key(self, e, st, it, a, args):
        # erase by key: the key of the node
        k = it
        if k is not None and k[0] == 'm' and k[1] == ('node', a[1]) and k[2] == 0:
            return True
        if len(args) > 1:
            v = e.load(st, args[1], 8, None)
            return v == ('m', ('node', a[1]), 0)
        return False

    def on_mutated(self, e, st, i, M, op, args):
        R = self.R
        f = self.fld(e, M)
        if f is None:
            return
        o = e.obj_type(M) or ''
        if o.startswith('std::vector<std::thread') or f[0] == 'threadgroup':
            if op in ('emplace_back', 'push_back'):
                st.user['T'] = 1
                sv = self.slot(e, st, R.stop) if self.colroot else None
                if sv is not None:
                    self.need(sv == ZERO, 'P13', 'the stop request is withdrawn before threads start',
                              'threads are started while the stop request may still be set', i)
            elif op == 'clear':
                st.user['T'] = 0
        if f == R.cache and op in INSERT:
            self.pend(e, st, 'insert')
            st.user['abs'] = frozenset()
            st.user.pop('nb', None)

    def pair_at(self, e, st, p):
        b, o = split(p)
        return st.mem.get((b, o)), st.mem.get((b, o + 8))

    def before_insert(self, e, st, i, M, op, args):
        if self.thread:
            self.bad('P13', 'thread inserts', 'an encoding thread adds a block to the write cache', i)
            return
        a = [x for x in args[1:]]
        key = item = None
        if op in ('insert',) and a:
            key, item = self.pair_at(e, st, a[-1] if len(a) == 1 else a[1] if len(a) > 1 else a[0])
        elif op in ('emplace', 'try_emplace', 'insert_or_assign') and len(a) >= 2:
            key, item = e.load(st, a[0], 8, i), e.load(st, a[1], 8, i)
        elif op == 'emplace_hint' and len(a) >= 3:
            key, item = e.load(st, a[1], 8, i), e.load(st, a[2], 8, i)
        elif op == 'operator[]' and a:
            key = e.load(st, a[0], 8, i)
        if self.ro:
            self.bad('P14', 'block scheduled for writing', 'a block is added to the write cache although no value was put', i)
        self.proceed(e, st, i)
        self.need(self.lock_held(e, st, self.R.mutex), 'P13', 'insertion under the lock', 'a block is added to the write cache without the lock', i)
        if key is None:
            self.infos[('P13', 'key of the insertion not resolved at ' + i.where)] = 1
        else:
            cur = self.slot(e, st, self.R.current)
            self.need(cur == key or key == st.user.get('curkey'), 'P13', 'a block is stored under its own number', 'the block is stored with another number than that of the buffer', i)
            ab = any(x[0] == 'pred' and x[1] == 'absent' and x[3] == key and val and self.objname(e, x[2]) == self.R.cache for x, val in st.facts.items())
            self.need(ab, 'P13', 'a block number is only inserted when it is not waiting to be written',
                      'the block number may still be in the write cache, in which case the new block is dropped', i)
        if op == 'operator[]':
            st.user['opslot'] = (('r', i.id), key)
            self.stored(e, st, i)
        else:
            self.inserted(e, st, i, key, item)

    def stored(self, e, st, i):
        st.user['moved'] = 1
        st.user['stale'] = 1
        st.user['dirty'] = 0

    def inserted(self, e, st, i, key, item):
        R = self.R
        self.stored(e, st, i)
        if item is None or item[0] != 'new':
            self.infos[('P13', 'item of the insertion not resolved at ' + i.where)] = 1
            return
        enc = st.mem.get((item, R.itemoff[R.itembuf[1]]))
        busy = st.mem.get((item, R.itemoff[R.busy[1]]))
        took = st.user.get('took')
        cur = self.slot(e, st, R.buffer)
        if enc is None:
            self.infos[('P13', 'buffer of the item not resolved at ' + i.where)] = 1
        else:
            self.need(enc == took and enc != NULL, 'P13', 'the item owns the buffer of the block', 'the item does not hold the buffer that was filled', i)
            self.need(cur != enc, 'P13', 'the buffer is handed over', 'the buffer is still used by the column after it was handed to the threads', i)
        if busy is not None:
            self.need(busy == ZERO, 'P13', 'a new item is available to the threads', 'a new item is marked as being written, so that no thread takes it', i)

    # ------------------------------------------------------------ calls
    STREAM = re.compile(r'^std::(basic_)?(i|o|io|f)?stream(<.*>)?::|^std::basic_(ios|fstream|istream|ostream|iostream)<|^std::basic_(i|o|io|f)stream')

    def stream_op(self, e, i, nm, args):
        m = re.match(r'^std::(?:basic_)?(i|o|io|f|s)?(stream|os|s)(?:<.*>)?::(~?[a-z_A-Z0-9]+|operator.*)$', nm)
        if not m:
            m = re.match(r'^std::(ostream|istream|ios|fstream|iostream)::(~?\w+|operator.*)$', nm)
            return m.group(2) if m else None
        return m.group(3)

    def on_call(self, e, st, i, nm, args):
        R = self.R
        u = st.user
        # accesses of members through references
        cst = e.params(i)
        for a, t, c in zip(i.args, args, cst):
            if isinstance(a, int) and t[0] in ('+', 'm', 'arg', 'v') and (a in self.fn.argids or e.fn.inst[a].t == 'ptr'):
                f = self.fld(e, t)
                if f and f not in (R.cv, R.mutex, R.mgrmutex):
                    b, o = split(t)
                    if o == 0 and b[0] in ('m', 'v') and b[2:3]:
                        # pointer to an object held by a member
                        g = e.field(padd(b[1], b[2]))
                        if g and (g[0], g[1]) == R.stream:
                            self.access(e, st, i, padd(b[1], b[2]), 'w')
                            continue
                    if c and not f[1].startswith('<'):
                        self.access(e, st, i, t, 'r')
                    elif f[1] and not f[1].startswith('<') and o:
                        self.access(e, st, i, t, 'w')
        op = None
        sp = None
        for t in args[:2]:
            def holds(x):
                return x[0] == 'm' and (lambda g: g is not None and (g[0], g[1]) == R.stream)(e.field(padd(x[1], x[2])))
            if any_sub(t, holds):
                op = self.stream_op(e, i, nm, args)
                k = []
                any_sub(t, lambda x: holds(x) and k.append(x) is not None and False)
                for x in k[:1]:
                    self.access(e, st, i, padd(x[1], x[2]), 'w')
                if op is None:
                    op = '?'
                break
        if op:
            self.stream(e, st, i, nm, op, args)
        if nm == 'std::thread::join':
            self.joins(e, st, i)
        elif nm == 'std::thread::detach':
            self.bad('P13', 'thread detached', 'an encoding thread is detached, so that nothing waits for its end', i)
        elif nm.startswith('std::thread::thread') and self.colroot:
            self.need(self.slot(e, st, R.stop) == ZERO, 'P13', 'the stop request is withdrawn before threads start',
                      'threads are started while the stop request may still be set', i)
        elif re.match(r'^TimeBlockBuffer<.*>::', nm):
            self.buffer_call(e, st, i, nm.rsplit('::', 1)[-1], args)
        elif nm == 'operator delete' and self.thread and args and len(st.user['A']) > 1 and args[0] == st.user['A'][2]:
            a = st.user['A']
            self.need(self.lock_held(e, st, R.mutex) or a[0] == 'erased', 'P13', 'item deleted under the lock', 'an item that is in the write cache is deleted without the lock', i)
            self.need(a[0] in ('written', 'erased'), 'P13', 'an item is deleted once and after it was written', 'an item is deleted while it is %s' % a[0], i)
            st.user['A'] = ('idle',) if a[0] == 'erased' else ('deleted',) + a[1:]
        elif re.match(r'^dyscostman::BytePacker::pack', nm) and self.thread:
            self.step(e, st, i, ('encoded', 'packed'), 'packed', 'symbols are packed after encoding')
        elif nm.startswith('casacore::Array<') and nm.endswith('::operator='):
            u['zero'] = 1
        if nm.startswith('std::pair<') and re.search(r'::pair(<.*>)?$', nm) and len(args) == 3:
            b, o = split(args[0])
            for k, a in enumerate(args[1:]):
                st.mem[(b, o + 8 * k)] = e.load(st, a, 8, i) if a[0] != 'c' else a
            return ('pure', None)
        if re.match(r'^(sysconf|casacore::IPosition::(operator\[\]|\w+)|std::random_device)', nm):
            return None
        return None

    def stream(self, e, st, i, nm, op, args):
        if op in ('write', 'put', 'operator<<', 'flush', '_M_insert'):
            if self.ro:
                self.bad('P14', 'file written', 'the file is written although no value was put', i)
            if self.thread and op != 'flush':
                self.step(e, st, i, ('packed',), 'written', 'a block is written after encoding and packing')
        if op in ('seekg', 'seekp', 'seek'):
            st.user['pos'] = args[1] if len(args) > 1 else None
        if op in ('read', 'get', 'readsome') and self.colroot and not self.thread:
            pos = st.user.get('pos')
            bs = [b for b in st.user['abs'] if pos is not None and contains(pos, b)]
            self.need(bool(bs), 'P25', 'a block is only read when it is not waiting to be written',
                      'a block is read from the file while a newer version may still be in the write cache', i)
            st.user['read'] = bs[0] if bs else '?'
            st.user['partial'] = 1

    def buffer_call(self, e, st, i, m, args):
        R = self.R
        u = st.user
        if not self.colroot:
            return
        cur = self.slot(e, st, R.buffer)
        mine = args and args[0] == cur
        if m in ('ResetData',) or m.startswith('~TimeBlockBuffer'):
            if mine or m == 'ResetData':
                if self.base != 'Prepare' and not R.is_ctor(self.fn):
                    self.need(self.is_changed(e, st) == 0, 'P25', 'a buffer is only discarded when its values were stored',
                              'the buffer is emptied while it may hold values that were not stored', i)
                u['fresh'] = 1
                u['read'] = None
                u['partial'] = 1
        elif m == 'SetData':
            u['dirty'] = 1
            u['fresh'] = 0
            u['empty'] = 0
            u['got'] = 1
            self.row_arg(e, st, i, 'SetData', args)
            if u.get('moved'):
                u['moved'] = 0
        elif m == 'GetData':
            u['got'] = 1
            self.row_arg(e, st, i, 'GetData', args)
        elif m == 'resize':
            u['partial'] = 1
        elif m == 'Empty' and mine:
            u['emptyterm'] = ('r', i.id)

    def row_arg(self, e, st, i, what, args):
        R = self.R
        if len(args) < 2:
            return
        row = args[1]
        rpb = e.load(st, ('+', e.load(st, padd(('arg', 0), self.smoff(e)), 8, i), R.mgroff['_rowsPerBlock']), 4, i)
        init = e.eval(st, e.cmp(st, 'eq', rpb, ZERO))
        arg = ('arg', 1)
        cur = unsign(self.slot(e, st, R.current))
        if init is True:
            self.need(row == arg, 'P25', '%s: row of the first block' % what, 'the row of the buffer is not the row of the table while the first block is collected', i)
            return
        want = ('urem', arg, rpb)
        wantb = ('udiv', arg, rpb)
        if init is None:
            if row in (arg, want):
                self.infos[('P25', 'whether the layout is known is not resolved at ' + i.where)] = 1
                return
        self.need(row == want, 'P25', '%s: row within the block' % what, 'the row within the block is not the row number modulo the rows per block', i)
        okb = cur == wantb or e.eval(st, e.cmp(st, 'eq', cur, wantb)) is True
        self.need(okb, 'P25', '%s: buffer holds the block of the row' % what, 'the buffer may hold another block than that of the row', i)

    def smoff(self, e):
        return self.R.coloff.get('_storageManager') or self.find_off('_storageManager')

    def find_off(self, name):
        R = self.R
        if not hasattr(R, '_sm'):
            def walk(t, off):
                r = R.T.get(t)
                if not r:
                    return None
                for nm, mo, ms, mt in r['m']:
                    if nm == name:
                        return off + mo
                    if nm == '<base>':
                        x = walk(ap.norm_type(mt), off + mo)
                        if x is not None:
                            return x
                return None
            R._sm = walk(R.colclasses[0], 0)
        return R._sm

    def joins(self, e, st, i):
        if not self.T(st):
            return
        needs = set()
        for f in self.R.threadroots:
            needs |= self.R.summary(f)['locks']
        held = {self.lockname(e, m) for m in st.locks}
        self.need(not (held & needs), 'P11', 'no lock is held while waiting for threads', 'threads are joined while %s is held' % sorted(map(str, held & needs)), i)
        self.quiet(e, st, i, 'joining the threads')
        self.need(st.user.get('stopreq') == 1, 'P13', 'threads are asked to stop before they are joined', 'threads are joined without a stop request', i)

    def effects(self, e, st, i, fs):
        """effects of functions that are called through a table"""
        R = self.R
        needs = set()
        for f in R.threadroots:
            needs |= R.summary(f)['locks']
        held = {self.lockname(e, m) for m in st.locks}
        writes, does = set(), set()
        for g in fs:
            s = R.summary(g)
            writes |= s['writes']
            does |= s['does']
            for l in s['locks']:
                for h in held:
                    if h == l:
                        self.bad('P11', 'double lock through a call', '%s acquires %s, which is already held' % (R.label(g), l[1]), i)
                    else:
                        self.edges.add((h, l, self.name, i.where))
            if s['does'] & {'wait', 'join'}:
                self.need(not (held & needs), 'P11', 'no lock is held while waiting for threads',
                          '%s waits for threads while %s is held' % (R.label(g), sorted(map(str, held & needs))), i)
        if held and fs:
            self.ok('P11', 'call with a lock held', i)
        e.havoc_fields(st, {w for w in writes if w in self.track}, i.id)
        if does & {'start', 'join'}:
            st.user['T'] = 1
        if 'insert' in does:
            st.user['abs'] = frozenset()
            st.user.pop('nb', None)
        return writes, does

    def on_vcall(self, e, st, i, targets, args):
        R = self.R
        fs = [R.mod.byname[t] for t in targets or [] if t in R.mod.byname]
        self.effects(e, st, i, fs)
        if self.thread:
            hl = frozenset(x for x in (self.lockname(e, m) for m in st.locks) if x)
            for g in fs:
                self.vc.add((g.name, hl))
            enc = [t for t in args if t[0] in ('v', 'm') and (e.field(padd(t[1], t[2])) or ('', ''))[:2] == R.itembuf]
            if enc:
                a = st.user['A']
                self.step(e, st, i, ('marked',), 'encoded', 'an item is encoded after it was taken')
                if len(a) > 2:
                    self.need(enc[0][1] == a[2], 'P13', 'the taken item is encoded', 'another item than the taken one is encoded', i)
                self.quiet(e, st, i, 'encoding')
        elif self.colroot:
            cur = self.slot(e, st, R.buffer)
            if any(t == cur for t in args[1:]):
                st.user['partial'] = 1
        return None

    # ------------------------------------------------------------ exits
    def on_exit(self, e, st, i, kind):
        R = self.R
        u = st.user
        left = [m for m in st.locks if m[0] != 'ctx']
        self.need(not left, 'P11', 'locks are released at %s' % ('return' if kind == 'ret' else 'an exception'),
                  'the function ends with %s still locked' % [self.lockname(e, m) for m in left], i)
        if kind == 'ret':
            self.quiet(e, st, i, 'returning')
            self.proceed(e, st, i)
        if self.thread:
            if kind == 'ret' and self.fn in R.threadroots:
                self.need(u['A'][0] == 'idle', 'P13', 'a thread ends without an unfinished item', 'a thread ends while its item is %s' % u['A'][0], i)
                self.need(u.get('sawstop'), 'P13', 'a thread only ends when it is asked to', 'a thread can end without a stop request', i)
            return
        if not self.colroot:
            return
        if kind == 'ret':
            if self.is_ctor_of_col():
                self.need(self.slot(e, st, R.changed) == ZERO, 'P14', 'a new column has no unstored values', 'a new column claims to have unstored values', i)
            self.need(not u.get('dirty'), 'P25', 'values that were put are marked as unstored', 'a value is put in the buffer without marking it as unstored', i)
            if u.get('stale'):
                self.bad('P13', 'a block that was handed over is stored again', 'after the block was handed to the threads it is still marked as unstored', i)
            if self.ro and not R.is_dtor(self.fn):
                self.need(self.is_changed(e, st) == 0, 'P14', 'reading leaves nothing to store', 'values are marked as unstored although no value was put', i)
            if self.base == 'shutdown':
                self.need(self.T(st) == 0, 'P13', 'no thread runs after shutdown', 'shutdown may return while threads run', i)
                self.need(self.is_changed(e, st) == 0, 'P13', 'no unstored values after shutdown', 'shutdown may return without handing over unstored values', i)
            if self.reads() and not u.get('got'):
                self.zero_return(e, st, i)
        else:
            if u.get('partial'):
                c = unsign(self.slot(e, st, R.current))
                self.need(c == C(MAXK), 'P25', 'a partly filled buffer does not count as a block',
                          'when an exception is thrown, the buffer is taken for a block that was not completely loaded', i)

    def reads(self):
        return re.match(r'^getArray', self.base) and any('::GetData' in x.cdem for x in self.fn.calls())

    def is_ctor_of_col(self):
        return self.R.is_ctor(self.fn)

    def zero_return(self, e, st, i):
        ok = False
        for x, val in st.facts.items():
            if x[0] == 'ult' and not val and (x[2], x[1]) in st.user.get('nb', ()):
                ok = True
        self.need(ok, 'P25', 'zeros are only returned for rows that were never put',
                  'a row is answered without its values although its block may be stored or waiting to be written', i)


def analyse(R, fn, thread=False, ro=False, held=()):
    vol = {R.stop, R.cache, R.busy, R.itembuf}
    for coarse in (False, True):
        rule = Conc(R, fn, thread, ro, held)
        rule.coarse = coarse
        e = flow.Engine(R.mod, R.T, fn, rule, volatile=vol)
        if thread:
            e.ignore_unwind = True
        e.run()
        if not e.capped:
            break
    return rule, e


# ---------------------------------------------------------------- driver
RO_EXCL = re.compile(r'^(put|create|addColumn|removeColumn|deleteManager|addRow|removeRow)')
FILES = ('checks/conc.py', 'vfw/flow.py', 'vfw/roles.py', 'vfw/ap.py', 'vfw/vslot.py', 'vfw/s1.py', 'vfw/ir.py')
_ctx = {}


def pack(R, fn, rule, e):
    return dict(name=fn.name, label=R.label(fn), thread=rule.thread, ro=rule.ro, events=rule.events, viol=rule.viol, oblig=rule.oblig,
                edges=rule.edges, infos=sorted(rule.infos), visited=e.visited, capped=e.capped, column=rule.colroot, base=rule.base,
                dtor=R.is_dtor(fn), fresh=rule.fresh_root)


def _job(k):
    R = _ctx['R']
    name, thread, ro, held = _ctx['jobs'][k]
    fn = R.mod.byname[name]
    sys.setrecursionlimit(100000)
    if not thread:
        rule, e = analyse(R, fn, False, ro, held)
        return [pack(R, fn, rule, e)]
    # a thread function and the virtual functions it calls, in the context of each call
    out, done, todo = [], set(), [(name, tuple(held))]
    while todo:
        x = todo.pop()
        if x in done or x[0] not in R.mod.byname:
            continue
        done.add(x)
        f = R.mod.byname[x[0]]
        rule, e = analyse(R, f, True, False, x[1])
        out.append(pack(R, f, rule, e))
        todo += [(a, tuple(sorted(b))) for a, b in sorted(rule.vc, key=str)]
    return out


def results():
    mod = s1.load()
    h = hashlib.sha256()
    base = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for f in FILES:
        with open(os.path.join(base, f), 'rb') as fh:
            h.update(fh.read())
    p = os.path.join(build.cache_dir(), 'conc.%s.pickle' % h.hexdigest()[:16])
    if os.path.exists(p):
        with open(p, 'rb') as f:
            return pickle.load(f)
    R = roles.Roles(mod)
    jobs = [(f.name, True, False, ()) for f in R.threadroots]
    for f in R.entries:
        jobs.append((f.name, False, False, ()))
        if not RO_EXCL.match(R.base(f)):
            jobs.append((f.name, False, True, ()))
    _ctx['R'], _ctx['jobs'] = R, jobs
    order = sorted(range(len(jobs)), key=lambda k: -len(R.mod.byname[jobs[k][0]].blocks) * (3 if jobs[k][1] else 1))
    with mp.get_context('fork').Pool(min(8, os.cpu_count() or 1)) as pool:
        res = [x for l in pool.map(_job, order, chunksize=1) for x in l]
    out = dict(res=res, globals=global_stores(R), roles={k: getattr(R, k) for k in (
        'col', 'mutex', 'cv', 'cache', 'item', 'buffer', 'busy', 'itembuf', 'mgr', 'stream', 'mgrmutex', 'stop', 'changed', 'current', 'mgrwritten')})
    with open(p + '.%d' % os.getpid(), 'wb') as f:
        pickle.dump(out, f, protocol=4)
    os.replace(p + '.%d' % os.getpid(), p)
    return out


def global_stores(R):
    """stores to variables with static storage in code that runs in the encoding threads"""
    seen, todo, out = set(), [f.name for f in R.threadroots], []
    while todo:
        n = todo.pop()
        if n in seen or n not in R.mod.byname:
            continue
        seen.add(n)
        f = R.mod.byname[n]
        for i, tg, fs in R.vtargets(f):
            todo += [g.name for g in fs]
        guards = [i for i in f.calls() if i.cq == '__cxa_guard_acquire']
        for i in f.insts():
            if i.op in ('call', 'invoke') and i.callee:
                todo.append(i.callee)
            if i.op == 'store':
                o = i.ops[1]
                while isinstance(o, int) and o not in f.argids and f.inst[o].op in ('getelementptr', 'bitcast'):
                    o = f.inst[o].ops[0]
                while isinstance(o, dict) and o['k'] == 'gepc':
                    o = o['b']
                if isinstance(o, dict) and o['k'] == 'glob' and not guards:
                    out.append((R.label(f), o['n'], i.where))
    return dict(functions=len(seen), stores=out)


# ---------------------------------------------------------------- checks
def common(r, prop, minimum):
    d = results()
    nob = 0
    roots = states = 0
    for x in d['res']:
        roots += 1
        states += x['visited']
        for (p, k), text in sorted(x['viol'].items()):
            if p == prop:
                r.bad(k, text)
        for (p, k), n in sorted(x['oblig'].items()):
            if p == prop:
                nob += 1
                r.ok(k, '%d states' % n)
        for (p, k) in x['infos']:
            if p == prop:
                r.undecided(x['label'], k)
        if x['capped']:
            r.undecided(x['label'], 'more than %d states at a point of this function, the rest was not followed' % flow.CAP)
    r.count('roots', roots)
    r.count('states', states)
    r.require(nob >= minimum or r.violations, 'only %d obligations were found for %s' % (nob, prop))
    return d


ASSUME = ['operations on condition variables and mutexes do not throw; an exception in an encoding thread ends the process',
          'functions of casacore base classes do not change members of this library',
          'casacore calls create or open once on a new manager, and prepare directly after it']


def p10(r):
    r.assumptions += ASSUME
    d = results()
    ro = d['roles']
    colset = {ro['cache'], ro['stop'], ro['busy']}
    mgrset = {ro['stream']} | set(ro['mgrwritten'])
    ev = {}
    for x in d['res']:
        for (ctx, nm, f, rw, held, T, where, fresh) in x['events']:
            ev.setdefault((ctx, nm, f, rw, held, T, fresh, x['dtor'], x['base']), set()).add(where)
        if x['capped']:
            r.undecided(x['label'], 'not all paths were followed')
    n = 0
    for (ctx, nm, f, rw, held, T, fresh, dtor, base), where in sorted(ev.items(), key=str):
        w = ', '.join(sorted(where)[:3])
        name = '%s in %s' % ('::'.join(f), nm)
        if f in colset:
            if ctx == 'user' and (T == 0 or fresh):
                continue
            n += 1
            r.check(ro['mutex'] in held, name, '%s is %s without the lock of the column while encoding threads may run (%s)' % ('::'.join(f), 'changed' if rw == 'w' else 'read', w)
                    if ro['mutex'] not in held else w)
        elif f in mgrset:
            if ctx == 'user' and (fresh or dtor or base in ('create', 'open')):
                continue
            if f == ro['stream'] and rw == 'r':
                continue
            n += 1
            r.check(ro['mgrmutex'] in held, name, '%s is %s without the lock of the manager (%s)' % ('::'.join(f), 'changed' if rw == 'w' else 'read', w)
                    if ro['mgrmutex'] not in held else w)
    r.count('accesses of protected members', n)
    # other members that the threads change
    own = {ro['col'], ro['mgr']} | {f[0] for (ctx, nm, f, *_) in ev if re.match(r'^(Dysco|Threaded|CacheItem|EncodingThread)', f[0])}
    fields = {f for (ctx, nm, f, rw, *_) in ev if ctx == 'thread' and rw == 'w' and f[0] in own} - colset - mgrset - {ro['itembuf'], ro['mutex'], ro['mgrmutex'], ro['cv']}
    for f in sorted(fields):
        locks = None
        bad = None
        for (ctx, nm, g, rw, held, T, fresh, dtor, base), where in sorted(ev.items(), key=str):
            if g != f or ctx == 'user' and (T == 0 or fresh):
                continue
            h = set(held)
            locks = h if locks is None else locks & h
            if not locks and bad is None:
                bad = (nm, sorted(where)[0])
        r.check(bool(locks), '%s is changed by the threads' % '::'.join(f),
                'the member is changed by the encoding threads without one lock that protects all its accesses (%s)' % (bad,) if not locks else 'always under %s' % sorted(locks))
        n += 1
    g = d['globals']
    r.count('functions that run in encoding threads', g['functions'])
    for (nm, v, where) in g['stores']:
        r.bad('static variable in %s' % nm, 'a variable with static storage (%s) is changed by code that runs in several threads at once (%s)' % (v, where))
    r.ok('no static variable is changed by code of the encoding threads', '%d functions' % g['functions'])
    r.require(n >= 8, 'only %d accesses of shared members were found' % n)


def p11(r):
    r.assumptions += ASSUME
    d = common(r, 'P11', 10)
    # order of locks
    g = {}
    for x in d['res']:
        for (a, b, nm, where) in x['edges']:
            g.setdefault(a, {}).setdefault(b, (nm, where))
    r.count('nested acquisitions', sum(len(v) for v in g.values()))

    def reach(a, b, seen):
        if a == b:
            return True
        seen.add(a)
        return any(reach(c, b, seen) for c in g.get(a, {}) if c not in seen)
    for a in sorted(g, key=str):
        for b, (nm, where) in sorted(g[a].items(), key=str):
            r.check(not reach(b, a, set()), 'order of %s and %s' % (a and a[1], b and b[1]), 'in %s (%s) a lock is acquired while another one is held that is elsewhere acquired in the other order' % (nm, where))
    r.ok('the order in which locks are acquired has no cycle', '%d pairs' % sum(len(v) for v in g.values()))


def p12(r):
    r.assumptions += ASSUME
    common(r, 'P12', 10)


def p13(r):
    r.assumptions += ASSUME
    d = common(r, 'P13', 15)
    # what the threads read does not change while they run
    ro = d['roles']
    skip = {ro['cache'], ro['stop'], ro['busy'], ro['itembuf'], ro['mutex'], ro['cv'], ro['mgrmutex'], ro['stream']} | set(ro['mgrwritten'])
    cls = {x['label'].split('::')[0] for x in d['res'] if x['column']} | {ro['col'], 'DyscoStManColumn'}
    rd = {}
    for x in d['res']:
        for (ctx, nm, f, rw, held, T, where, fresh) in x['events']:
            if ctx == 'thread' and f[0] in cls and f not in skip:
                rd.setdefault(f, []).append((nm, held))
    for f in sorted(rd):
        bad = None
        for x in d['res']:
            if not x['column'] or x['fresh'] or x['base'] == 'Prepare':
                continue
            for (ctx, nm, g, rw, held, T, where, fresh) in x['events']:
                if g == f and rw == 'w' and ctx == 'user' and T != 0 and not all(set(held) & set(h) for _, h in rd[f]):
                    bad = bad or (nm, where)
        r.check(bad is None, 'settings used by the threads: %s' % '::'.join(f),
                'the member is changed in %s (%s) while encoding threads that use it may run' % bad if bad else 'only changed before threads start or after they ended')


def p14(r):
    r.assumptions += ASSUME
    common(r, 'P14', 5)
    mod = s1.load()
    R = roles.Roles(mod)
    file_modes(r, R)


TRUNC = 1 << 5      # std::ios::trunc of libstdc++
OUT, IN, APP = 1 << 4, 1 << 3, 1 << 0


def const_mode(f, o):
    if isinstance(o, dict):
        return int(o['v']) if o['k'] == 'int' else None
    if o in f.argids:
        return None
    i = f.inst[o]
    if i.op in ('call', 'invoke'):
        m = re.match(r'^std::operator(\||&|\^)$', ap.strip_args(i.cdem))
        if m and len(i.args) == 2:
            a, b = const_mode(f, i.args[0]), const_mode(f, i.args[1])
            if a is not None and b is not None:
                return {'|': a | b, '&': a & b, '^': a ^ b}[m.group(1)]
    if i.op in ('or', 'and', 'xor'):
        a, b = const_mode(f, i.ops[0]), const_mode(f, i.ops[1])
        if a is not None and b is not None:
            return {'or': a | b, 'and': a & b, 'xor': a ^ b}[i.op]
    return None


def file_modes(r, R):
    """open modes of the streams: only create may make or empty the file"""
    n = 0
    readonly = unknown = 0
    for f in R.entries:
        if R.base(f) in ('create', 'create64'):
            continue
        for i in f.calls():
            nm = ap.strip_args(i.cdem)
            if not re.match(r'^std::(basic_)?(i|o)?f(stream|ilebuf)(<.*>)?::(basic_)?(i|o)?(f(stream|ilebuf)|open)$|^std::basic_(i|o)?f(stream|ilebuf)<.*>::(basic_\w+|open)$', nm):
                continue
            if len(i.args) < 3:
                continue
            mode = const_mode(f, i.args[-1])
            if mode is None:
                unknown += 1
                r.undecided(R.label(f), 'mode of the stream at %s' % i.where)
                continue
            n += 1
            if R.base(f) in ('open', 'open64') and not mode & (OUT | APP):
                readonly += 1
            r.check(not mode & TRUNC and not (mode & OUT and not mode & (IN | APP)), '%s: mode of the stream' % R.label(f),
                    'the file is emptied when it is opened (mode %d at %s)' % (mode, i.where))
    r.check(readonly or unknown, 'open: files that are read-only', 'the file is never opened for reading only, so that a table that may not be changed can not be read')
    r.count('stream openings outside create', n)


def p25(r):
    r.assumptions += ASSUME
    common(r, 'P25', 15)
    import buffer
    buffer.p34_parts(r, ('SetData', 'GetData', 'FillMissingRows'))
    import loads
    import mgr
    loads.loads(mgr.data(), r)
