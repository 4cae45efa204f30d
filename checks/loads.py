"""The rows of a block that is read from the file or handed over for writing (P25): every row of the table that a
stored block holds is decoded when the block is loaded, and a block is handed over with all its rows set."""
import time

from vfw import flow, randint
from vfw.flow import C, split, contains
from cols import Col, Judge, Site, colruns, entry_points, group, view, verdict, ROW
from mgr import data, strip_w, subterms
import mgr

READS = ('Empty', 'MaxAntennaIndex', 'NRows', 'NPolarizations', 'NChannels', 'GetData', 'ConvertVector')
INSERT = ('insert', 'emplace', 'emplace_hint', 'insert_or_assign', 'try_emplace', 'operator[]')


class Walk(flow.Engine):
    """tells the rule when the loop it looks at is entered and left"""

    def setloop(self, header, body):
        self.lh, self.lb = header, body

    def enter(self, nb, st, pb):
        inside = pb in self.lb
        if not inside and nb == self.lh and st.user['g'] is not None:
            init = {}
            for i in self.fn.blocks[nb].insts:
                if i.op != 'phi':
                    break
                for v, p in i.raw['in']:
                    if p == pb:
                        init[i.id] = self.term(st, v)
            self.rule.entries.add((st.user['g'], self.rule.now_facts(st), tuple(sorted(init.items()))))
            st.user['g'] = ()
        elif inside and nb not in self.lb and st.user['g'] is not None:
            if not self.rule.dead(self.fn, nb):
                self.rule.exits.add((st.user['g'], self.rule.now_facts(st), tuple(sorted((k, v) for k, v in st.regs.items() if k in self.rule.phis))))
            st.user['g'] = None
        elif inside and nb == self.lh and st.user['g'] is not None:
            nx = {}
            for i in self.fn.blocks[nb].insts:
                if i.op != 'phi':
                    break
                for v, p in i.raw['in']:
                    if p == pb:
                        nx[i.id] = self.term(st, v)
            self.rule.trans.add((st.user['g'], self.rule.now_facts(st), tuple(sorted((k, v) for k, v in st.regs.items() if k in self.rule.phis)),
                                 tuple(sorted(nx.items()))))
            st.user['g'] = ()
        return flow.Engine.enter(self, nb, st, pb)


class Load(Col):
    def __init__(self, R, fn, members, colmembers, phis):
        Col.__init__(self, R, fn, members, colmembers)
        self.phis = phis
        self.entries, self.exits, self.trans, self.by = set(), set(), set(), set()
        self.hand = set()
        self.rpb = list(members)[0]
        self._dead = {}

    def start(self, e, st):
        Col.start(self, e, st)
        st.user['g'] = None
        st.user['set'] = False

    def now_facts(self, st):
        return frozenset(st.facts.items())

    def dead(self, fn, b):
        """only leads to the end by an exception"""
        if b not in self._dead:
            seen, todo, ok = set(), [b], True
            while todo and ok:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                last = fn.blocks[x].insts[-1]
                if last.op == 'ret':
                    ok = False
                todo += fn.blocks[x].succ
            self._dead[b] = ok
        return self._dead[b]

    def on_assume(self, e, st, t, val):
        Col.on_assume(self, e, st, t, val)
        g = st.user['g']
        if g is not None and len(g) < 60:
            st.user['g'] = g + (('if', t, bool(val)),)

    def site(self, i, what, st, s, args):
        Col.site(self, i, what, st, s, args)
        if what == 'read':
            st.user['g'] = ()
        elif what == 'v:decode' and st.user['g'] is not None:
            st.user['g'] = st.user['g'] + (('row', args[3] if len(args) > 3 else None),)

    def finish(self, e, st):
        if st.user['g'] is not None:
            self.by.add((st.user['g'], self.now_facts(st)))
            st.user['g'] = None

    def on_call(self, e, st, i, nm, args):
        m = e.cls_of(nm[5:] if nm[:5] in ('bool ', 'void ') else nm)
        if m[0].startswith('TimeBlockBuffer<') and m[1].split('<')[0] in ('GetData', 'SetData') and st.user['g'] is not None:
            self.finish(e, st)
        if m[0].startswith('TimeBlockBuffer<'):
            b = m[1].split('<')[0]
            if b == 'FillMissingRows':
                ok = False
                for (x, o), val in st.mem.items():
                    f = e.field(flow.padd(x, o))
                    if f and f[:2] == self.rpb:
                        ok = randint.equal(e, args[1], e, val, n=6, small=16)
                        break
                else:
                    ok = any(t[0] == 'm' and isinstance(t[2], int) and (e.field(flow.padd(t[1], t[2])) or ())[:2] == self.rpb for t in [strip_w(args[1])])
                st.user['set'] = ok if ok else 'part'
            elif b not in READS:
                st.user['set'] = False if b in ('SetData', 'ResetData', 'TimeBlockBuffer') else '?'
        return Col.on_call(self, e, st, i, nm, args)

    def on_container(self, e, st, i, M, op, args):
        f = e.field(M)
        if f and f[:2] == self.R.cache[:2] and op in INSERT:
            self.hand.add(st.user['set'])
        return Col.on_container(self, e, st, i, M, op, args)

    def on_exit(self, e, st, i, kind):
        if kind == 'ret':
            self.finish(e, st)
        Col.on_exit(self, e, st, i, kind)


def body_of(fn, header, e):
    body = {header}
    for b, h in e.header:
        if h != header:
            continue
        todo = [b]
        while todo:
            x = todo.pop()
            if x in body:
                continue
            body.add(x)
            todo += fn.blocks[x].preds
    return body


def decode_loop(e, fn, insts):
    """the innermost loop that holds the places"""
    blk = {i.id: b for b in fn.blocks for i in fn.blocks[b].insts}
    best = None
    for h in {h for b, h in e.header}:
        body = body_of(fn, h, e)
        if all(blk.get(i) in body for i in insts) and (best is None or len(body) < len(best[1])):
            best = (h, body)
    return best


class Stop(Exception):
    pass


def holds(env, facts, guards, loose):
    """do the conditions hold; what can not be evaluated is remembered"""
    for f, val in list(facts) + [(x[1], x[2]) for x in guards if x[0] == 'if']:
        try:
            if (env.value(f) & 1) != int(val):
                return False
        except (randint.Unknown, TypeError, ValueError):
            loose.append(f)
    return True


def simulate(env, entries, exits, trans, by, limit):
    """the sets of rows that are decoded, one for every way the conditions leave open; None when it ends in an exception"""
    out, loose, count = [], [], [0]

    def setphis(ph):
        env.bind = {k: v for k, v in env.bind.items() if not (k[0] == 'u' and isinstance(v, int))}
        for k, v in ph.items():
            env.bind[('u', k)] = v
        env.memo.clear()

    def vals(l):
        r = {}
        for k, t in l:
            try:
                r[k] = env.value(t)
            except (randint.Unknown, TypeError, ValueError):
                pass
        return r

    def fits(ph, regs):
        for k, t in regs:
            if t[0] == 'c' and k in ph and ph[k] != t[1] & randint.M64:
                return False
            if t[0] not in ('c', 'u') and k in ph:
                try:
                    if env.value(t) != ph[k]:
                        return False
                except (randint.Unknown, TypeError, ValueError):
                    pass
        return True

    def go(ph, rows, n, seen):
        count[0] += 1
        if n > limit or count[0] > 300:
            raise Stop()
        setphis(ph)
        found = False
        cont = set()
        for g, fa, regs in exits:
            setphis(ph)
            if fits(ph, regs) and holds(env, fa, g, loose):
                out.append(rows + decoded(g))
                found = True
        for g, fa, regs, nx in trans:
            setphis(ph)
            if fits(ph, regs) and holds(env, fa, g, loose):
                cont.add((tuple(sorted(vals(nx).items())), rows + decoded(g)))
        for p2, r2 in cont:
            go(dict(p2), r2, n + 1, seen)

    def decoded(g):
        r = ()
        for x in g:
            if x[0] == 'row':
                try:
                    r += (env.value(x[1]),)
                except (randint.Unknown, TypeError, ValueError):
                    raise Stop()
        return r
    setphis({})
    starts = set()
    for g, fa, init in entries:
        if holds(env, fa, g, loose):
            starts.add(tuple(sorted(vals(init).items())))
    for g, fa in by:
        if holds(env, fa, g, loose):
            out.append(decoded(g))
    for s in starts:
        go(dict(s), (), 0, ())
    return out, loose


def loads(d, r):
    R, v = d.R, view(d)
    n = m = 0
    nrow = table_rows(d)
    # the threads might set the missing rows themselves
    late = any(thr and any(s.what == 'tb:FillMissingRows' for s in sites) for f, e, sites, thr in colruns(d))
    for f, e0, sites, thr in colruns(d):
        if thr:
            continue
        dec = {s.i.id for s in sites if s.what == 'v:decode'}
        lab = R.label(f)
        if not dec and not any(i.op in ('call', 'invoke') for b in f.blocks for i in f.blocks[b].insts):
            continue
        lp, phis = decode_loop(e0, f, dec) if dec else None, set()
        for i in f.blocks[lp[0]].insts if lp else ():
            if i.op != 'phi':
                break
            phis.add(i.id)
        rule = Load(R, f, {v.rpb, v.ants}, {v.cur}, phis)
        rule.rpb = v.rpb
        e = Walk(R.mod, R.T, f, rule)
        e.setloop(lp[0] if lp else -1, lp[1] if lp else set())
        rule.eng = e
        e.run()
        d.states += e.visited
        if rule.hand:
            m += 1
            name = '%s: a block is handed over with all its rows' % lab
            if e.capped or late or rule.hand & {'?'}:
                r.undecided(name, '')
            else:
                r.check(rule.hand == {True}, name, 'a block is handed over for writing without having set all rows of a block that were not put: %s' % (
                    'these are not all rows per block' if 'part' in rule.hand else 'their values are undefined'))
        if not dec:
            continue
        name = '%s: every row of a stored block is decoded' % lab
        n += 1
        if lp is None:
            r.undecided(name, 'the rows are not decoded in a loop')
            continue
        if e.capped:
            r.undecided(name, 'too many states')
            continue
        res, why = judge(d, e, rule, nrow)
        r.count('decoding steps', len(rule.trans) + len(rule.exits) + len(rule.entries))
        verdict(r, res, name, '', 'the rows that are decoded when a stored block is loaded are not all rows of the block that the table has: %s' % (why,))
    r.require(n, 'no function that loads a block was found')
    r.require(m, 'no function that hands over a block was found')


def table_rows(d):
    """the member with the number of rows of the table"""
    f = next((f for f in mgr.mgr_roots(d) if d.R.base(f) == 'addRow'), None)
    if f is None:
        return None
    rule, e = mgr.analyse(d, f)
    out = set()
    for p in rule.paths:
        for (b, o), val in p.mem.items():
            x = e.field(flow.padd(b, o))
            if x and b == ('arg', 0) and contains(val, ('arg', 1)):
                out.add((x[0], x[1]))
    return out.pop() if len(out) == 1 else None


def judge(d, e, rule, nrow):
    v = view(d)
    n, some, bad, odd = 0, 0, None, 0
    t0 = time.time()
    names = {v.rpb: 'rows', v.ants: 'ants'}
    for c in col_ants(d):
        names[c] = 'ants'
    if nrow:
        names[nrow] = 'nrow'
    for k in range(600):
        rows = 1 + k % 4
        row = (k // 4) % 9
        total = (k // 36) % 13
        if total <= row:
            continue
        if time.time() - t0 > 60:
            odd += 1
            break
        env = randint.Env(e, k, {('cur', v.rpb): 'rows', ('cur', v.ants): 'ants', ROW: row}, 2, names)
        env.over[('bind', 'rows')] = rows
        env.over[('bind', 'nrow')] = total
        env.over[('bind', 'ants')] = 4
        try:
            out, loose = simulate(env, rule.entries, rule.exits, rule.trans, rule.by, rows + total + 4)
        except Stop:
            odd += 1
            continue
        if not out:
            continue
        start = row // rows * rows
        want = tuple(b for b in range(rows) if start + b < total)
        n += 1
        sets = {tuple(sorted(x)) for x in out}
        if sets == {want}:
            some += len(want) > 1
        elif want not in sets and not odd:
            bad = bad or '%d rows per block, row %d of %d: rows %s of the block are decoded, not %s' % (
                rows, row, total, ' or '.join(str(list(x)) for x in sorted(sets)[:2]), list(want))
        else:
            odd += 1
    if bad:
        return False, bad
    return (True if some > 5 and not odd else None), '%d samples, %d unclear' % (n, odd)


def col_ants(d):
    from cols import col_members
    return col_members(d).ants
