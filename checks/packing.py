"""Bit packing: canonical layout, extents, supported bit counts."""
import os
from vfw import build, ir, ap, s1, vslot
from vfw.sccp import SCCP, NN
from vfw.bits import Machine, Lin, Ptr, Bits, CantDo, OutOfShape

M = 8   # n = 8*q + r; every group size used for packing divides 8
PIPE = ('always-inline,globaldce,function(sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,'
        'loop-simplify,lcssa,instcombine<no-verify-fixpoint>,simplifycfg<no-sink-common-insts>,loop-simplify)')


def load():
    unit = os.path.join(build.VERIF, 'harness', 'packer.cc')
    raw = build.dump([unit], ['--do-inline', '--clone-roots', '--root=^h_', '--pp=' + PIPE], 'packer')
    return ir.Module(raw)


def run(fn, b, n, kind, qmin):
    if kind == 'pack':
        m = Machine(fn, [Lin(b), Ptr('out', Lin(0)), Ptr('in', Lin(0)), n], 'in', b, 'out', qmin)
    else:
        m = Machine(fn, [Lin(b), Ptr('out', Lin(0)), Ptr('in', Lin(0)), n], 'in', 0, 'out', qmin)
    m.run()
    return m


def judge(m, b, n, kind):
    """returns list of faults of one abstract run; CantDo if the shape can not be judged"""
    faults = []
    lo = m.lo
    nbits = n.scale(b) + 7
    nbytes = nbits.divfloor(8)
    limit_in = n if kind == 'pack' else nbytes

    def below(x, lim, T=None, var=None):
        if var and T is not None:
            x = x.subst(var, T - 1) if x.coef(var) > 0 else x.subst(var, Lin(0))
        return (lim - x).minimum(lo) > 0
    for a, loop in m.reads:
        var, T = loop if loop else (None, None)
        if not below(a, limit_in, T, var) or (a.subst(var, Lin(0)) if var else a).minimum(lo) < 0:
            faults.append('reads element %s of the input, beyond its %s elements' % (a, limit_in))
    # collect written units
    segs = [(None, None, {a: v for (base, a), v in m.mem.items() if base == 'out'})]
    segs += [(var, T, mem) for var, T, mem, base in m.loopmem if base == 'out']
    for var, T, mem in segs:
        if T is not None and T.const and T.c == 0:
            continue
        for a, bits in mem.items():
            for j in range(8):
                got = bits[j]
                if kind == 'pack':
                    pos = a.scale(8) + j
                    idx, bit = pos.divfloor(b), pos.mod(b)
                    want = ('in', idx, bit)
                    if got == want:
                        continue
                    # past the last symbol: any value, as long as nothing foreign is read
                    x = idx
                    if var:
                        x = x.subst(var, T - 1)
                    if (x - n).minimum(lo) >= 0 if _sign(x - n, lo) else False:
                        continue
                    faults.append('byte %s bit %d holds %s instead of %s' % (a, j, fmt(got), fmt(want)))
                else:
                    idx, byte = a.divfloor(4), a.mod(4)
                    e = 8 * byte + j
                    if e < b:
                        pos = idx.scale(b) + e
                        want = ('in', pos.divfloor(8), pos.mod(8))
                    else:
                        want = 0
                    if got != want:
                        faults.append('symbol %s bit %d is %s instead of %s' % (idx, e, fmt(got), fmt(want)))
    # coverage: contiguous from 0 to the limit
    total = nbytes if kind == 'pack' else n.scale(4)
    ivs = []
    for var, T, mem in segs:
        if var is None:
            for a in mem:
                ivs.append((a, a + 1))
            continue
        if T.const and T.c == 0:
            continue
        strides = {a.coef(var) for a in mem}
        if len(strides) != 1:
            raise CantDo('strides')
        P = strides.pop()
        c = sorted(a.subst(var, Lin(0)).c for a in mem)
        rest = {Lin(0, a.subst(var, Lin(0)).m) for a in mem}
        if len(rest) != 1 or P <= 0:
            raise CantDo('loop writes with different bases')
        if c != list(range(c[0], c[0] + P)):
            missing = [x for x in range(c[0], c[0] + P) if x not in c]
            if len(c) < P and c[-1] - c[0] < P:
                faults.append('a loop skips %d of every %d output bytes (offsets %s)' % (P - len(c), P, missing))
                continue
            raise CantDo('loop coverage')
        start = rest.pop() + c[0]
        ivs.append((start, start + T.scale(P)))
    pos, left, used = Lin(0), list(ivs), []
    while pos != total:
        nx = [iv for iv in left if iv[0] == pos]
        if not nx:
            break
        if len(nx) > 1:
            raise CantDo('overlapping writes')
        left.remove(nx[0])
        used.append(nx[0])
        pos = nx[0][1]
    if pos != total:
        faults.append('output is only written up to byte %s of %s' % (pos, total))
    for iv in left:
        if _sign(iv[0] - total, lo) and (iv[0] - total).minimum(lo) >= 0:
            faults.append('writes output byte %s beyond the end %s' % (iv[0], total))
        elif pos == total:
            raise CantDo('writes at %s not placed' % (iv,))
    return faults


def _sign(x, lo):
    return all(v >= 0 for _, v in x.m)


def fmt(v):
    if isinstance(v, tuple):
        return 'bit %d of input %s' % (v[2], v[1])
    return 'an undetermined value' if v is None else str(v)


def analyse_rate(fn, b, kind, nbound):
    """returns (mode, faults, runs)"""
    faults, runs = [], 0
    try:
        for r in range(M):
            n = Lin(r, {'q': M})
            m = run(fn, b, n, kind, 1)
            runs += 1
            if m.threw:
                return 'throws', [], runs
            faults += ['n=8q+%d: %s' % (r, f) for f in judge(m, b, n, kind)]
        for r in range(M):
            n = Lin(r)
            m = run(fn, b, n, kind, None)
            runs += 1
            faults += ['n=%d: %s' % (r, f) for f in judge(m, b, n, kind)]
        return 'all n', faults, runs
    except CantDo as e:
        why = str(e)
    faults = []
    for k in range(nbound + 1):
        m = run(fn, b, Lin(k), kind, None)
        runs += 1
        if m.threw:
            return 'throws', [], runs
        faults += ['n=%d: %s' % (k, f) for f in judge(m, b, Lin(k), kind)]
        if len(faults) > 20:
            break
    return 'n<=%d (%s)' % (nbound, why), faults, runs


def thrown(fn, b):
    m = Machine(fn, [Lin(b), Ptr('out', Lin(0)), Ptr('in', Lin(0)), Lin(0)], 'in', b, 'out', None)
    m.run()
    return m.threw


def supported_rates(mod, r):
    """rates for which pack and unpack do not throw (dispatch decided for every value of the bit count)"""
    sets = {}
    for kind in ('h_pack', 'h_unpack'):
        fn = mod.byname[kind]
        sets[kind] = {b for b in range(0, 257) if not thrown(fn, b)}
    return sets


def tier_bound():
    return 400 if os.environ.get('VERIF_TIER') == 'thorough' else 120


RATES = (2, 3, 4, 6, 8, 10, 12, 16)


def p_layout(r):
    mod = load()
    runs = 0
    for b in RATES:
        for kind in ('pack', 'unpack'):
            fn = mod.byname['h_' + kind]
            mode, faults, k = analyse_rate(fn, b, kind, tier_bound())
            runs += k
            faults = [f for f in faults if ' bit ' in f or 'holds' in f]
            if mode == 'throws':
                r.bad('%s(%d)' % (kind, b), '%s refuses the documented bit count %d' % (kind, b))
            elif faults:
                r.bad('%s(%d)' % (kind, b), '; '.join(faults[:6]))
            else:
                r.ok('%s(%d) canonical' % (kind, b), mode)
    r.count('abstract_runs', runs)
    r.count('rates', len(RATES))


def p_extent(r):
    mod = load()
    runs = 0
    for b in RATES:
        for kind in ('pack', 'unpack'):
            fn = mod.byname['h_' + kind]
            mode, faults, k = analyse_rate(fn, b, kind, tier_bound())
            runs += k
            faults = [f for f in faults if 'beyond' in f or 'only written' in f or 'skips' in f]
            if faults:
                r.bad('%s(%d)' % (kind, b), '; '.join(faults[:6]))
            else:
                r.ok('%s(%d) reads and writes exactly its buffers' % (kind, b), mode)
        fn = mod.byname['h_size']
        for q in (0, 1):
            for k in range(M):
                n = Lin(k, {'q': M} if q else {})
                m = Machine(fn, [n, Lin(b)], 'in', 0, 'out', q)
                got = None
                try:
                    m.run()
                    ret = [i for i in fn.insts() if i.op == 'ret'][0]
                    got = m.val(ret.ops[0])
                except CantDo as e:
                    r.undecided('bufferSize(%s,%d)' % (n, b), str(e))
                    continue
                want = (n.scale(b) + 7).divfloor(8)
                if got != want:
                    r.bad('bufferSize(%d)' % b, 'bufferSize(%s, %d) = %s instead of %s' % (n, b, got, want))
                else:
                    r.ok('bufferSize(%s,%d)' % (n, b), str(want))
    r.count('abstract_runs', runs)


def accepted_by_prepare(mod, types, cls, field, b):
    """is the Prepare call of a column of class cls reachable when the bit count field holds b"""
    fn = mod.one('dyscostman::DyscoStMan::prepare()')
    P = ap.Paths(fn, types)
    vt_loads = set()
    for i in fn.insts():
        if i.op == 'icmp' and any(isinstance(o, dict) and '_ZTV' in str(o) for o in i.ops):
            for o in i.ops:
                if isinstance(o, int):
                    vt_loads.add(o)
    vt = '_ZTVN10dyscostman' + str(len(cls)) + cls + 'E'

    def assume(i):
        if i.op == 'load':
            l = P.loc(i.ops[0])
            f = P.field(l)
            if f and f[0] == 'DyscoStMan' and f[1] in ('_dataBitCount', '_weightBitCount'):
                return b if f[1] == field else 8
            if i.t == 'ptr':
                return NN
        if i.op in ('call', 'invoke') and i.callee == '__dynamic_cast':
            ti = str(i.args[2])
            return NN if '_ZTIN10dyscostman' + str(len(cls)) + cls + 'E' in ti else 0
        if i.op == 'icmp' and any(isinstance(o, dict) and '_ZTV' in str(o) for o in i.ops):
            o = [o for o in i.ops if isinstance(o, dict)][0]
            same = vt in str(o)
            return int(same == (i.raw['pred'] == 'eq'))
        return None
    s = SCCP(fn, assume)
    return any(i.bb in s.reach for i in vcalls_named(mod, P, types, 'Prepare'))


def vcalls_named(mod, P, types, name):
    """virtual calls that may reach a member function of this name"""
    out = []
    for i in P.fn.calls():
        if 'cv' in i.raw:
            t = vslot.targets(mod, P, i, types)
            if t and any(ap.strip_args(x).endswith('::' + name) for x in vslot.demangle(t)):
                out.append(i)
    return out


def p_supported(r):
    mod = load()
    sets = supported_rates(mod, r)
    sup = mod.byname['h_supported']
    adv = set()
    for b in range(0, 257):
        s = SCCP(sup, lambda i: None, {0: b})
        rets = [s.val(i.ops[0]) for i in sup.insts() if i.op == 'ret' and i.bb in s.reach]
        if len(rets) == 1 and isinstance(rets[0], int):
            if rets[0]:
                adv.add(b)
        else:
            r.undecided('isSupported(%d)' % b, 'not decided')
    for b in range(0, 257):
        a, c = b in sets['h_pack'], b in sets['h_unpack']
        r.check(a == c, 'pack/unpack(%d)' % b, 'bit count %d is %s by pack but %s by unpack' % (b, 'accepted' if a else 'refused', 'accepted' if c else 'refused'))
    for b in RATES:
        r.check(b in sets['h_pack'] and b in sets['h_unpack'], 'documented(%d)' % b, 'documented bit count %d is refused' % b)
    s1m = s1.load()
    types = ap.Types(s1m)
    good = sets['h_pack'] & sets['h_unpack']
    for cls, field in (('DyscoDataColumn', '_dataBitCount'), ('DyscoWeightColumn', '_weightBitCount')):
        n = 0
        for b in range(1, 257):
            acc = accepted_by_prepare(s1m, types, cls, field, b)
            n += acc
            if acc and b not in good:
                r.bad('%s(%d)' % (cls, b), 'a %s with the unsupported bit count %d is prepared; packing would fail in a thread' % (cls, b))
            elif not acc and b in RATES:
                r.bad('%s(%d)' % (cls, b), 'preparing a %s refuses the documented bit count %d' % (cls, b))
            else:
                r.ok('%s(%d)' % (cls, b))
        r.require(n > 0, 'no bit count reaches the Prepare call of a %s' % cls)
