"""Virtual calls: slot of the call, static class of the object, possible targets (class hierarchy analysis)."""
import re
from . import ap


def slot_of(P, i):
    """(Loc of the object, slot) of an indirect call through a vtable, or None"""
    fn = P.fn
    cv = i.raw.get('cv')
    if not isinstance(cv, int) or cv in fn.argids:
        return None
    ld = fn.inst[cv]
    if ld.op != 'load' or not isinstance(ld.ops[0], int):
        return None
    slot, vp = 0, ld.ops[0]
    if vp in fn.argids:
        return None
    g = fn.inst[vp]
    if g.op == 'getelementptr':
        if g.get('var') or 'off' not in g.raw:
            return None
        slot, vp = g.raw['off'] // 8, g.ops[0]
        if not isinstance(vp, int) or vp in fn.argids:
            return None
        g = fn.inst[vp]
    if g.op != 'load':
        return None
    return P.loc(g.ops[0]), slot


def vtables(mod):
    """class name -> list of symbols of the primary vtable after the RTTI pointer"""
    c = getattr(mod, '_vtables', None)
    if c is None:
        c = {}
        for k, v in mod.globals.items():
            if k.startswith('_ZTV') and v.get('vt'):
                c[ap.norm_type(v['dem'][len('vtable for '):])] = v['vt'][0][2:]
        mod._vtables = c
    return c


def derived(mod, types, cls):
    out = []
    for c in vtables(mod):
        if c == cls or cls in types.bases(c):
            out.append(c)
    return out


def targets(mod, P, i, types):
    """symbols the virtual call may reach; None when the class of the object is not known"""
    s = slot_of(P, i)
    if s is None:
        return None
    l, slot = s
    t = P.type_at_obj(l)
    if not t:
        return None
    out = []
    for c in derived(mod, types, t):
        vt = vtables(mod)[c]
        if slot < len(vt) and vt[slot] and '__cxa_pure_virtual' not in vt[slot]:
            if vt[slot] not in out:
                out.append(vt[slot])
    return out


_dem = {}


def demangle(names):
    import subprocess
    need = [n for n in names if n not in _dem]
    if need:
        r = subprocess.run(['c++filt'], input='\n'.join(need), stdout=subprocess.PIPE, text=True)
        for n, d in zip(need, r.stdout.split('\n')):
            _dem[n] = d
    return [_dem[n] for n in names]
