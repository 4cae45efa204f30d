"""debug aid: prints a function with access paths"""
import sys
from . import s1, ap


def sh(n):
    out, d = '', 0
    for c in n:
        if c == '<':
            d += 1
        if d == 0:
            out += c
        if c == '>':
            d -= 1
    return out or n


def show(fn, types):
    P = ap.Paths(fn, types)

    def o(x):
        if isinstance(x, dict):
            return str(x.get('v')) if x['k'] in ('int', 'fp', 'bb') else x['k'] + ':' + str(x.get('n', ''))[:30]
        return '%' + str(x)
    for b in fn.blocks.values():
        print('B%d preds=%s succ=%s' % (b.id, b.preds, b.succ))
        for i in b.insts:
            r = i.raw
            s = '  %%%d = %s ' % (i.id, i.op)
            if i.op in ('call', 'invoke'):
                s += sh(i.cq or 'VCALL ' + o(r.get('cv'))) + ' (' + ', '.join(
                    o(a) + ('{' + P.name(a) + '}' if isinstance(a, int) and (a in fn.argids or fn.inst[a].t == 'ptr') else '') for a in i.args) + ')'
                if i.op == 'invoke':
                    s += ' -> B%d / B%d' % (r['normal'], r['unwind'])
            elif i.op in ('load', 'store'):
                s += ', '.join(o(x) for x in i.ops) + ' @ ' + P.name(i.ops[-1])
            elif i.op == 'phi':
                s += ', '.join('%s<-B%d' % (o(v), p) for v, p in r['in'])
            elif i.op in ('icmp', 'fcmp'):
                s += r['pred'] + ' ' + ', '.join(o(x) for x in i.ops)
            elif i.op == 'switch':
                s += o(r['cond']) + ' ' + str(r['cases'])
            else:
                s += ', '.join(o(x) for x in i.ops)
            print(s, ' ;', i.where if i.op not in ('phi', 'br') else '')


if __name__ == '__main__':
    m = s1.load()
    t = ap.Types(m)
    for f in m.functions:
        if sys.argv[1] in f.dem:
            print(f.dem)
            show(f, t)
            break
