"""Effect analysis of the C layer over the IR: no function stores to static storage."""
import llvmir
from report import Report

MEMW = {'memcpy': 0, 'memmove': 0, 'memset': 0, 'strcpy': 0, 'strncpy': 0, 'snprintf': 0, 'sprintf': 0}


def roots(f):
    """register -> set of roots ('param', i) / ('global', name) / ('other',) it may be derived from"""
    R = {}
    for i, (t, nm, at) in enumerate(f.params):
        if nm: R[nm] = {('param', i)}

    def val(v):
        if v[0] == 'r': return R.get(v[1], set())
        if v[0] == 'g': return {('global', v[1])}
        if v[0] == 'gep': return val(v[2])
        if v[0] == 'cast': return val(v[2])
        return set()
    ch = True
    while ch:
        ch = False
        for l in f.order:
            for i in f.blocks[l]:
                if i.dst is None: continue
                if i.op == 'gep': s = val(i.a[0])
                elif i.op in ('phi', 'freeze', 'bitcast', 'ptrtoint', 'inttoptr', 'add', 'sub'):
                    s = set().union(*[val(a) for a in i.a])
                elif i.op == 'select': s = val(i.a[1]) | val(i.a[2])
                else: continue
                old = R.get(i.dst, set())
                if not s <= old: R[i.dst] = old | s; ch = True
    return val


def analyse(tier='quick', prop=None):
    import native
    P = native.prog(); rep = Report()
    fs = [(m, f) for m in P.mods.values() for f in m.functions.values()]
    W = {}
    V = {id(f): roots(f) for _, f in fs}
    def callee(m, i):
        c = i.x[0]
        return c[1] if c[0] == 'g' else None
    ch = True
    while ch:      # which parameters a function may write through
        ch = False
        for m, f in fs:
            w = set(W.get(id(f), ()))
            for l in f.order:
                for i in f.blocks[l]:
                    t = set()
                    if i.op == 'store': t = V[id(f)](i.a[1])
                    elif i.op == 'call':
                        n = callee(m, i)
                        if n is None: continue
                        base = n.split('.')[1] if n.startswith('llvm.') and '.' in n else n
                        if base in MEMW: t = V[id(f)](i.a[0])
                        else:
                            g = P.lookup(m, n)
                            if g is not None:
                                for k in W.get(id(g), ()):
                                    if k < len(i.a): t = t | V[id(f)](i.a[k])
                    w |= {r[1] for r in t if r[0] == 'param'}
                    for r in t:
                        if r[0] == 'global':
                            rep.bad('C08', 'static-write', '%s:%s' % (f.name, r[1]), 'writes static storage %s (%s)' % (r[1], P.loc(f, i)))
            if w != W.get(id(f), set()): W[id(f)] = w; ch = True
    rep.n('native functions', len(fs))
    rep.n('native stores', sum(i.op == 'store' for _, f in fs for l in f.order for i in f.blocks[l]))
    rep.n('mutable static objects', sum(g.const is False for m in P.mods.values() for g in m.globals.values()))
    return rep


if __name__ == '__main__':
    r = analyse(); print(r.count, r.viol)
