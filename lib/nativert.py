"""Inverse after forward at the native level, for filters that allow it.

The polynomials derived for the decomposition routines (symbolic samples and
taps) are substituted into those derived for the reconstruction routine; with
the taps of a perfect-reconstruction filter bank the result must be the input.
A change of the boundary extension that keeps this identity is no finding."""
import itertools
import numpy as np
from cinterp import guide, DATA, Machine, Unsupported, Violation, symname, UNDEF
from spec import MODES, spec_swt, dwt_len, idwt_len
from report import Report
import native as NV
from native import prog, wavelet, fill_array, elem, zero_out, cells, pterms, nd_array, idx_elem, PER, s32, TYPES, FILTERS

BANKS = {2: ('haar', 0), 4: ('db', 2), 6: ('bior', 22), 8: ('db', 4), 10: ('bior', 44), 12: ('coif', 2)}
_taps = {}


def taps(F):
    """the bank of length F out of the constructor's tables, in both precisions"""
    if F in _taps: return _taps[F]
    import sinks, wavtab
    fam, n = BANKS[F]
    w = sinks.machine_wavelet('discrete', wavtab.enums()[fam.upper()], n)
    _taps[F] = {k: w[k] for k in FILTERS}
    return _taps[F]


def peval(p, F, x):
    """value of an output polynomial"""
    t = taps(F); s = 0.0
    if type(p) is int: return float(p)
    for mono, c in pterms(p).items():
        v = c
        for i in mono:
            n = symname(i)
            v *= t[n[0]][n[1]] if n[0] in FILTERS else x[n]
        s += v
    return s


def samples(ty, n, seed, name='x'):
    r = np.random.RandomState(seed); x = {}
    for i in range(n):
        if TYPES[ty][2]:
            x[name, i, 're'] = r.uniform(-1, 1); x[name, i, 'im'] = r.uniform(-1, 1)
        else: x[name, i] = r.uniform(-1, 1)
    return x


def read(out, ty, n, F, x):
    v = []
    for o in range(n):
        for part, g in cells(out, ty, o * elem(ty)):
            if g is None and out.o.zero and DATA[0]: g = 0.0        # nothing added to the zeros given
            if g is None or g is UNDEF: return None
            v.append(peval(g, F, x))
    return v


def put(name, ty, v):
    return dict(zip([(name, i, p) for i in range(len(v) // 2) for p in ('re', 'im')] if TYPES[ty][2] else [(name, i) for i in range(len(v))], v))


def data(F, env):
    """comparisons of data values go the way they go for these samples and taps"""
    guide({**env, **{(n, j): v for n, h in taps(F).items() for j, v in enumerate(h)}})


def call(m, fn, args):
    r = m.call(fn, args)
    return r == 0


def forward(ty, mode, N, F, x, level=0):
    r = []; data(F, x)
    for band in 'ad':
        m = Machine(prog())
        m.limit = 10 ** 7
        L = N if level else dwt_len(N, F, mode)
        out = m.new('output', L * elem(ty), 'array')
        a = fill_array(m, 'x', N, TYPES[ty][0], TYPES[ty][2], kind='input')
        if not call(m, '%s_%s_%s' % (ty, 'swt' if level else 'dec', band), [a, N, wavelet(m, F), out, L, level if level else mode]): return None
        r.append(read(out, ty, L, F, x))
    return r


def inverse(ty, mode, L, F, a, d, n):
    m = Machine(prog()); m.limit = 10 ** 7
    out = zero_out(m, n, ty)
    A = fill_array(m, 'a', L, TYPES[ty][0], TYPES[ty][2], kind='input'); D = fill_array(m, 'd', L, TYPES[ty][0], TYPES[ty][2], kind='input')
    env = {**put('a', ty, a), **put('d', ty, d)}; data(F, env)
    if not call(m, '%s_idwt' % ty, [A, L, D, L, out, n, wavelet(m, F), mode]): return None
    return read(out, ty, n, F, env)


def report(rep, where, ctx, x, y, tol):
    x = list(x.values())
    k = max(range(len(x)), key=lambda i: abs(x[i] - y[i]) if y[i] == y[i] else 9e9)
    if not abs(x[k] - y[k]) <= tol: rep.bad('R01', 'not-inverse', where, 'inverse after forward is off by %.3g at position %d [%s]' % (abs(x[k] - y[k]), k, ctx))


def dwt(rep, ty, mode, N, F):
    ctx = '%s N=%d F=%d mode=%s' % (ty, N, F, MODES[mode]); rep.n('obligations')
    tol = 1e-9 if TYPES[ty][1] == 'double' else 2e-5
    x = samples(ty, N, N * 31 + F)
    c = forward(ty, mode, N, F, x)
    if c is None or None in c: rep.unsup.append('forward gives no values: ' + ctx); return
    L = dwt_len(N, F, mode)
    y = inverse(ty, mode, L, F, c[0], c[1], idwt_len(L, F, mode))
    if y is None: rep.unsup.append('inverse gives no values: ' + ctx); return
    k = 2 if TYPES[ty][2] else 1
    report(rep, '%s_idwt' % ty, ctx, x, y[:N * k], tol)


def swt(rep, ty, level, N, F):
    ctx = '%s N=%d F=%d level=%d' % (ty, N, F, level); rep.n('obligations')
    x = samples(ty, N, N * 17 + F)
    c = forward(ty, PER, N, F, x, level)
    if c is None or None in c: rep.unsup.append('forward gives no values: ' + ctx); return
    # documented inverse of one level: half the adjoint of the analysis with the time-reversed synthesis filters
    rt = TYPES[ty][1]; t = taps(F); k = 2 if TYPES[ty][2] else 1
    M = spec_swt(level, N, F)
    y = np.zeros(N * k)
    for v, f in zip(c, ('rec_lo_', 'rec_hi_')):
        g = t[f + rt][::-1]
        for o, row in enumerate(M):
            for (j, s), q in row.items():
                for p in range(k): y[s * k + p] += .5 * q * g[j] * v[o * k + p]
    report(rep, '%s_swt_a/%s_swt_d' % (ty, ty), ctx, x, y, 1e-9 if rt == 'double' else 2e-5)


def axis(rep, ty, mode, shape, ax, F, lays):
    """the strided routines on an array"""
    ctx = '%s shape=%s axis=%d F=%d mode=%s layouts %s' % (ty, shape, ax, F, MODES[mode], lays); rep.n('obligations')
    N = shape[ax]; L = dwt_len(N, F, mode); cs = list(shape); cs[ax] = L
    n = int(np.prod(shape)); es = elem(ty); k = 2 if TYPES[ty][2] else 1
    x = None; got = []
    for coef in (0, 1):
        m = Machine(prog()); m.limit = 10 ** 7
        p, pi, st, off = nd_array(m, 'x', shape, lays[0], ty)
        if x is None: x = samples(ty, p.o.size // es, 5); data(F, x)
        out, oi, os_, oo = nd_array(m, 'output', cs, 'C', ty, False, False)
        if m.call('%s_downcoef_axis' % ty, [p, pi, out, oi, wavelet(m, F), ax, coef, mode, 0, 0]) != 0: return
        v = read(out, ty, int(np.prod(cs)), F, x)
        if v is None: return
        got.append(v)
    m = Machine(prog()); m.limit = 10 ** 7
    P = []; env = {}
    for nm, v, lay in zip('ad', got, lays[1:]):
        q, qi, qs, qo = nd_array(m, nm, cs, lay, ty); P += [q, qi]
        for e, idx in enumerate(itertools.product(*[range(c) for c in cs])):
            b = idx_elem(qs, qo, idx, es)
            if k == 2: env[nm, b, 're'] = v[2 * e]; env[nm, b, 'im'] = v[2 * e + 1]
            else: env[nm, b] = v[e]
    o2 = list(shape); o2[ax] = idwt_len(L, F, mode)
    out, oi, os_, oo = nd_array(m, 'output', o2, 'C', ty, False, False)
    data(F, env)
    if m.call('%s_idwt_axis' % ty, P + [out, oi, wavelet(m, F), ax, mode]) != 0: return
    y = read(out, ty, int(np.prod(o2)), F, env)
    if y is None: return
    X, Y = {}, []
    for idx in itertools.product(*[range(c) for c in shape]):
        b = idx_elem(st, off, idx, es); o = idx_elem(os_, oo, idx, es)
        for i, part in enumerate(('re', 'im')[:k]):
            X[idx + (i,)] = x[('x', b, part) if k == 2 else ('x', b)]; Y.append(y[o * k + i])
    report(rep, '%s_idwt_axis' % ty, ctx, X, Y, 1e-9 if TYPES[ty][1] == 'double' else 2e-5)


def work(tier):
    big = tier == 'thorough'; W = []
    for ty in TYPES:
        for F in (2, 4, 6, 8, 10) + ((12,) if big else ()):
            for mode in range(9):
                for N in ((1, 2, 3, 4, 5, 7, 8, 9, 12, 17) if not big else tuple(range(1, 26)) + (33, 64)):
                    if N == 1 and MODES[mode] in ('reflect', 'antireflect'): continue
                    W.append(('dwt', ty, mode, N, F))
            for N in (2, 4, 6, 8, 12, 16) + ((24, 32, 40) if big else ()):
                for lv in range(1, (N & -N).bit_length()): W.append(('swt', ty, lv, N, F))
        for sh in ((5,), (4, 3), (3, 4), (2, 5, 3)):
            for ax in range(len(sh)):
                for lays in (('C', 'C', 'C'), ('F', 'C', 'F'), ('neg', 'F', 'gap'), ('gap', 'roll', 'C')):
                    for mode in (1, 3, PER): W.append(('axis', ty, mode, sh, ax, 4, lays))
    return W


def _run(chunk):
    rep = Report()
    for w in chunk:
        try: globals()[w[0]](rep, *w[1:])
        except Unsupported as e: rep.unsup.append('%r: %s' % (w, e))
        except Violation: pass          # reported by the native analysis under its own property
        rep.n('native ' + w[0] + ' pairs')
    return rep


def analyse(tier='quick', jobs=8):
    from multiprocessing import Pool
    prog()
    for F in BANKS: taps(F)
    W = work(tier); total = Report()
    with Pool(jobs) as p:
        for r in p.imap_unordered(_run, [W[i::jobs * 4] for i in range(jobs * 4)]): total.merge(r)
    return total


if __name__ == '__main__':
    import sys, time
    t = time.time(); r = analyse(*sys.argv[1:2])
    print(r.count, len(r.unsup), r.unsup[:3], time.time() - t)
    for k, v in list(r.viol.items())[:10]: print(k, v)
