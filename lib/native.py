"""Calling contexts and specifications for the native transforms; evaluates each
context in the abstract interpreter and compares with the documented result."""
import sys, os, itertools
from cinterp import *
import cinterp
import llvmir

from spec import *


# ---- running ----------------------------------------------------------
_prog = None


def prog():
    global _prog
    if _prog is None: _prog = llvmir.load()
    return _prog


def wtmod():
    return prog().mods['wt']


FILTERS = ('dec_hi_double', 'dec_lo_double', 'rec_hi_double', 'rec_lo_double',
           'dec_hi_float', 'dec_lo_float', 'rec_hi_float', 'rec_lo_float')


def wavelet(m, F):
    f = {}
    mod = wtmod()
    st = mod.structs.get('%struct.DiscreteWavelet')
    if st is None: raise llvmir.IRError('anchor vanished: struct DiscreteWavelet')
    for i, n in enumerate(FILTERS):
        f[(1 + i,)] = fill_array(m, n, F, 8 if n.endswith('double') else 4, ro=True, kind='filter')
    f[(9,)] = F; f[(10,)] = F
    f[(11,)] = 0; f[(12,)] = 0
    return struct_ptr(m, mod, '%struct.DiscreteWavelet', f)


def expected(spec, parts, ty):
    """spec rows -> Poly; parts: list of (filter name, array name, spec)"""
    t = {}
    rows = []
    return rows


def poly_of(rows, part):
    """rows: list of (filter, array, {(tap,idx):c})"""
    t = {}
    for filt, arr, d in rows:
        for (j, k), c in d.items():
            key = tuple(sorted((symid((filt, j)), symid((arr, k) if part is None else (arr, k, part)))))
            v = t.get(key, 0.0) + c
            t[key] = v
    return mk({k: v for k, v in t.items() if v})


def canon(p):
    """filter names forgotten: only structure (tap number, sample) is kept"""
    t = {}
    for m, c in pterms(p).items():
        k = tuple(sorted(('h', symname(i)[1]) if symname(i)[0] in FILTERS else symname(i) for i in m))
        t[k] = t.get(k, 0) + c
    return t


def filters_in(p):
    return {symname(i)[0] for m in pterms(p) for i in m if symname(i)[0] in FILTERS}


from report import Report


KIND2PROP = {'out-of-bounds': 'C01', 'null-deref': 'C01', 'uninitialised-pointer': 'C01', 'division-by-zero': 'C01',
             'shift-out-of-range': 'C01', 'write-to-input': 'C01', 'uninitialised-size': 'C01', 'unreachable': 'C01',
             'uninitialised-read': 'C03', 'uninitialised-branch': 'C03',
             'use-after-free': 'C07', 'double-free': 'C07', 'invalid-free': 'C07',
             'write-to-static': 'C08', 'no-termination': 'C02'}


def guarded(rep, ctx, fn, m, name, args, allocfail=False):
    """run; returns (ok, retval)"""
    rep.n('runs')
    m.limit = 400000 + 100 * max([a for a in args if type(a) is int and a < 1 << 20] or [0])
    try:
        r = m.call(name, args)
    except Violation as e:
        p = KIND2PROP.get(e.kind, 'C01')
        if allocfail and e.kind == 'null-deref': rep.bad('C06', e.kind, e.loc, '%s [allocation failure, %s]' % (e.msg, ctx))
        rep.bad(p, e.kind, e.loc, '%s [%s]' % (e.msg, ctx))
        return False, None
    except Unsupported as e:
        rep.unsup.append('%s: %s' % (ctx, e)); return False, None
    finally:
        rep.n('blocks', m.steps)
    for o in m.live_heap():
        rep.bad('C07', 'leak', o.note, 'memory allocated there is never released [%s]' % ctx)
    return True, r


def s32(v): return v - (1 << 32) if isinstance(v, int) and v >> 31 else v


def cells(out, ty, idx_off):
    """value(s) at element byte offset; None where unwritten"""
    es, rt, cx = TYPES[ty]
    g = lambda o: (out.o.cells.get(o) or (None,))[0]
    if cx: return [('re', g(idx_off)), ('im', g(idx_off + es))]
    return [(None, g(idx_off))]


def compare(rep, ctx, where, prop, ty, out, off, rows):
    """out cell vs expected rows"""
    want_f = {f for f, _, d in rows if d}
    for part, got in cells(out, ty, off):
        rep.n('outputs')
        if got is None and out.o.zero and DATA[0] and pval(poly_of(rows, part)) == 0: continue     # nothing to add to the zeros given
        if got is None or got is UNDEF:
            rep.bad('C03', 'unwritten', where, 'element at byte %d of the result is never written [%s]' % (off, ctx))
            continue
        if type(got) is int: got = 0.0 if got == 0 else UNDEF
        exp = poly_of(rows, part)
        if pterms(exp) == pterms(got): continue
        at = ''
        if DATA[0]:
            # this path is taken for some data only: judged at the sample that took it
            rep.n('outputs judged at a sample')
            g, e = pval(got), pval(exp)
            if g == e or (g != g and e != e) or abs(g - e) <= 1e-9 * max(pscale(exp), pscale(got)): continue
            at = ' where the data are like the sample %r' % cinterp.GUIDE
            ctx = ctx + at
        if canon(exp) == canon(got):
            rep.bad('C09', 'wrong-filter', where, 'uses %s instead of %s [%s]' % (sorted(filters_in(got)), sorted(want_f), ctx))
        else:
            # Are all differences explained by the filter family?
            a, b = pterms(exp), pterms(got)
            diff = {k: b.get(k, 0) - a.get(k, 0) for k in set(a) | set(b) if a.get(k, 0) != b.get(k, 0)}
            s = fmt(Poly(dict(list(diff.items())[:6])))
            rep.bad(prop, 'wrong-sum', where, 'byte offset %d: got minus specified = %s%s [%s]' % (off, s, ' ...' if len(diff) > 6 else '', ctx))


def elem(ty): return TYPES[ty][0] * (2 if TYPES[ty][2] else 1)


def fnames(ty, band, side):
    return '%s_%s_%s' % (side, band, TYPES[ty][1])


def flat_dec(rep, ty, band, mode, N, F, fail=()):
    ctx = '%s_dec_%s N=%d F=%d mode=%s' % (ty, band, N, F, MODES[mode])
    m = Machine(prog(), fail)
    w = wavelet(m, F)
    x = fill_array(m, 'x', N, TYPES[ty][0], TYPES[ty][2], kind='input')
    L = dwt_len(N, F, mode)
    out = m.new('output', L * elem(ty), 'array')
    ok, r = guarded(rep, ctx, None, m, '%s_dec_%s' % (ty, band), [x, N, w, out, L, mode], bool(fail))
    if ok:
        if fail:
            if not s32(r) < 0: rep.bad('C06', 'failure-not-reported', '%s_dec_%s' % (ty, band), 'returns %d although an allocation failed [%s]' % (s32(r), ctx))
        elif r != 0: rep.bad('C04', 'rejected', '%s_dec_%s' % (ty, band), 'status %d for a valid call [%s]' % (s32(r), ctx))
        else:
            f = fnames(ty, 'lo' if band == 'a' else 'hi', 'dec')
            for o, d in enumerate(spec_dec(mode, N, F)):
                compare(rep, ctx, '%s_dec_%s' % (ty, band), 'C04', ty, out, o * elem(ty), [(f, 'x', d)])
    if not fail and ok:
        for k in range(m.nalloc): flat_dec(rep, ty, band, mode, N, F, (k,))


def flat_swt(rep, ty, band, level, N, F, fail=()):
    ctx = '%s_swt_%s N=%d F=%d level=%d' % (ty, band, N, F, level)
    m = Machine(prog(), fail)
    w = wavelet(m, F)
    x = fill_array(m, 'x', N, TYPES[ty][0], TYPES[ty][2], kind='input')
    out = m.new('output', N * elem(ty), 'array')
    fn = '%s_swt_%s' % (ty, band)
    ok, r = guarded(rep, ctx, None, m, fn, [x, N, w, out, N, level], bool(fail))
    if ok:
        if fail:
            if not s32(r) < 0: rep.bad('C06', 'failure-not-reported', fn, 'returns %d although an allocation failed [%s]' % (s32(r), ctx))
        elif r != 0: rep.bad('C04', 'rejected', fn, 'status %d for a valid call [%s]' % (s32(r), ctx))
        else:
            f = fnames(ty, 'lo' if band == 'a' else 'hi', 'dec')
            for o, d in enumerate(spec_swt(level, N, F)):
                compare(rep, ctx, fn, 'C04', ty, out, o * elem(ty), [(f, 'x', d)])
    if not fail and ok:
        for k in range(m.nalloc): flat_swt(rep, ty, band, level, N, F, (k,))


def zero_out(m, n, ty):
    p = m.new('output', n * elem(ty), 'array')
    p.o.zero = True
    return p


def flat_rec(rep, ty, band, N, F, fail=()):
    fn = '%s_rec_%s' % (ty, band)
    ctx = '%s N=%d F=%d' % (fn, N, F)
    m = Machine(prog(), fail)
    w = wavelet(m, F)
    x = fill_array(m, 'x', N, TYPES[ty][0], TYPES[ty][2], kind='input')
    L = 2 * N + F - 2
    out = zero_out(m, L, ty)
    ok, r = guarded(rep, ctx, None, m, fn, [x, N, w, out, L], bool(fail))
    if ok:
        if fail:
            if not s32(r) < 0: rep.bad('C06', 'failure-not-reported', fn, 'returns %d although an allocation failed [%s]' % (s32(r), ctx))
        elif r != 0:
            if F % 2 == 0 and F >= 2: rep.bad('C05', 'rejected', fn, 'status %d for a valid call [%s]' % (s32(r), ctx))
            elif not s32(r) < 0: rep.bad('C06', 'failure-not-reported', fn, 'status %d is not negative [%s]' % (s32(r), ctx))
        else:
            f = fnames(ty, 'lo' if band == 'a' else 'hi', 'rec')
            for o, d in enumerate(spec_rec(N, F)):
                compare(rep, ctx, fn, 'C05', ty, out, o * elem(ty), [(f, 'x', d)])
    if not fail and ok:
        for k in range(m.nalloc): flat_rec(rep, ty, band, N, F, (k,))


def flat_idwt(rep, ty, mode, N, F, fail=()):
    fn = '%s_idwt' % ty
    ctx = '%s N=%d F=%d mode=%s' % (fn, N, F, MODES[mode])
    L = idwt_len(N, F, mode)
    if L < 1: return
    m = Machine(prog(), fail)
    w = wavelet(m, F)
    a = fill_array(m, 'a', N, TYPES[ty][0], TYPES[ty][2], kind='input')
    d = fill_array(m, 'd', N, TYPES[ty][0], TYPES[ty][2], kind='input')
    out = zero_out(m, L, ty)
    ok, r = guarded(rep, ctx, None, m, fn, [a, N, d, N, out, L, w, mode], bool(fail))
    if ok:
        if fail:
            if not s32(r) < 0: rep.bad('C06', 'failure-not-reported', fn, 'returns %d although an allocation failed [%s]' % (s32(r), ctx))
        elif r != 0:
            if F % 2 == 0: rep.bad('C05', 'rejected', fn, 'status %d for a valid call [%s]' % (s32(r), ctx))
            elif not s32(r) < 0: rep.bad('C06', 'failure-not-reported', fn, 'status %d is not negative [%s]' % (s32(r), ctx))
        else:
            s = spec_idwt(mode, N, F)
            for o, row in enumerate(s):
                compare(rep, ctx, fn, 'C05', ty, out, o * elem(ty),
                        [(fnames(ty, 'lo', 'rec'), 'a', row), (fnames(ty, 'hi', 'rec'), 'd', row)])
    if not fail and ok:
        for k in range(m.nalloc): flat_idwt(rep, ty, mode, N, F, (k,))


# ---- n-dimensional entry points ---------------------------------------
def layout(shape, kind, es):
    """strides (bytes), start offset, total bytes for an array of that layout"""
    nd = len(shape)
    if kind == 'C':
        st = []; s = es
        for n in reversed(shape): st.insert(0, s); s *= n
        return st, 0, s
    if kind == 'F':
        st = []; s = es
        for n in shape: st.append(s); s *= n
        return st, 0, s
    if kind == 'neg':       # x[::-1, ::-1, ...]
        st, _, tot = layout(shape, 'C', es)
        off = sum((n - 1) * k for n, k in zip(shape, st))
        return [-k for k in st], off, tot
    if kind == 'gap':       # x[..., ::2] of a wider array
        st, _, tot = layout([2 * n for n in shape], 'C', es)
        return [2 * k for k in st], 0, tot
    if kind == 'bcast':     # first axis repeated (stride 0)
        st, _, tot = layout(shape[1:], 'C', es)
        return [0] + st, 0, tot
    if kind == 'roll':      # axes rotated
        st, _, tot = layout(shape[1:] + shape[:1], 'C', es)
        return st[-1:] + st[:-1], 0, tot
    raise KeyError(kind)


def nd_array(m, name, shape, kind, ty, ro=True, fill=True):
    es = elem(ty)
    st, off, tot = layout(list(shape), kind, es)
    p = m.new(name, tot, 'input' if ro else 'array', False)
    if fill:
        for e in range(tot // es):
            b = e * es
            if TYPES[ty][2]:
                p.o.cells[b] = (sym((name, e, 're')), TYPES[ty][0]); p.o.cells[b + TYPES[ty][0]] = (sym((name, e, 'im')), TYPES[ty][0])
            else: p.o.cells[b] = (sym((name, e)), TYPES[ty][0])
    p.o.ro = ro
    sh = m.new(name + '.shape', 8 * len(shape), 'meta'); sr = m.new(name + '.strides', 8 * len(shape), 'meta')
    for i, n in enumerate(shape):
        sh.o.cells[8 * i] = (n, 8); sr.o.cells[8 * i] = (st[i] & M64, 8)
    sh.o.ro = sr.o.ro = True
    info = struct_ptr(m, wtmod(), '%struct.ArrayInfo', {(0,): sh, (1,): sr, (2,): len(shape)})
    return Ptr(p.o, off), info, st, off


def idx_elem(st, off, idx, es): return (off + sum(i * s for i, s in zip(idx, st))) // es


def axis_dec(rep, ty, coef, mode, shape, lay, axis, F, level=0, fail=()):
    """level 0: DWT, else SWT"""
    fn = '%s_downcoef_axis' % ty
    band = 'a' if coef == 0 else 'd'
    ctx = '%s(%s,%s) shape=%s layout=%s axis=%d F=%d %s' % (fn, 'SWT' if level else 'DWT', band, tuple(shape), lay, axis, F, 'level=%d' % level if level else 'mode=' + MODES[mode])
    m = Machine(prog(), fail)
    w = wavelet(m, F)
    x, xi, xs, xo = nd_array(m, 'x', shape, lay, ty)
    oshape = list(shape); N = shape[axis]
    oshape[axis] = N if level else dwt_len(N, F, mode)
    out, oi, os_, oo = nd_array(m, 'output', oshape, 'C', ty, ro=False, fill=False)
    ok, r = guarded(rep, ctx, None, m, fn, [x, xi, out, oi, w, axis, coef, PER if level else mode, level, 1 if level else 0], bool(fail))
    es = elem(ty)
    if ok:
        if fail:
            if r == 0: rep.bad('C06', 'failure-not-reported', fn, 'returns 0 although an allocation failed [%s]' % ctx)
        elif r != 0: rep.bad('C04', 'rejected', fn, 'status %d for a valid call [%s]' % (s32(r), ctx))
        else:
            spec = spec_swt(level, N, F) if level else spec_dec(mode, N, F)
            f = fnames(ty, 'lo' if band == 'a' else 'hi', 'dec')
            for idx in itertools.product(*[range(n) for n in oshape]):
                d = {}
                for (j, k), c in spec[idx[axis]].items():
                    i2 = list(idx); i2[axis] = k
                    key = (j, idx_elem(xs, xo, i2, es)); d[key] = d.get(key, 0) + c
                compare(rep, ctx, fn, 'C04', ty, out, idx_elem(os_, oo, idx, es) * es, [(f, 'x', d)])
    if not fail and ok and r == 0:
        for k in range(min(m.nalloc, 4)): axis_dec(rep, ty, coef, mode, shape, lay, axis, F, level, (k,))


def axis_idwt(rep, ty, mode, shape, lays, axis, F, fail=()):
    """lays: (layout of a or None, layout of d or None)"""
    fn = '%s_idwt_axis' % ty
    ctx = '%s shape=%s layouts=%s axis=%d F=%d mode=%s' % (fn, tuple(shape), lays, axis, F, MODES[mode])
    N = shape[axis]; L = idwt_len(N, F, mode)
    if L < 1: return
    m = Machine(prog(), fail)
    w = wavelet(m, F)
    es = elem(ty)
    P = []
    for n, l in zip('ad', lays):
        P.append(nd_array(m, n, shape, l, ty) if l else (NULL, NULL, None, None))
    oshape = list(shape); oshape[axis] = L
    out, oi, os_, oo = nd_array(m, 'output', oshape, 'C', ty, ro=False, fill=False)
    ok, r = guarded(rep, ctx, None, m, fn, [P[0][0], P[0][1], P[1][0], P[1][1], out, oi, w, axis, mode], bool(fail))
    if ok:
        if fail:
            if r == 0: rep.bad('C06', 'failure-not-reported', fn, 'returns 0 although an allocation failed [%s]' % ctx)
        elif r != 0:
            if F % 2 == 0: rep.bad('C05', 'rejected', fn, 'status %d for a valid call [%s]' % (s32(r), ctx))
        else:
            spec = spec_idwt(mode, N, F)
            for idx in itertools.product(*[range(n) for n in oshape]):
                rows = []
                for nm, band, p in (('a', 'lo', P[0]), ('d', 'hi', P[1])):
                    if p[2] is None: continue
                    d = {}
                    for (j, k), c in spec[idx[axis]].items():
                        i2 = list(idx); i2[axis] = k
                        key = (j, idx_elem(p[2], p[3], i2, es)); d[key] = d.get(key, 0) + c
                    rows.append((fnames(ty, band, 'rec'), nm, d))
                compare(rep, ctx, fn, 'C05', ty, out, idx_elem(os_, oo, idx, es) * es, rows)
    if not fail and ok and r == 0:
        for k in range(min(m.nalloc, 6)): axis_idwt(rep, ty, mode, shape, lays, axis, F, (k,))


def reject(rep, fn, args_of, ctx, flat):
    """mismatching buffers must be refused without touching them"""
    m = Machine(prog())
    args = args_of(m)
    ok, r = guarded(rep, ctx, None, m, fn, args)
    if ok and not (s32(r) < 0 if flat else r != 0):
        rep.bad('C06', 'bad-arguments-accepted', fn, 'returns %s for %s' % (s32(r), ctx))


def rejections(rep, ty):
    """Mismatches between the two coefficient arrays, which the callers leave to the
    native inverse transform to find (all other arguments are computed by the callers)."""
    F = 4
    for sa, sd, so, ax, why in (((4, 6), (24,), (4, 10), 1, 'different dimensions'), ((4, 6), (4, 5), (4, 10), 1, 'coefficient lengths differ'),
                                ((4, 6), (4, 7), (4, 10), 1, 'coefficient lengths differ'), ((4, 6), (3, 6), (4, 10), 1, 'other axis differs'),
                                ((4, 6), (5, 6), (4, 10), 1, 'other axis differs'), ((6, 4), (6, 3), (10, 4), 0, 'other axis differs'),
                                ((2, 6, 4), (3, 6, 4), (2, 10, 4), 1, 'other axis differs'), ((2, 6, 4), (2, 6, 1), (2, 10, 4), 1, 'other axis differs')):
        for mode in (0, PER):
            def mkargs(m):
                P = []
                for n, s in (('a', sa), ('d', sd)): P += list(nd_array(m, n, s, 'C', ty)[:2])
                o2 = list(so)
                o2[ax] = idwt_len(sa[ax], F, mode)
                o, oi, _, _ = nd_array(m, 'output', o2, 'C', ty, False, False)
                return P + [o, oi, wavelet(m, F), ax, mode]
            reject(rep, '%s_idwt_axis' % ty, mkargs, '%s: a %s d %s axis %d mode %s' % (why, sa, sd, ax, MODES[mode]), False)


def lengths(rep, thorough=False):
    """C10: the length and level formulas"""
    P = prog()
    m = Machine(P, limit=10 ** 9)
    Ns = list(range(1, 80 if not thorough else 400)) + [2 ** k + d for k in (8, 16, 20, 31, 32, 33, 40, 52, 60) for d in (-1, 0, 1)]
    Fs = list(range(1, 104 if not thorough else 130)) + [256, 1000]

    def chk(fn, args, want, bits=64):
        rep.n('formula points')
        try: r = m.call(fn, args)
        except Violation as e:
            rep.bad('C02' if e.kind == 'no-termination' else 'C10', e.kind, e.loc, '%s%s: %s' % (fn, tuple(args), e.msg)); return
        except Unsupported as e:
            rep.unsup.append(fn + ': ' + str(e)); return
        if r != want: rep.bad('C10', 'formula', fn, '%s%s is %s, documented value %s' % (fn, tuple(args), r, want))
    for N in Ns:
        k = (N & -N).bit_length() - 1
        chk('swt_max_level', [N], k)
        chk('swt_buffer_length', [N], N)
        for F in Fs:
            chk('reconstruction_buffer_length', [N, F], 2 * N + F - 2)
            lv = 0
            if F > 1:
                while (F - 1) << (lv + 1) <= N: lv += 1
            chk('dwt_max_level', [N, F], lv)
            for mode in ((0, PER) if (F > 12 or N > 40) else range(9)):
                chk('dwt_buffer_length', [N, F, mode], dwt_len(N, F, mode))
                chk('idwt_buffer_length', [N, F, mode], idwt_len(N, F, mode))
    for k in range(63): chk('swt_max_level', [1 << k], k)


# ---- work list --------------------------------------------------------
OPS = ('icmp', 'and', 'add', 'sub', 'mul', 'udiv', 'urem', 'sdiv', 'srem', 'lshr', 'shl', 'select')


def landmarks(most=6):
    """integer constants, other than the small ones every kernel uses, that the compiled code
    compares or computes with: what it does may change around them"""
    out = set()
    for name in ('wt', 'convolution', 'common', 'cwt'):
        for fn, f in prog().mods[name].functions.items():
            if 'size_log2' in fn: continue                  # counts the bits of a machine word
            for b in f.blocks.values():
                for i in b:
                    if i.op not in OPS: continue
                    for a in i.a:
                        v = a[1] if isinstance(a, tuple) and len(a) == 2 and a[0] == 'i' else a if type(a) is int else None
                        if type(v) is int and 9 <= abs(v) <= 70000 and abs(v) != 16: out.add(abs(v))
    return sorted(out)[:most]


def around(K):
    """contexts with a length on either side of K"""
    W = []
    for i, N in enumerate((K - 1, K, K + 1, K + 2)):
        for ty in ('double', 'float_complex'):
            for mode in range(9) if N < 300 else (1, PER):
                W.append(('flat_dec', ty, 'ad'[(mode + i) % 2], mode, N, 4 if N < 20000 else 2))
            if N < 20000:
                W.append(('flat_dec', ty, 'a', 1, N, 2)); W.append(('flat_dec', ty, 'd', PER, N, 8))
            for band in 'ad': W.append(('flat_rec', ty, band, N, 4 if N < 20000 else 2))
            for mode in (0, PER): W.append(('flat_idwt', ty, mode, N, 4 if N < 20000 else 2))
            if N % 2 == 0: W.append(('flat_swt', ty, 'ad'[i % 2], 1, N, 2))
        if N > 2100: continue
        for ty in ('double', 'float_complex'):
            F = N + N % 2
            if F < 1500:
                for n in (2, 5) + ((N,) if F < 200 else ()):
                    for mode in (0, 1, 4, PER) if F < 200 else (1, PER): W.append(('flat_dec', ty, 'ad'[(mode + i) % 2], mode, n, F))
                    W.append(('flat_rec', ty, 'ad'[i % 2], n, F))
                    for mode in (0, PER): W.append(('flat_idwt', ty, mode, n, F))
            for sh in ((N,), (N, 2), (2, N)) if N < 300 else ((N,), (2, N)):
                for ax in range(len(sh)):
                    for lay in ('C', 'gap'):
                        W.append(('axis_dec', ty, (i + ax) % 2, 1, sh, lay, ax, 4)); W.append(('axis_dec', ty, (i + ax) % 2, PER, sh, lay, ax, 2))
                    if sh[ax] % 2 == 0: W.append(('axis_dec', ty, i % 2, PER, sh, 'C', ax, 2, 1))
                    for lays in (('C', 'C'), ('C', None), (None, 'gap')): W.append(('axis_idwt', ty, 1 if ax else PER, sh, lays, ax, 2))
    return W


def worklist(tier):
    W = []
    big = tier == 'thorough'
    Ns = list(range(1, 8)) + [9, 12] if not big else list(range(1, 13)) + [15, 16, 17, 24, 33, 40]
    # a bank of odd length is completed by a zero tap, so the kernels only ever see even lengths
    Fs = [2, 4, 6, 8, 10, 14] if not big else list(range(2, 24, 2)) + [30, 38]
    for ty in TYPES:
        full = ty in ('double', 'float_complex') or big
        for mode in range(9):
            for N in Ns:
                if N == 1 and MODES[mode] in ('reflect', 'antireflect'): continue
                for F in Fs:
                    if not full and F == 8: continue
                    for band in 'ad':
                        if band == 'd' and (N + F) % 3: continue
                        W.append(('flat_dec', ty, band, mode, N, F))
        for N in Ns:
            for F in Fs:
                for band in 'ad': W.append(('flat_rec', ty, band, N, F))
                for mode in range(9) if F == 4 and N == 5 else (0, PER): W.append(('flat_idwt', ty, mode, N, F))
        for N in ((2, 4, 6, 8, 12) if not big else (2, 4, 6, 8, 10, 12, 16, 20, 24, 32)):
            mx = (N & -N).bit_length() - 1
            for level in range(1, mx + 1):
                for F in ((2, 4, 6, 10) if not big else (2, 4, 6, 8, 10, 14, 20)):
                    for band in 'ad': W.append(('flat_swt', ty, band, level, N, F))
        shapes = [(5,), (4, 3), (3, 4), (2, 4, 3), (1, 5), (5, 1), (2, 2, 2, 2)]
        if big: shapes += [(2, 3, 4), (4, 1, 2), (3, 2, 2, 2)]
        for sh in shapes:
            for ax in range(len(sh)):
                for lay in ('C', 'F', 'neg', 'gap', 'roll', 'bcast'):
                    if lay == 'bcast' and len(sh) < 2: continue
                    for coef in (0, 1):
                        for mode in (1, 4, PER) if lay == 'C' else (1,):
                            W.append(('axis_dec', ty, coef, mode, sh, lay, ax, 4))
                        if sh[ax] % 2 == 0:
                            for lv in range(1, (sh[ax] & -sh[ax]).bit_length()):
                                W.append(('axis_dec', ty, coef, PER, sh, lay, ax, 2, lv))
                        if lay == 'C':
                            for mode in (0, 2, 3, 6, 7, 8):
                                if sh[ax] > 1 and len(sh) == 2: W.append(('axis_dec', ty, coef, mode, sh, lay, ax, 4))
                for lays in (('C', 'C'), ('F', 'C'), ('C', 'F'), ('neg', 'gap'), ('gap', 'roll'), ('C', None), (None, 'C'), ('roll', None), (None, 'F'), ('neg', None), (None, 'neg')):
                    for mode in (1, PER):
                        W.append(('axis_idwt', ty, mode, sh, lays, ax, 4 if sh[ax] > 1 else 2))
                        if big: W.append(('axis_idwt', ty, mode, sh, lays, ax, 6))
        # longer axes, and more of them
        for i, sh in enumerate([(40,), (3, 33), (70, 2), (2, 3, 2, 2, 2), (2, 2, 2, 2, 2, 2)]):
            for ax in range(len(sh)):
                for mode in (1, PER):
                    W.append(('axis_dec', ty, (i + ax) % 2, mode, sh, 'C' if ax % 2 else 'gap', ax, 2))
                    W.append(('axis_idwt', ty, mode, sh, (('C', 'C'), ('C', None), (None, 'C'))[(i + ax) % 3], ax, 2))
                if sh[ax] % 2 == 0: W.append(('axis_dec', ty, i % 2, PER, sh, 'C', ax, 2, 1))
        W.append(('rejections', ty))
        # sizes far from the small ones: filters much longer than the signal and the reverse
        for i, (N, F) in enumerate([(1, 76), (2, 76), (3, 62), (75, 76), (76, 76), (77, 76), (150, 4), (5, 102), (300, 2), (33, 20)]):
            for mode in range(9):
                if N == 1 and MODES[mode] in ('reflect', 'antireflect'): continue
                if not big and (mode + i + len(ty)) % 3: continue
                W.append(('flat_dec', ty, 'ad'[(mode + i) % 2], mode, N, F))
            W.append(('flat_rec', ty, 'ad'[i % 2], N, F))
            W.append(('flat_idwt', ty, 0 if i % 2 else 4, N, F)); W.append(('flat_idwt', ty, PER, N, F))
        for N, F, lv in ((64, 20, 6), (96, 38, 3), (32, 76, 1)): W.append(('flat_swt', ty, 'ad'[lv % 2], lv, N, F))
    if True:
        # past 2^16 samples, where a counter narrowed to 16 bits would wrap
        for ty in TYPES if big else ('double',):
            W.append(('flat_dec', ty, 'a', 1, 65540, 2)); W.append(('flat_dec', ty, 'd', PER, 65540, 2))
            W.append(('flat_rec', ty, 'a', 65540, 2)); W.append(('flat_idwt', ty, 1, 65540, 2)); W.append(('flat_idwt', ty, PER, 65540, 2))
            W.append(('flat_swt', ty, 'a', 1, 65540, 2))
    for K in landmarks(): W += around(K)
    W.append(('lengths', big))
    return W


def _run(chunk):
    rep = Report()
    for w in chunk:
        try:
            guide('random')
            globals()[w[0]](rep, *w[1:])
            if DATA[0]:
                rep.n('contexts with data-dependent branches')
                from wavtab import fmarks
                marks = tuple('near %r' % c for c in fmarks(('wt', 'convolution'))[:4])
                for k in GUIDES[1:] + marks if len(w) < 6 or not isinstance(w[4], int) or w[4] < 9999 else GUIDES[1:4]:
                    guide(k); globals()[w[0]](rep, *w[1:])
        except Unsupported as e:
            rep.unsup.append('%r: %s' % (w, e))
        finally: guide(None)
        rep.n(w[0])
    return rep


def analyse(tier='quick', jobs=8, only=None):
    from multiprocessing import Pool
    prog()
    W = [w for w in worklist(tier) if only is None or w[0] in only]
    W.sort(key=lambda w: -1 if w[0] == 'lengths' else -w[4] if len(w) > 5 and w[0].startswith('flat') and w[4] > 9999 else 0)
    chunks = [W[i::jobs * 6] for i in range(jobs * 6)]
    total = Report()
    with Pool(jobs) as p:
        for r in p.imap_unordered(_run, chunks): total.merge(r)
    return total


if __name__ == '__main__':
    import time
    t = time.time()
    r = analyse(sys.argv[1] if len(sys.argv) > 1 else 'quick')
    print(r.count)
    for k, v in sorted(r.viol.items()): print(k, v)
    print('unsup', len(r.unsup), r.unsup[:5])
    print(time.time() - t)
