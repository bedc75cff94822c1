"""Obligations on the Python and Cython layers, one group per family of public
functions.  Each case is one calling context; data values stay symbolic."""
import itertools
import numpy as np
import npmodel as M
import terms as T
import pyspec as R
import spec
from spec import MODES
from pysuite import Suite
from npmodel import Arr

# filter banks without any accidental symmetry: a swapped filter, band or axis shows
W4 = R.Wav([.11, .23, -.31, .47], [-.53, .61, .71, -.83], [.13, -.29, .37, .41], [.59, .67, -.73, .79], 'w4')
W2 = R.Wav([.17, .43], [.19, -.57], [.83, -.37], [.29, .91], 'w2')
W6 = R.Wav([.12, -.24, .36, .18, .51, -.63], [.22, .34, -.46, .58, .67, .71], [.81, -.32, .44, .15, -.27, .39], [.92, .14, .26, -.48, .33, .75], 'w6')
FWD1 = ['C09', 'F01', 'C04']
INV1 = ['C09', 'F01', 'C05']
FWDN = ['L01', 'F01', 'C09']
INVN = ['L01', 'F01', 'C09']
C = lambda l: l + ['F02']
DTS = ['f8', 'f4', 'c16', 'c8']
MODE = {m: i for i, m in enumerate(MODES)}


def std(l): return M.np_array(l)


def full(mode, n): return [mode] * n


# ---------------------------------------------------------------- single level, one axis
def g_single(s):
    dts = DTS if s.c99 else ['c16', 'c8']
    for dt in dts:
        cx = np.dtype(dt).kind == 'c'; t = (lambda p: C(p)) if cx else (lambda p: p)
        for m in MODES:
            for w in (W4, W6) if m in ('symmetric', 'periodization') else (W4,):
                for n in ((8, 5, 1) if m not in ('reflect', 'antireflect') else (8, 5)):
                    s.case(t(FWD1), 'pywt.dwt', 'mode %s, %d samples, %d taps, %s' % (m, n, w.F, dt),
                           lambda s: s.dwt(s.arr('x', n, dt), s.wobj(w), m), lambda s: R.dwt(s.arr('x', n, dt), w, MODE[m]))
        for shape, ax in (((3, 4), 0), ((3, 4), 1), ((3, 4), -1), ((3, 4), -2), ((2, 3, 4), 1), ((2, 3, 4), -3), ((4,), -1)):
            for m in ('zero', 'periodization', 'antisymmetric'):
                s.case(t(FWD1) + (['A01'] if ax < 0 else []), 'pywt.dwt', 'shape %s, axis %d, mode %s, %s' % (shape, ax, m, dt),
                       lambda s: s.dwt(s.arr('x', shape, dt), s.wobj(W4), m, axis=ax), lambda s: R.dwt(s.arr('x', shape, dt), W4, MODE[m], ax))
                s.case(t(INV1) + (['A01'] if ax < 0 else []), 'pywt.idwt', 'shape %s, axis %d, mode %s, %s' % (shape, ax, m, dt),
                       lambda s: s.idwt(s.arr('a', shape, dt), s.arr('d', shape, dt), s.wobj(W4), m, axis=ax),
                       lambda s: R.idwt(s.arr('a', shape, dt), s.arr('d', shape, dt), W4, MODE[m], ax))
        for m in MODES:
            for n in (5, 3):
                for miss in ('', 'a', 'd'):
                    f = lambda s: (None if miss == 'a' else s.arr('a', n, dt), None if miss == 'd' else s.arr('d', n, dt))
                    s.case(t(INV1), 'pywt.idwt', 'mode %s, %d coefficients, %s%s' % (m, n, dt, ', c%s missing' % miss.upper() if miss else ''),
                           lambda s: s.idwt(*f(s), s.wobj(W4), m), lambda s: R.idwt(*f(s), W4, MODE[m]))
        for miss in 'ad':
            for ax in (0, 1):
                f = lambda s: (None if miss == 'a' else s.arr('a', (4, 3), dt), None if miss == 'd' else s.arr('d', (4, 3), dt))
                s.case(t(INV1), 'pywt.idwt', 'shape (4, 3), axis %d, %s, c%s missing' % (ax, dt, miss.upper()), lambda s: s.idwt(*f(s), s.wobj(W4), 'smooth', ax), lambda s: R.idwt(*f(s), W4, MODE['smooth'], ax))
        for part in 'ad':
            for lev in (1, 2, 3):
                for m in ('symmetric', 'periodization', 'smooth'):
                    s.case(t(FWD1), 'pywt.downcoef', "part '%s', level %d, mode %s, %s" % (part, lev, m, dt),
                           lambda s: s.downcoef(part, s.arr('x', 13, dt), s.wobj(W4), m, lev), lambda s: R.downcoef(part, s.arr('x', 13, dt), W4, MODE[m], lev))
                for take in (0, 5, 6, 1000):
                    s.case(t(INV1), 'pywt.upcoef', "part '%s', level %d, take %d, %s" % (part, lev, take, dt),
                           lambda s: s.upcoef(part, s.arr('x', 3, dt), s.wobj(W4), lev, take), lambda s: R.upcoef(part, s.arr('x', 3, dt), W4, lev, take))
        s.case(t(FWD1), 'pywt.downcoef', 'default level and mode, %s' % dt, lambda s: s.downcoef('d', s.arr('x', 7, dt), s.wobj(W4)), lambda s: R.downcoef('d', s.arr('x', 7, dt), W4, 1, 1))
        s.case(t(INV1), 'pywt.upcoef', 'default level and take, %s' % dt, lambda s: s.upcoef('d', s.arr('x', 7, dt), s.wobj(W4)), lambda s: R.upcoef('d', s.arr('x', 7, dt), W4, 1, 0))
        s.case(t(FWD1), 'pywt.dwt', 'default mode and axis, %s' % dt, lambda s: s.dwt(s.arr('x', (2, 5), dt), s.wobj(W4)), lambda s: R.dwt(s.arr('x', (2, 5), dt), W4, 1, 1))
        s.case(t(INV1), 'pywt.idwt', 'default mode and axis, %s' % dt, lambda s: s.idwt(s.arr('a', (2, 5), dt), s.arr('d', (2, 5), dt), s.wobj(W4)), lambda s: R.idwt(s.arr('a', (2, 5), dt), s.arr('d', (2, 5), dt), W4, 1, 1))
    if s.c99:
        for order in 'FSN':
            for shape in ((6,), (3, 4)):
                s.case(FWD1 + ['G01'], 'pywt.dwt', 'memory layout %s, shape %s' % (order, shape), lambda s: s.dwt(s.arr('x', shape, 'f8', order), s.wobj(W4), 'zero', axis=0), lambda s: R.dwt(s.arr('x', shape), W4, 0, 0))
                s.case(INV1 + ['G01'], 'pywt.idwt', 'memory layout %s, shape %s' % (order, shape), lambda s: s.idwt(s.arr('a', shape, 'f8', order), s.arr('d', shape, 'f8', 'C'), s.wobj(W4), 'zero', axis=0), lambda s: R.idwt(s.arr('a', shape), s.arr('d', shape), W4, 0, 0))
            s.case(FWD1, 'pywt.downcoef', 'memory layout %s' % order, lambda s: s.downcoef('a', s.arr('x', 6, 'f8', order), s.wobj(W4), 'zero', 2), lambda s: R.downcoef('a', s.arr('x', 6), W4, 0, 2))
            s.case(INV1, 'pywt.upcoef', 'memory layout %s' % order, lambda s: s.upcoef('d', s.arr('x', 4, 'f8', order), s.wobj(W4), 2), lambda s: R.upcoef('d', s.arr('x', 4), W4, 2))


# ---------------------------------------------------------------- single level, several axes
AXC = [((4, 5), (0, 1)), ((4, 5), (1, 0)), ((4, 5), (-2, -1)), ((4, 5), (-1, -2)), ((2, 3, 4), (0, 2)), ((2, 3, 4), (2, 0)), ((2, 3, 4), (-1, 0)), ((2, 4, 3), (1, -1))]


def g_multidim(s):
    dts = ['f8', 'c16'] + (['f4', 'c8'] if s.thorough else []) if s.c99 else ['c16']
    for dt in dts:
        cx = np.dtype(dt).kind == 'c'; t = C if cx else (lambda p: p)
        for shape, axes in AXC:
            neg = ['A01'] if min(axes) < 0 else []
            for ws, ms in (((W4,), ('symmetric',)), ((W4, W2), ('zero', 'periodization')), ((W2, W6), ('antisymmetric',))):
                W = ws * (2 // len(ws)); m = ms * (2 // len(ms))
                prog = lambda s: (s.wobj(ws[0]) if len(ws) == 1 else [s.wobj(w) for w in ws], ms[0] if len(ms) == 1 else list(ms))
                ref = lambda s: R.dwtn(s.arr('x', shape, dt), W, [MODE[q] for q in m], axes)
                lab = 'shape %s, axes %s, %s taps, modes %s, %s' % (shape, axes, '/'.join(str(w.F) for w in ws), '/'.join(ms), dt)
                s.case(t(FWDN) + neg, 'pywt.dwtn', lab, lambda s: s.dwtn(s.arr('x', shape, dt), *prog(s), axes=axes), ref)
                def two(s):
                    c = ref(s); return c['aa'], (c['da'], c['ad'], c['dd'])
                s.case(t(FWDN) + neg, 'pywt.dwt2', lab, lambda s: s.dwt2(s.arr('x', shape, dt), *prog(s), axes=axes), two)
                co = lambda s: {k: s.arr('c' + k, shape, dt) for k in ('aa', 'ad', 'da', 'dd')}
                iref = lambda s: R.idwtn(co(s), W, [MODE[q] for q in m], axes)
                if any(spec.idwt_len(shape[a], w.F, MODE[q]) < 1 for a, w, q in zip(axes, W, m)): continue   # nothing to reconstruct: refused
                s.case(t(INVN) + neg, 'pywt.idwtn', lab, lambda s: s.idwtn(s.own(co(s)), *prog(s), axes=axes), iref)
                def two_in(s):
                    c = co(s); return s.own((c['aa'], (c['da'], c['ad'], c['dd'])))
                s.case(t(INVN) + neg, 'pywt.idwt2', lab, lambda s: s.idwt2(two_in(s), *prog(s), axes=axes), iref)
        # every axis, one axis, three axes
        for shape in ((5,), (3, 4, 2)):
            ax = tuple(range(len(shape)))
            s.case(t(FWDN), 'pywt.dwtn', 'shape %s, default axes and mode, %s' % (shape, dt), lambda s: s.dwtn(s.arr('x', shape, dt), s.wobj(W4)), lambda s: R.dwtn(s.arr('x', shape, dt), full(W4, len(ax)), full(1, len(ax)), ax))
            keys = [''.join(k) for k in itertools.product('ad', repeat=len(ax))]
            co = lambda s: {k: s.arr('c' + k, shape, dt) for k in keys}
            s.case(t(INVN), 'pywt.idwtn', 'shape %s, default axes and mode, %s' % (shape, dt), lambda s: s.idwtn(s.own(co(s)), s.wobj(W4)), lambda s: R.idwtn(co(s), full(W4, len(ax)), full(1, len(ax)), ax))
        s.case(t(FWDN), 'pywt.dwt2', 'default axes and mode, %s' % dt, lambda s: s.dwt2(s.arr('x', (2, 4, 5), dt), s.wobj(W4)),
               lambda s: (lambda c: (c['aa'], (c['da'], c['ad'], c['dd'])))(R.dwtn(s.arr('x', (2, 4, 5), dt), full(W4, 2), [1, 1], (1, 2))))
        # missing sub-bands count as zero
        for drop in ('aa', 'da', 'ad', 'dd', 'aa ad', 'da dd'):
            def mk(s, fill):
                return {k: (None if k in drop.split() else s.arr('c' + k, (3, 4), dt)) for k in ('aa', 'ad', 'da', 'dd') if fill or k not in drop.split()}
            iref = lambda s: R.idwtn(mk(s, False), (W4, W2), (MODE['zero'], MODE['periodic']), (0, 1))
            for fill in (False, True):
                s.case(t(INVN), 'pywt.idwtn', 'bands %s %s, %s' % (drop, 'None' if fill else 'absent', dt), lambda s: s.idwtn(s.own(mk(s, fill)), [s.wobj(W4), s.wobj(W2)], ['zero', 'periodic'], axes=(0, 1)), iref)
            def two_in(s):
                c = mk(s, True); return s.own((c['aa'], (c['da'], c['ad'], c['dd'])))
            s.case(t(INVN), 'pywt.idwt2', 'bands %s None, %s' % (drop, dt), lambda s: s.idwt2(two_in(s), [s.wobj(W4), s.wobj(W2)], ['zero', 'periodic'], axes=(0, 1)), iref)


# ---------------------------------------------------------------- multilevel
def g_multilevel(s):
    dts = ['f8', 'c16'] if s.c99 else ['c16']
    F1 = ['F01', 'C09', 'L02']; I1 = ['F01', 'C09', 'C05']
    for dt in dts:
        cx = np.dtype(dt).kind == 'c'; t = C if cx else (lambda p: p)
        for shape, ax in (((13,), -1), ((13,), 0), ((9, 2), 0), ((2, 9), 1), ((2, 9), -1), ((9, 2), -2)):
            neg = ['A01'] if ax < 0 else []
            for lev in (None, 0, 1, 2, 3):
                for m in ('symmetric', 'periodization', 'smooth') if lev == 2 else ('zero',):
                    def ref(s):
                        n = shape[ax]; L = R.max_level(n, W4.F) if lev is None else lev
                        return [c if isinstance(c, Arr) else c['d'] for c in R.wavedecn(s.arr('x', shape, dt), [W4], [MODE[m]], (ax,), L)]
                    s.case(t(F1) + neg, 'pywt.wavedec', 'shape %s, axis %d, level %s, mode %s, %s' % (shape, ax, lev, m, dt),
                           lambda s: s.wavedec(s.arr('x', shape, dt), s.wobj(W4), m, level=lev, axis=ax), ref, dtype=lev != 0)
                    if lev is None or lev == 0: continue
                    def lens(s):
                        l = []; n = shape[ax]
                        for _ in range(lev): n = spec.dwt_len(n, W4.F, MODE[m]); l.append(n)
                        return [l[-1]] + l[::-1]

                    def coef(s):
                        l = lens(s)
                        sh = lambda n: tuple(n if i == ax % len(shape) else q for i, q in enumerate(shape))
                        return [s.arr('a', sh(l[0]), dt)] + [s.arr('d%d' % i, sh(n), dt) for i, n in enumerate(l[1:])]
                    iref = lambda s: R.waverecn([c if i == 0 else {'d': c} for i, c in enumerate(coef(s))], [W4], [MODE[m]], (ax,))
                    s.case(t(I1) + neg, 'pywt.waverec', 'shape %s, axis %d, level %d, mode %s, %s' % (shape, ax, lev, m, dt), lambda s: s.waverec(s.own(coef(s)), s.wobj(W4), m, axis=ax), iref)
                    if lev == 3:
                        def fits(hole):      # without the details nothing says whether the extra sample is to be cut
                            n = 0
                            for i, c in enumerate(lens(s)):
                                if i and i != hole and c not in (n, n - 1): return False
                                n = c if not i or i != hole else n
                                if i: n = spec.idwt_len(n, W4.F, MODE[m])
                                else: n = c
                            return True
                        for hole in (1, 2, 3):
                            if not fits(hole): continue
                            def holes(s): 
                                c = coef(s); c[hole] = None; return c
                            s.case(t(I1), 'pywt.waverec', 'details %d None, shape %s, %s' % (hole, shape, dt), lambda s: s.waverec(s.own(holes(s)), s.wobj(W4), m, axis=ax),
                                   lambda s: R.waverecn([c if i == 0 else {'d': None if i == hole else c} for i, c in enumerate(coef(s))], [W4], [MODE[m]], (ax,)))
        # n dimensions
        for shape, axes in (((7, 9), (0, 1)), ((7, 9), (-1, 0)), ((2, 6, 5), (2, 1)), ((6, 2, 5), (-3, -1))):
            neg = ['A01'] if min(axes) < 0 else []
            for lev in (None, 1, 2):
                for ws, ms in (((W4,), ('symmetric',)), ((W2, W4), ('zero', 'periodization'))):
                    W = ws * (2 // len(ws)); m = [MODE[q] for q in ms * (2 // len(ms))]
                    L = min(R.max_level(shape[a], w.F) for a, w in zip(axes, W)) if lev is None else lev
                    prog = lambda s: (s.wobj(ws[0]) if len(ws) == 1 else tuple(s.wobj(w) for w in ws), ms[0] if len(ms) == 1 else tuple(ms))
                    lab = 'shape %s, axes %s, level %s, %s taps, modes %s, %s' % (shape, axes, lev, '/'.join(str(w.F) for w in ws), '/'.join(ms), dt)
                    ref = lambda s: R.wavedecn(s.arr('x', shape, dt), W, m, axes, L)
                    tup = lambda c: [x if isinstance(x, Arr) else (x['da'], x['ad'], x['dd']) for x in c]
                    s.case(t(FWDN) + neg, 'pywt.wavedecn', lab, lambda s: s.wavedecn(s.arr('x', shape, dt), *prog(s), level=lev, axes=axes), ref, dtype=L > 0)
                    s.case(t(FWDN) + neg, 'pywt.wavedec2', lab, lambda s: s.wavedec2(s.arr('x', shape, dt), *prog(s), level=lev, axes=axes), lambda s: tup(ref(s)), dtype=L > 0)
                    if lev is None: continue
                    def coef(s):
                        c = R.wavedecn(s.arr('x', shape, dt), W, m, axes, L)
                        return [s.arr('A', c[0].shape, dt)] + [{k: s.arr('D%d%s' % (i, k), v.shape, dt) for k, v in d.items()} for i, d in enumerate(c[1:])]
                    iref = lambda s: R.waverecn(coef(s), W, m, axes)
                    s.case(t(INVN) + neg, 'pywt.waverecn', lab, lambda s: s.waverecn(s.own(coef(s)), *prog(s), axes=axes), iref)
                    s.case(t(INVN) + neg, 'pywt.waverec2', lab, lambda s: s.waverec2(s.own(tup(coef(s))), *prog(s), axes=axes), iref)
                    for miss in ('da', 'ad', 'dd'):
                        if lev != 2 or len(ws) == 1: continue
                        def part(s, fill):
                            c = coef(s); c[1] = {k: v for k, v in c[1].items() if k != miss}
                            if fill: c[1][miss] = None
                            return c
                        s.case(t(INVN), 'pywt.waverecn', 'band %s absent on the first level, %s' % (miss, lab), lambda s: s.waverecn(s.own(part(s, False)), *prog(s), axes=axes), lambda s: R.waverecn(part(s, False), W, m, axes))
                        s.case(t(INVN), 'pywt.waverec2', 'band %s None on the first level, %s' % (miss, lab),
                               lambda s: s.waverec2(s.own([x if isinstance(x, Arr) else (x.get('da'), x.get('ad'), x.get('dd')) for x in part(s, True)]), *prog(s), axes=axes), lambda s: R.waverecn(part(s, False), W, m, axes))
        s.case(t(FWDN), 'pywt.wavedecn', 'defaults, %s' % dt, lambda s: s.wavedecn(s.arr('x', (6, 5), dt), s.wobj(W2)), lambda s: R.wavedecn(s.arr('x', (6, 5), dt), full(W2, 2), [1, 1], (0, 1), R.max_level(5, 2)))
        s.case(t(FWDN), 'pywt.wavedecn', 'scalar axis, %s' % dt, lambda s: s.wavedecn(s.arr('x', (6, 5), dt), s.wobj(W2), level=1, axes=1), lambda s: R.wavedecn(s.arr('x', (6, 5), dt), [W2], [1], (1,), 1))
        for q in (1, -2):
            sc = lambda s: [s.arr('A', (4, 4), dt), {'d': s.arr('D', (4, 4), dt)}]
            s.case(t(INVN) + ['A01'], 'pywt.waverecn', 'scalar axis %d, %s' % (q, dt), lambda s: s.waverecn(s.own(sc(s)), s.wobj(W2), axes=q), lambda s: R.waverecn(sc(s), [W2], [1], (q % 2,)))
        s.case(t(F1), 'pywt.wavedec', 'defaults, %s' % dt, lambda s: s.wavedec(s.arr('x', (2, 11), dt), s.wobj(W2)), lambda s: [c if isinstance(c, Arr) else c['d'] for c in R.wavedecn(s.arr('x', (2, 11), dt), [W2], [1], (1,), 3)])
        s.case(t(FWDN), 'pywt.wavedec2', 'defaults, %s' % dt, lambda s: s.wavedec2(s.arr('x', (2, 4, 5), dt), s.wobj(W2)), lambda s: [x if isinstance(x, Arr) else (x['da'], x['ad'], x['dd']) for x in R.wavedecn(s.arr('x', (2, 4, 5), dt), full(W2, 2), [1, 1], (1, 2), 2)])


# ---------------------------------------------------------------- fully separable
def g_fswave(s):
    P = ['F01', 'C09', 'L01']
    for dt in ['f8', 'c16'] if s.c99 else ['c16']:
        cx = np.dtype(dt).kind == 'c'; t = C if cx else (lambda p: p)
        for shape, axes, levels in (((6, 7), None, None), ((6, 7), (0, 1), (2, 1)), ((6, 7), (1, 0), (2, 1)), ((3, 6, 5), (-1, 1), 1), ((5,), (0,), 2), ((4, 5, 3), (2,), (1,)), ((6, 5), (0, 1), (0, 2))):
            for ws, ms in (((W4,), ('symmetric',)), ((W2, W4), ('zero', 'periodization'))):
                ax = tuple(range(len(shape))) if axes is None else axes
                if len(ws) > 1 and len(ax) == 1: continue
                W = ws * (len(ax) // len(ws)); m = [MODE[q] for q in ms * (len(ax) // len(ms))]
                neg = ['A01'] if min(ax) < 0 else []
                prog = lambda s: (s.wobj(ws[0]) if len(ws) == 1 else [s.wobj(w) for w in ws], ms[0] if len(ms) == 1 else list(ms))
                lab = 'shape %s, axes %s, levels %s, modes %s, %s' % (shape, axes, levels, '/'.join(ms), dt)

                def ref(s):
                    a = R.conv(s.arr('x', shape, dt)); sl = []; lv = []
                    for i, (q, w, mm) in enumerate(zip(ax, W, m)):
                        L = levels if isinstance(levels, int) else R.max_level(shape[q], w.F) if levels is None else levels[i]
                        c = [z if isinstance(z, Arr) else z['d'] for z in R.wavedecn(a, [w], [mm], (q,), L)]
                        off = np.cumsum([0] + [z.shape[q] for z in c]).tolist(); sl.append([slice(off[i], off[i + 1]) for i in range(len(c))]); lv.append(L)
                        a = M.np_concatenate(c, axis=q)
                    return a, sl, lv

                def run(s):
                    r = s.fswavedecn(s.arr('x', shape, dt), *prog(s), levels=levels, axes=axes)
                    return [r.coeffs, [[slice(int(q.start), int(q.stop)) for q in l] for l in r.coeff_slices], list(r.levels), tuple(r.axes), list(r.modes), [r.wavelets[i] is not None and r.wavelets[i].dec_len for i in range(len(ax))], r.ndim, r.ndim_transform]

                def exp(s):
                    a, sl, lv = ref(s)
                    return [a, sl, lv, tuple(ax), [MODES[q] for q in m], [w.F for w in W], len(shape), len(ax)]
                s.case(t(P) + neg, 'pywt.fswavedecn', lab, run, exp)

                def back(s):
                    a, sl, lv = ref(s)
                    r = s.FswavedecnResult(s.arr('q', a.shape, dt), sl, [s.wobj(w) for w in W], m, ax)
                    return s.fswaverecn(r)

                def bref(s):
                    a, sl, lv = ref(s)
                    a = R.conv(s.arr('q', a.shape, dt))
                    for i, (q, w, mm) in enumerate(zip(ax, W, m)):
                        cs = [Arr(a.a[tuple(z if j == q % len(shape) else slice(None) for j in range(len(shape)))], a.dt) for z in sl[i]]
                        a = R.waverecn([z if j == 0 else {'d': z} for j, z in enumerate(cs)], [w], [mm], (q,))
                    return a
                s.case(t(P) + neg, 'pywt.fswaverecn', lab, back, bref)
    if not s.c99: return

    def mk(s):
        return s.fswavedecn(s.arr('x', (6, 7), 'f8'), [s.wobj(W2), s.wobj(W4)], ['zero', 'periodization'], levels=(2, 1), axes=(1, 0))

    def items(s):
        r = mk(s)
        return [[k, r[k]] for k in [(i, j) for i in range(3) for j in range(2)]] + [r.detail_keys(), r.approx]

    def iref(s):
        a = R.conv(s.arr('x', (6, 7), 'f8')); c1 = [z if isinstance(z, Arr) else z['d'] for z in R.wavedecn(a, [W2], [0], (1,), 2)]
        out = {}
        for i, c in enumerate(c1):
            for j, z in enumerate(R.wavedecn(c, [W4], [5], (0,), 1)): out[(i, j)] = z if isinstance(z, Arr) else z['d']
        return [[k, out[k]] for k in [(i, j) for i in range(3) for j in range(2)]] + [sorted(k for k in out if k != (0, 0)), out[(0, 0)]]
    s.case(['L01', 'F01'], 'pywt.FswavedecnResult.__getitem__', 'levels (2, 1) on axes (1, 0)', items, iref)

    def setit(s):
        r = mk(s); r[(1, 1)] = s.arr('n', r[(1, 1)].shape); r.approx = s.arr('m', r.approx.shape)
        return [[k, r[k]] for k in [(i, j) for i in range(3) for j in range(2)]]

    def sref(s):
        q = iref(s)[:6]
        return [[k, s.arr('n', v.shape) if k == (1, 1) else s.arr('m', v.shape) if k == (0, 0) else v] for k, v in q]
    s.case(['L01', 'F01'], 'pywt.FswavedecnResult.__setitem__', 'one detail and the approximation replaced', setit, sref)


# ---------------------------------------------------------------- stationary
def g_swt(s):
    F1 = ['F01', 'C09', 'L01']
    # orthonormal bank required by norm only for a warning; use custom ones
    for dt in ['f8', 'c16'] + (['f4', 'c8'] if s.thorough else []) if s.c99 else ['c16']:
        cx = np.dtype(dt).kind == 'c'; t = C if cx else (lambda p: p)
        for shape, ax in (((8,), -1), ((8, 2), 0), ((2, 8), -1), ((8, 2), -2)):
            for lev, start in ((None, 0), (1, 0), (2, 0), (2, 1), (1, 2)):
                for trim in (False, True):
                    for norm in (False, True):
                        w = W4.scaled(1 / np.sqrt(2)) if norm else W4
                        L = R.swt_max_level(8) if lev is None else lev

                        def ref(s):
                            c = R.swtn(s.arr('x', shape, dt), [w], (ax,), L, start)
                            return [c[0]['a']] + [q['d'] for q in c] if trim else [(q['a'], q['d']) for q in c]
                        lab = 'shape %s, axis %d, level %s, start %d, trim %s, norm %s, %s' % (shape, ax, lev, start, trim, norm, dt)
                        s.case(t(F1) + (['A01'] if ax < 0 else []), 'pywt.swt', lab, lambda s: s.swt(s.arr('x', shape, dt), s.wobj(W4), level=lev, start_level=start, axis=ax, trim_approx=trim, norm=norm), ref)
                        if start or lev is None: continue
                        wi = W4.scaled(np.sqrt(2)) if norm else W4
                        cs = lambda s: [{'a': s.arr('a%d' % i, shape, dt), 'd': s.arr('d%d' % i, shape, dt)} for i in range(L)]
                        pin = lambda s: s.own([cs(s)[0]['a']] + [q['d'] for q in cs(s)] if trim else [(q['a'], q['d']) for q in cs(s)])
                        s.case(t(F1) + (['A01'] if ax < 0 else []), 'pywt.iswt', lab, lambda s: s.iswt(pin(s), s.wobj(W4), norm=norm, axis=ax), lambda s: R.iswtn(cs(s), [wi], (ax,), R.conv(cs(s)[0]['a'])))
        for shape, axes in (((4, 4), (0, 1)), ((4, 4), (1, 0)), ((4, 4), (-2, -1)), ((4, 2, 4), (0, 2)), ((2, 4, 4), (2, -2))):
            for lev, start in ((1, 0), (2, 0), (1, 1)):
                if lev == 2 and len(shape) == 3 and not s.thorough: continue
                for ws in ((W4,), (W2, W4)):
                    for trim, norm in ((False, False), (True, False), (False, True), (True, True)):
                        W0 = ws * (2 // len(ws)); W = [q.scaled(1 / np.sqrt(2)) for q in W0] if norm else W0
                        prog = lambda s: s.wobj(ws[0]) if len(ws) == 1 else [s.wobj(q) for q in ws]

                        def refn(s):
                            c = R.swtn(s.arr('x', shape, dt), W, axes, lev, start)
                            return [c[0]['aa']] + [{k: v for k, v in q.items() if k != 'aa'} for q in c] if trim else c
                        tup = lambda c: [x if isinstance(x, Arr) else (x['da'], x['ad'], x['dd']) if trim else (x['aa'], (x['da'], x['ad'], x['dd'])) for x in c]
                        lab = 'shape %s, axes %s, level %d, start %d, %s taps, trim %s, norm %s, %s' % (shape, axes, lev, start, '/'.join(str(q.F) for q in ws), trim, norm, dt)
                        neg = ['A01'] if min(axes) < 0 else []
                        s.case(t(F1) + neg, 'pywt.swtn', lab, lambda s: s.swtn(s.arr('x', shape, dt), prog(s), lev, start, axes, trim, norm), refn)
                        s.case(t(F1) + neg, 'pywt.swt2', lab, lambda s: s.swt2(s.arr('x', shape, dt), prog(s), lev, start, axes, trim, norm), lambda s: tup(refn(s)))
                        if start: continue
                        if len(shape) == 3 and not s.thorough and len(ws) == 1: continue
                        Wi = [q.scaled(np.sqrt(2)) for q in W0] if norm else W0
                        cs = lambda s: [{k: s.arr('%s%d' % (k, i), shape, dt) for k in ('aa', 'ad', 'da', 'dd')} for i in range(lev)]
                        pn = lambda s: [cs(s)[0]['aa']] + [{k: v for k, v in q.items() if k != 'aa'} for q in cs(s)] if trim else cs(s)
                        iref = lambda s: R.iswtn(cs(s), Wi, axes, R.conv(cs(s)[0]['aa']))
                        s.case(t(F1) + neg, 'pywt.iswtn', lab, lambda s: s.iswtn(s.own(pn(s)), prog(s), axes=axes, norm=norm), iref)
                        s.case(t(F1) + neg, 'pywt.iswt2', lab, lambda s: s.iswt2(s.own(tup(pn(s))), prog(s), norm=norm, axes=axes), iref)
        keys3 = [''.join(k) for k in itertools.product('ad', repeat=3)]
        s.case(t(F1), 'pywt.swtn', 'three axes, defaults, %s' % dt, lambda s: s.swtn(s.arr('x', (2, 2, 4), dt), s.wobj(W2), 1), lambda s: R.swtn(s.arr('x', (2, 2, 4), dt), full(W2, 3), (0, 1, 2), 1))
        s.case(t(F1), 'pywt.iswtn', 'three axes, defaults, %s' % dt, lambda s: s.iswtn(s.own([{k: s.arr(k, (2, 2, 2), dt) for k in keys3}]), s.wobj(W2)),
               lambda s: R.iswtn([{k: s.arr(k, (2, 2, 2), dt) for k in keys3}], full(W2, 3), (0, 1, 2), R.conv(s.arr('aaa', (2, 2, 2), dt))))
        s.case(t(F1), 'pywt.swt', 'defaults, %s' % dt, lambda s: s.swt(s.arr('x', (2, 4), dt), s.wobj(W2)), lambda s: [(q['a'], q['d']) for q in R.swtn(s.arr('x', (2, 4), dt), [W2], (1,), 2)])
        s.case(t(F1), 'pywt.swt2', 'default axes, %s' % dt, lambda s: s.swt2(s.arr('x', (2, 2, 4), dt), s.wobj(W2), 1), lambda s: [(q['aa'], (q['da'], q['ad'], q['dd'])) for q in R.swtn(s.arr('x', (2, 2, 4), dt), full(W2, 2), (1, 2), 1)])
        s.case(t(F1), 'pywt.iswt2', 'three dimensions, default axes, %s' % dt, lambda s: s.iswt2(s.own([(s.arr('aa', (2, 2, 4), dt), (s.arr('da', (2, 2, 4), dt), s.arr('ad', (2, 2, 4), dt), s.arr('dd', (2, 2, 4), dt)))]), s.wobj(W2)),
               lambda s: R.iswtn([{k: s.arr(k, (2, 2, 4), dt) for k in ('aa', 'ad', 'da', 'dd')}], full(W2, 2), (1, 2), R.conv(s.arr('aa', (2, 2, 4), dt))))
    if s.c99:
        for n in (1, 2, 6, 8, 12, 16, 40, 96): s.case(['C10', 'L02'], 'pywt.swt_max_level', '%d samples' % n, lambda s: s.swt_max_level(n), lambda s: R.swt_max_level(n))


# ---------------------------------------------------------------- multiresolution analysis
def g_mra(s):
    P = ['F01', 'C09', 'L01']
    for dt in ['f8', 'c16'] if s.c99 else ['c16']:
        cx = np.dtype(dt).kind == 'c'; t = C if cx else (lambda p: p)
        for shape, ax in (((4,), -1), ((4, 2), 0)):
            for tr, m in (('swt', 'periodization'), ('dwt', 'periodization'), ('dwt', 'symmetric')):
                for lev in (None, 1, 2):
                    if cx and lev == 2: continue
                    def ref(s):
                        x = s.arr('x', shape, dt); n = shape[ax]; out = []
                        if tr == 'swt':
                            L = R.swt_max_level(n) if lev is None else lev
                            c = R.swtn(x, [W2.scaled(1 / np.sqrt(2))], (ax,), L); W = W2.scaled(np.sqrt(2)); k = [c[0]['a']] + [q['d'] for q in c]
                            inv = lambda k: R.iswtn([{'d': q} for q in k[1:]], [W], (ax,), k[0])
                        else:
                            L = R.max_level(n, W2.F) if lev is None else lev
                            k = [q if isinstance(q, Arr) else q['d'] for q in R.wavedecn(x, [W2], [MODE[m]], (ax,), L)]
                            inv = lambda k: R.crop(R.waverecn([k[0]] + [{'d': q} for q in k[1:]], [W2], [MODE[m]], (ax,)), shape)
                        for j in range(len(k)): out.append(inv([q if i == j else R.zeros_like(q) for i, q in enumerate(k)]))
                        return out
                    s.case(t(P), 'pywt.mra', 'shape %s, axis %d, %s, mode %s, level %s, %s' % (shape, ax, tr, m, lev, dt),
                           lambda s: s.mra(s.arr('x', shape, dt), s.wobj(W2), level=lev, axis=ax, transform=tr, mode=m), ref)
        for shape, axes in (((4, 2), (0, 1)), ((2, 4), (1, 0)), ((2, 2, 2), (0, 2))):
            for tr, m in (('swt', 'periodization'), ('dwt', 'periodization'), ('dwt', 'zero'), ('dwt', ('zero', 'symmetric')), ('dwt', ('antisymmetric', 'periodization'))):
                mm = [m] * 2 if isinstance(m, str) else list(m)
                for ws in ((W2,), (W2, W4)):
                    if len(ws) == 2 and (cx or tr == 'swt' and len(shape) == 3): continue
                    if len(shape) == 3 and len(set(mm)) > 1 and cx: continue
                    W0 = ws * (2 // len(ws))
                    keys = ('da', 'ad', 'dd')

                    def ref(s, two):
                        x = s.arr('x', shape, dt)
                        if tr == 'swt':
                            c = R.swtn(x, [q.scaled(1 / np.sqrt(2)) for q in W0], axes, 1); Wi = [q.scaled(np.sqrt(2)) for q in W0]
                            k = [c[0]['aa']] + [{a: q[a] for a in keys} for q in c]
                            inv = lambda k: R.iswtn(k[1:], Wi, axes, k[0])
                        else:
                            k = R.wavedecn(x, W0, [MODE[q] for q in mm], axes, 1)
                            inv = lambda k: R.crop(R.waverecn(k, W0, [MODE[q] for q in mm], axes), shape)
                        z = [R.zeros_like(k[0])] + [{a: R.zeros_like(v) for a, v in q.items()} for q in k[1:]]
                        out = [inv([k[0]] + z[1:])]
                        for j in range(1, len(k)):
                            d = {}
                            for a in keys: d[a] = inv([z[0]] + [q if i + 1 != j else dict(q, **{a: k[j][a]}) for i, q in enumerate(z[1:])])
                            out.append(tuple(d[a] for a in keys) if two else d)
                        return out
                    prog = lambda s: s.wobj(ws[0]) if len(ws) == 1 else [s.wobj(q) for q in ws]
                    lab = 'shape %s, axes %s, %s, mode %s, %s taps, %s' % (shape, axes, tr, m, '/'.join(str(q.F) for q in ws), dt)
                    s.case(t(P), 'pywt.mra2', lab, lambda s: s.mra2(s.arr('x', shape, dt), prog(s), level=1, axes=axes, transform=tr + '2', mode=m), lambda s: ref(s, True))
                    s.case(t(P), 'pywt.mran', lab, lambda s: s.mran(s.arr('x', shape, dt), prog(s), level=1, axes=axes, transform=tr + 'n', mode=m), lambda s: ref(s, False))
    if s.c99:
        def add(*xs):
            r = xs[0]
            for x in xs[1:]: r = r + x
            return r
        A = lambda s, n: s.arr(n, (2, 3))
        s.case(['L01', 'F01'], 'pywt.imra', 'three parts', lambda s: s.imra(s.own([A(s, 'p'), A(s, 'q'), A(s, 'r')])), lambda s: add(A(s, 'p'), A(s, 'q'), A(s, 'r')))
        s.case(['L01', 'F01'], 'pywt.imra2', 'two levels', lambda s: s.imra2(s.own([A(s, 'p')] + [tuple(A(s, q + str(i)) for q in 'hvd') for i in range(2)])), lambda s: add(A(s, 'p'), *[A(s, q + str(i)) for i in range(2) for q in 'hvd']))
        s.case(['L01', 'F01'], 'pywt.imran', 'two levels', lambda s: s.imran(s.own([A(s, 'p')] + [{q: A(s, q + str(i)) for q in ('ad', 'da', 'dd')} for i in range(2)])), lambda s: add(A(s, 'p'), *[A(s, q + str(i)) for i in range(2) for q in ('ad', 'da', 'dd')]))


GROUPS = {'single': g_single, 'multidim': g_multidim, 'multilevel': g_multilevel, 'fswave': g_fswave, 'swt': g_swt, 'mra': g_mra}


def allgroups():
    import pychecks2, pychecks3, pychecks4, pychecks5, pychecks6, pychecks7, pychecks8, pychecks9
    return dict(GROUPS, **pychecks2.GROUPS2, **pychecks3.GROUPS3, **pychecks4.GROUPS4, **pychecks5.GROUPS5, **pychecks6.GROUPS6, **pychecks7.GROUPS7, **pychecks8.GROUPS8, **pychecks9.GROUPS9)


NOC99 = {'single', 'multidim', 'multilevel', 'fswave', 'swt', 'mra', 'pack', 'packets'}      # groups that also run for builds without native complex support


FIRST = ['faults', 'sizes', 'dtypes', 'swt', 'modes', 'packets', 'single', 'axes', 'options']        # longest first


def order(): return [g for g in FIRST if g in allgroups()] + [g for g in allgroups() if g not in FIRST]


PARTS = {'faults': 8, 'dtypes': 6, 'swt': 4, 'roundtrip': 4, 'modes': 2, 'packets': 2, 'sizes': 4}


def run_group(name, tier, c99=1, part=(0, 1)):
    s = Suite(tier, c99, part); s.group = name
    import terms
    terms.NANS[0] = True
    allgroups()[name](s)
    s.rep.n('abstract paths', s.npaths)
    return s


if __name__ == '__main__':
    import sys, time
    sys.modules['pychecks'] = sys.modules['__main__']
    for g in sys.argv[1:] or allgroups():
        for c in ((1, 0) if g in NOC99 else (1,)):
            t = time.time()
            s = run_group(g, 'quick', c)
            print(g, c, s.rep.count, 'viol', len(s.rep.viol), 'undecided', len(s.rep.unsup), '%.1f s' % (time.time() - t))
            for k, v in list(s.rep.viol.items())[:60]: print('   ', k, v[:300])
            for u in list(dict.fromkeys(x.split(']: ')[-1][:100] for x in s.rep.unsup))[:8]: print('    ?', u)
