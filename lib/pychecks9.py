"""Obligations at sizes away from the small ones every other group uses: longer
signals, more levels and more axes, plus both sides of any integer constant the
Python or Cython source compares or computes with (lib/sizes.py)."""
import itertools
import numpy as np
import npmodel as M
import terms as T
import pyspec as R
import spec
import sizes
from spec import MODES
from npmodel import Arr
from pysuite import REPO
from pychecks import W2, W4, W6, MODE, full
from pychecks2 import symcoef, packed, keyed
from pychecks3 import padref

USED = 9          # contexts elsewhere already lie on both sides of constants below this


def marks():
    """the constants to straddle; those the pinned tree has in arithmetic of its own are few"""
    return [k for k in sorted(sizes.constants(REPO, USED, 70000))][:sizes.CAP]


def bank(F):
    """some filters of F taps, none a multiple, a mirror image or a sign change of another"""
    f = lambda a, b: [((a * (i + 1) * (i + 1) + b * i) % 97 - 48.5) / 64 for i in range(F)]
    return R.Wav(f(7, 3), f(11, 5), f(13, 29), f(17, 23), 'w%d' % F)


def lst(c): return [z if isinstance(z, Arr) else z['d'] for z in c]
def tup(c): return (c['aa'], (c['da'], c['ad'], c['dd']))
def tup2(c): return [x if isinstance(x, Arr) else (x['da'], x['ad'], x['dd']) for x in c]


def one(s, N, full_):
    """every one-axis entry point at length N"""
    P = ['C09', 'F01', 'C04']; Q = ['C09', 'F01', 'C05']; D = ['F01', 'C09', 'L02']
    X = lambda s, n=N, p='x', dt='f8': s.arr(p, n, dt)
    n = '%d samples' % N
    for i, m in enumerate(MODES if full_ else ('symmetric', 'periodization')):
        s.case(P, 'pywt.dwt', n + ', mode ' + m, lambda s: s.dwt(X(s), s.wobj(W4), m), lambda s: R.dwt(X(s), W4, MODE[m]))
        s.case(Q, 'pywt.idwt', '%d coefficients, mode %s' % (N, m), lambda s: s.idwt(X(s), X(s, p='y'), s.wobj(W4), m), lambda s: R.idwt(X(s), X(s, p='y'), W4, MODE[m]))
        if m in ('symmetric', 'periodization', 'smooth'):
            s.case(P, 'pywt.downcoef', n + ', mode ' + m, lambda s: s.downcoef('ad'[i % 2], X(s), s.wobj(W4), m, 2), lambda s: R.downcoef('ad'[i % 2], X(s), W4, MODE[m], 2))
        s.case(['M01', 'F01'], 'pywt.pad', n + ', mode ' + m, lambda s: s.pad(X(s), (N - 1, N + 2) if N < 300 else (3, 5), m), lambda s: padref(s, X(s), ((N - 1, N + 2) if N < 300 else (3, 5),), m))
        s.case(['M01', 'F01'], 'pywt.pad', 'width %d, mode %s' % (N, m), lambda s: s.pad(X(s, 7), (N, 1), m), lambda s: padref(s, X(s, 7), ((N, 1),), m))
        for F in (2, 6, N):
            s.case(['L02', 'C10'], 'pywt.dwt_coeff_len', n + ', %d taps, mode %s' % (F, m), lambda s: int(s.dwt_coeff_len(N, F, m)), lambda s: spec.dwt_len(N, F, MODE[m]))
            s.case(['L02', 'C10'], 'pywt.dwt_coeff_len', '%d samples, %d taps, mode %s' % (F, N, m), lambda s: int(s.dwt_coeff_len(F, N, m)), lambda s: spec.dwt_len(F, N, MODE[m]))
    for F in (2, 8, N): s.case(['L02', 'C10'], 'pywt.dwt_max_level', n + ', %d taps' % F, lambda s: int(s.dwt_max_level(N, F)), lambda s: R.max_level(N, F))
    s.case(['L02', 'C10'], 'pywt.dwt_max_level', '%d samples, %d taps' % (20 * N, N), lambda s: int(s.dwt_max_level(20 * N, N)), lambda s: R.max_level(20 * N, N))
    s.case(['C10', 'L02'], 'pywt.swt_max_level', n, lambda s: s.swt_max_level(N), lambda s: R.swt_max_level(N))
    for miss in 'ad':
        f = lambda s: (None if miss == 'a' else X(s), None if miss == 'd' else X(s, p='y'))
        s.case(Q, 'pywt.idwt', '%d coefficients, c%s missing' % (N, miss.upper()), lambda s: s.idwt(*f(s), s.wobj(W4), 'symmetric'), lambda s: R.idwt(*f(s), W4, 1))
    for take in (0, N, N + 1):
        s.case(Q, 'pywt.upcoef', '%d coefficients, take %d' % (N, take), lambda s: s.upcoef('d', X(s), s.wobj(W4), 1, take), lambda s: R.upcoef('d', X(s), W4, 1, take))
    for dt in ('f4', 'c16') if full_ else ('c16',):
        s.case(P + ['D01'], 'pywt.dwt', n + ', ' + dt, lambda s: s.dwt(X(s, dt=dt), s.wobj(W4), 'reflect'), lambda s: R.dwt(X(s, dt=dt), W4, MODE['reflect']), aspects={'dtype': ['D01']})
        s.case(Q + ['D01'], 'pywt.idwt', n + ', ' + dt, lambda s: s.idwt(X(s, dt=dt), X(s, p='y', dt=dt), s.wobj(W4), 'zero'), lambda s: R.idwt(X(s, dt=dt), X(s, p='y', dt=dt), W4, 0), aspects={'dtype': ['D01']})
    # an axis of N samples among others
    for sh, ax in (((N, 2), 0), ((2, N), 1), ((2, N), 0)) if N < 1100 else (((2, N), 1),):
        for m in ('periodic', 'periodization'):
            s.case(P, 'pywt.dwt', 'shape %s, axis %d, mode %s' % (sh, ax, m), lambda s: s.dwt(X(s, sh), s.wobj(W2), m, ax), lambda s: R.dwt(X(s, sh), W2, MODE[m], ax))
            s.case(Q, 'pywt.idwt', 'shape %s, axis %d, mode %s' % (sh, ax, m), lambda s: s.idwt(X(s, sh), X(s, sh, 'y'), s.wobj(W2), m, ax), lambda s: R.idwt(X(s, sh), X(s, sh, 'y'), W2, MODE[m], ax))
        if sh[ax] % 2 == 0: s.case(['C10', 'F01'], 'pywt.swt', 'shape %s, axis %d' % (sh, ax), lambda s: s.swt(X(s, sh), s.wobj(W2), 1, axis=ax), lambda s: R_swt1(X(s, sh), 1, ax))
    # every level
    for m in ('symmetric', 'periodization'):
        L = R.max_level(N, W2.F)
        for lev in sorted({2, L}) if N < 1100 else (2,):
            s.case(D, 'pywt.wavedec', n + ', level %d, mode %s' % (lev, m), lambda s: s.wavedec(X(s), s.wobj(W2), m, level=lev), lambda s: lst(R.wavedecn(X(s), [W2], [MODE[m]], (0,), lev)))
            co = lambda s: symcoef(s, (N,), [W2], [MODE[m]], (0,), lev, 'f8')
            s.case(['F01', 'C09', 'C05'], 'pywt.waverec', n + ', level %d, mode %s' % (lev, m), lambda s: s.waverec(s.own(lst(co(s))), s.wobj(W2), m), lambda s: R.waverecn(co(s), [W2], [MODE[m]], (0,)))
            s.case(['L01', 'F01'], 'pywt.coeffs_to_array', n + ', level %d, mode %s' % (lev, m), lambda s: s.coeffs_to_array(s.own(lst(co(s))))[0], lambda s: packed(co(s), (0,), 0, 'f8')[0])
            s.case(['L01', 'F01'], 'pywt.unravel_coeffs', n + ', level %d, mode %s' % (lev, m), lambda s: s.unravel_coeffs(*s.ravel_coeffs(s.own(lst(co(s)))), output_format='wavedec'), lambda s: lst(co(s)))
            s.case(['L02', 'F01'], 'pywt.wavedecn_shapes', n + ', level %d, mode %s' % (lev, m), lambda s: s.wavedecn_shapes((N,), s.wobj(W2), m, lev), lambda s: [z.shape if isinstance(z, Arr) else {k: v.shape for k, v in z.items()} for z in co(s)])
            if m == 'symmetric' and lev == 2:
                s.case(['F01', 'L01'], 'pywt.mra', n + ', decimated', lambda s: total(s.mra(X(s), s.wobj(R.named('haar')), 2, transform='dwt', mode=m)), lambda s: R.crop(X(s), (N,)))
    if N < 1100:
        s.case(D, 'pywt.wavedec', n + ', default level', lambda s: s.wavedec(X(s), s.wobj(W4)), lambda s: lst(R.wavedecn(X(s), [W4], [1], (0,), R.max_level(N, 4))))
        s.case(['F01', 'C09', 'L01'], 'pywt.fswavedecn', n, lambda s: s.fswavedecn(X(s), s.wobj(W2), 'zero').coeffs, lambda s: M.np_concatenate(lst(R.wavedecn(X(s), [W2], [0], (0,), R.max_level(N, 2))), axis=0))
        s.case(['F01', 'R01'], 'pywt.fswaverecn', n, lambda s: R.crop(M.np_asarray(s.fswaverecn(s.fswavedecn(X(s), 'haar', 'zero', levels=2))), (N,)), lambda s: X(s))
    # stationary: a multiple of 2^level
    for n2 in sorted({N - N % 2, N + N % 2}) if full_ else (N + N % 2,):
        t = (n2 & -n2).bit_length() - 1
        for lev in {1, t} if n2 < 1100 else {1}:
            s.case(['C10', 'F01'], 'pywt.swt', '%d samples, level %d' % (n2, lev), lambda s: s.swt(X(s, n2), s.wobj(W4), lev), lambda s: [(c['a'], c['d']) for c in R.swtn(X(s, n2), [W4], (0,), lev)])
            if lev < 3 and n2 < 300:
                de = lambda s: [{'d': s.arr('D%d' % k, n2)} for k in range(lev)]
                s.case(['C10', 'F01'], 'pywt.iswt', '%d samples, level %d' % (n2, lev), lambda s: s.iswt(s.own([s.arr('A', n2)] + [d['d'] for d in de(s)]), s.wobj(W2)), lambda s: R.iswtn(de(s), [W2], (0,), s.arr('A', n2)))
        s.case(['F01', 'L01'], 'pywt.mra', '%d samples, stationary' % n2, lambda s: total(s.mra(X(s, n2), s.wobj(R.named('haar')), 1, transform='swt')), lambda s: X(s, n2))
    # packets
    for p, m in (('d', 'symmetric'), ('ad', 'periodization')):
        def node(s):
            d = R.conv(X(s))
            for c in p: d = R.dwt(d, W2, MODE[m])['ad'.index(c)]
            return d
        s.case(['P01', 'F01'], 'pywt.WaveletPacket', n + ', node %s' % p, lambda s: (lambda k: [k.data, k.maxlevel])(s.WaveletPacket(X(s), s.wobj(W2), m)[p]), lambda s: [node(s), R.max_level(N, 2)])
    s.case(['P01', 'R01'], 'pywt.WaveletPacket', n + ', reconstruct', lambda s: (lambda t: [t.get_level(2) and None, R.crop(M.np_asarray(t.reconstruct(False)), (N,))])(s.WaveletPacket(X(s), 'haar')), lambda s: [None, X(s)])


def chain(s, N):
    """a signal whose coefficients pass every size below on the way down"""
    L = R.max_level(N, W2.F)
    for m in ('symmetric', 'antisymmetric'):
        s.case(['F01', 'C09', 'L02'], 'pywt.wavedec', '%d samples, level %d, mode %s' % (N, L, m), lambda s: s.wavedec(s.arr('x', N), s.wobj(W2), m, L), lambda s: lst(R.wavedecn(s.arr('x', N), [W2], [MODE[m]], (0,), L)))
    s.case(['F01', 'C09', 'L01'], 'pywt.wavedecn', '%d samples, level %d' % (N, L), lambda s: s.wavedecn(s.arr('x', N), s.wobj(W2), 'constant', L), lambda s: R.wavedecn(s.arr('x', N), [W2], [MODE['constant']], (0,), L))
    s.case(['R01', 'F01'], 'pywt.waverec', '%d samples, level %d' % (N, L), lambda s: R.crop(M.np_asarray(s.waverec(s.wavedec(s.arr('x', N), 'haar', 'symmetric', L), 'haar')), (N,)), lambda s: s.arr('x', N))
    def node(s):
        d = R.conv(s.arr('x', N))
        for _ in range(4): d = R.dwt(d, W2, 1)[1]
        return d
    s.case(['P01', 'F01'], 'pywt.WaveletPacket', '%d samples, node dddd' % N, lambda s: s.WaveletPacket(s.arr('x', N), s.wobj(W2))['dddd'].data, node)
    s.case(['F01', 'C09'], 'pywt.downcoef', '%d samples, level %d' % (N, L), lambda s: s.downcoef('d', s.arr('x', N), s.wobj(W2), 'symmetric', L), lambda s: R.downcoef('d', s.arr('x', N), W2, 1, L))


def cont(s, N):
    """the continuous transform, sampled wavelets and thresholding at length N"""
    import pychecks4, pychecks6
    from npmodel import from_conc
    for n, sc, meth in (('mexh', [1.3, 9.], 'conv'), ('gaus2', [2.6], 'fft'), ('cmor1.5-1.0', [.7], 'conv')):
        w = pychecks6.CW(n)
        s.case(['R03', 'F01', 'K01'], 'pywt.cwt', '%s, %d samples, %s' % (n, N, meth), lambda s: s.cwt(s.arr('x', N), sc, n, method=meth)[0], lambda s: pychecks6.R_cwt(s.arr('x', N), w, sc, -1, 'f8'))
        s.case(['K01', 'F01'], 'pywt.ContinuousWavelet.wavefun', '%s, length %d' % (n, N + 2), lambda s: list(s.ContinuousWavelet(n).wavefun(length=N + 2)), lambda s: [from_conc(np.ascontiguousarray(q)) for q in w.fun(N + 2)])
    v = [(i * 37 % 101 - 50) / 16 for i in range(N)]
    for mode, rule in pychecks4.RULES.items():
        s.case(['R02'], 'pywt.threshold', '%s, %d samples' % (mode, N), lambda s: s.threshold(from_conc(np.array(v)), 1.5, mode, 7.25), lambda s: from_conc(np.array([rule(z, 1.5, 7.25) for z in v])))
    s.case(['R02'], 'pywt.threshold_firm', '%d samples' % N, lambda s: s.threshold_firm(from_conc(np.array(v)), 1.0, 2.0), lambda s: from_conc(np.array([pychecks4.firm(z, 1.0, 2.0) for z in v])))


def R_swt1(x, lev, ax): return [(c['a'], c['d']) for c in R.swtn(x, [W2], (ax,), lev)]


def total(parts):
    r = M.np_asarray(parts[0])
    for p in parts[1:]: r = r + M.np_asarray(p)
    return r


def taps(s, F):
    """a filter bank of about F taps on short signals"""
    w = bank(F + F % 2); n = '%d taps' % w.F
    for N in (3, 8):
        for m in ('symmetric', 'zero', 'periodization'):
            s.case(['C09', 'F01', 'C04'], 'pywt.dwt', '%s, %d samples, mode %s' % (n, N, m), lambda s: s.dwt(s.arr('x', N), s.wobj(w), m), lambda s: R.dwt(s.arr('x', N), w, MODE[m]))
        s.case(['C10', 'F01'], 'pywt.swt', '%s, %d samples' % (n, 8), lambda s: s.swt(s.arr('x', 8), s.wobj(w), 2), lambda s: [(c['a'], c['d']) for c in R.swtn(s.arr('x', 8), [w], (0,), 2)])
        k = w.F // 2 + N
        s.case(['C09', 'F01', 'C05'], 'pywt.idwt', '%s, %d coefficients' % (n, k), lambda s: s.idwt(s.arr('x', k), s.arr('y', k), s.wobj(w), 'zero'), lambda s: R.idwt(s.arr('x', k), s.arr('y', k), w, 0))
        s.case(['C09', 'F01', 'C05'], 'pywt.idwt', '%s, %d coefficients, periodization' % (n, N), lambda s: s.idwt(s.arr('x', N), s.arr('y', N), s.wobj(w), 'periodization'), lambda s: R.idwt(s.arr('x', N), s.arr('y', N), w, 5))
        s.case(['C09', 'F01', 'C05'], 'pywt.upcoef', '%s, %d coefficients' % (n, N), lambda s: s.upcoef('a', s.arr('x', N), s.wobj(w)), lambda s: R.upcoef('a', s.arr('x', N), w, 1, 0))
    s.case(['W03', 'F01'], 'pywt.Wavelet', n, lambda s: (lambda o: [o.dec_len, o.rec_len, list(o.dec_lo), list(o.dec_hi), list(o.rec_lo), list(o.rec_hi)])(s.wobj(w)), lambda s: [w.F, w.F] + [list(w.f[k]) for k in ('dec_lo', 'dec_hi', 'rec_lo', 'rec_hi')])


def many(s, K=0):
    """several axes and levels; K: one extent"""
    F = ['L01', 'F01', 'C09']; G = ['L01', 'F01', 'C09']
    a, b = (K, 3) if K and K < 300 else (K // 17 + 2, 17) if K else (12, 10)
    for sh in ((a, b), (b, a)) if K else ((a, b), (17, 6)):
        for m in (('smooth', 'zero'), 'periodization'):
            ms = m if isinstance(m, tuple) else (m, m)
            W = (W2, W4) if K < 300 else (W2, W2); mm = [MODE[q] for q in ms]; lab = 'shape %s, mode %s' % (sh, m)
            wo = lambda s: tuple(s.wobj(w) for w in W)
            s.case(F, 'pywt.dwtn', lab, lambda s: s.dwtn(s.arr('x', sh), wo(s), m), lambda s: R.dwtn(s.arr('x', sh), W, mm, (0, 1)))
            s.case(F, 'pywt.dwt2', lab, lambda s: s.dwt2(s.arr('x', sh), wo(s), m), lambda s: tup(R.dwtn(s.arr('x', sh), W, mm, (0, 1))))
            co = lambda s: {k: s.arr('c' + k, sh) for k in ('aa', 'ad', 'da', 'dd')}
            s.case(G, 'pywt.idwtn', lab, lambda s: s.idwtn(s.own(co(s)), wo(s), m), lambda s: R.idwtn(co(s), W, mm, (0, 1)))
            s.case(G, 'pywt.idwt2', lab, lambda s: s.idwt2(s.own(tup(co(s))), wo(s), m), lambda s: R.idwtn(co(s), W, mm, (0, 1)))
            lev = 1 if K else 3
            s.case(F, 'pywt.wavedec2', lab, lambda s: s.wavedec2(s.arr('x', sh), wo(s), m, lev), lambda s: tup2(R.wavedecn(s.arr('x', sh), W, mm, (0, 1), lev)))
            s.case(F, 'pywt.wavedecn', lab, lambda s: s.wavedecn(s.arr('x', sh), wo(s), m, lev), lambda s: R.wavedecn(s.arr('x', sh), W, mm, (0, 1), lev))
            cc = lambda s: symcoef(s, sh, W, mm, (0, 1), lev, 'f8')
            s.case(G, 'pywt.waverec2', lab, lambda s: s.waverec2(s.own(tup2(cc(s))), wo(s), m), lambda s: R.waverecn(cc(s), W, mm, (0, 1)))
            s.case(G, 'pywt.waverecn', lab, lambda s: s.waverecn(s.own(cc(s)), wo(s), m), lambda s: R.waverecn(cc(s), W, mm, (0, 1)))
            s.case(['L01', 'F01'], 'pywt.coeffs_to_array', lab, lambda s: s.coeffs_to_array(s.own(cc(s)))[0], lambda s: packed(cc(s), (0, 1), 0, 'f8')[0])
            s.case(['L01', 'F01'], 'pywt.array_to_coeffs', lab, lambda s: s.array_to_coeffs(*s.coeffs_to_array(s.own(cc(s)))), lambda s: cc(s))
            s.case(['L01', 'F01'], 'pywt.unravel_coeffs', lab, lambda s: s.unravel_coeffs(*s.ravel_coeffs(s.own(cc(s)))), lambda s: cc(s))
        ev = tuple(n + n % 2 for n in sh)
        s.case(['C10', 'F01'], 'pywt.swt2', 'shape %s' % (ev,), lambda s: s.swt2(s.arr('x', ev), s.wobj(W2), 1), lambda s: [tup(c) for c in R.swtn(s.arr('x', ev), full(W2, 2), (0, 1), 1)])
        s.case(['C10', 'F01'], 'pywt.swtn', 'shape %s' % (ev,), lambda s: s.swtn(s.arr('x', ev), s.wobj(W2), 1), lambda s: R.swtn(s.arr('x', ev), full(W2, 2), (0, 1), 1))
        de = lambda s: [{k: s.arr('D' + k, ev) for k in ('ad', 'da', 'dd')}]
        s.case(['C10', 'F01'], 'pywt.iswtn', 'shape %s' % (ev,), lambda s: s.iswtn(s.own([s.arr('A', ev)] + de(s)), s.wobj(W2)), lambda s: R.iswtn(de(s), full(W2, 2), (0, 1), s.arr('A', ev)))
        s.case(['C10', 'F01'], 'pywt.iswt2', 'shape %s' % (ev,), lambda s: s.iswt2(s.own([s.arr('A', ev)] + [(d['da'], d['ad'], d['dd']) for d in de(s)]), s.wobj(W2)), lambda s: R.iswtn(de(s), full(W2, 2), (0, 1), s.arr('A', ev)))
        s.case(['P01', 'F01'], 'pywt.WaveletPacket2D', 'shape %s' % (sh,), lambda s: s.WaveletPacket2D(s.arr('x', sh), s.wobj(W2), 'zero')['v'].data, lambda s: R.dwtn(s.arr('x', sh), full(W2, 2), [0, 0], (0, 1))['ad'])


def deep(s):
    """many axes, many levels"""
    F = ['L01', 'F01', 'C09']
    for nd in (4, 5, 6):
        sh = (3,) + (2,) * (nd - 1); W = full(W2, nd); ax = tuple(range(nd)); keys = [''.join(k) for k in itertools.product('ad', repeat=nd)]
        for m in ('symmetric', 'periodization'):
            mm = full(MODE[m], nd); lab = '%d axes, mode %s' % (nd, m)
            s.case(F, 'pywt.dwtn', lab, lambda s: s.dwtn(s.arr('x', sh), s.wobj(W2), m), lambda s: R.dwtn(s.arr('x', sh), W, mm, ax))
            h = (1,) * (nd - 1) + (2,)
            co = lambda s: {k: s.arr('c' + k, h) for k in keys}
            s.case(F, 'pywt.idwtn', lab, lambda s: s.idwtn(s.own(co(s)), s.wobj(W2), m), lambda s: R.idwtn(co(s), W, mm, ax))
            if nd == 6: continue
            cc = lambda s: symcoef(s, sh, W, mm, ax, 1, 'f8')
            s.case(F, 'pywt.wavedecn', lab, lambda s: s.wavedecn(s.arr('x', sh), s.wobj(W2), m, 1), lambda s: R.wavedecn(s.arr('x', sh), W, mm, ax, 1))
            s.case(F, 'pywt.waverecn', lab, lambda s: s.waverecn(s.own(cc(s)), s.wobj(W2), m), lambda s: R.waverecn(cc(s), W, mm, ax))
            s.case(['L01', 'F01'], 'pywt.coeffs_to_array', lab, lambda s: s.coeffs_to_array(s.own(cc(s)))[0], lambda s: packed(cc(s), ax, 0, 'f8')[0])
            s.case(['L01', 'F01'], 'pywt.unravel_coeffs', lab, lambda s: s.unravel_coeffs(*s.ravel_coeffs(s.own(cc(s)))), lambda s: cc(s))
        ev = (2,) * nd
        if nd < 6:
            s.case(['C10', 'F01'], 'pywt.swtn', '%d axes' % nd, lambda s: s.swtn(s.arr('x', ev), s.wobj(W2), 1), lambda s: R.swtn(s.arr('x', ev), W, ax, 1))
            de = lambda s: [{k: s.arr('D' + k, ev) for k in keys[1:]}]
            s.case(['C10', 'F01'], 'pywt.iswtn', '%d axes' % nd, lambda s: s.iswtn(s.own([s.arr('A', ev)] + de(s)), s.wobj(W2)), lambda s: R.iswtn(de(s), W, ax, s.arr('A', ev)))
            s.case(['P01', 'F01'], 'pywt.WaveletPacketND', '%d axes' % nd, lambda s: s.WaveletPacketND(s.arr('x', ev), s.wobj(W2), 'zero')['ad' * (nd // 2) + 'd' * (nd % 2)].data, lambda s: R.dwtn(s.arr('x', ev), W, full(0, nd), ax)['ad' * (nd // 2) + 'd' * (nd % 2)])
        for q in (0, nd - 2, -1):
            s.case(['C09', 'F01'], 'pywt.dwt', '%d axes, axis %d' % (nd, q), lambda s: s.dwt(s.arr('x', sh), s.wobj(W4), 'symmetric', q), lambda s: R.dwt(s.arr('x', sh), W4, 1, q))
            s.case(['C09', 'F01'], 'pywt.idwt', '%d axes, axis %d' % (nd, q), lambda s: s.idwt(s.arr('x', sh), s.arr('y', sh), s.wobj(W2), 'zero', q), lambda s: R.idwt(s.arr('x', sh), s.arr('y', sh), W2, 0, q))
            s.case(['M01', 'F01'], 'pywt.pad', '%d axes' % nd, lambda s: s.pad(s.arr('x', ev), ((1, 2),) + ((0, 0),) * (nd - 2) + ((0, 1),), 'reflect'), lambda s: padref(s, s.arr('x', ev), ((1, 2),) + ((0, 0),) * (nd - 2) + ((0, 1),), 'reflect'))
    # packets of many levels
    for lev in (4, 5):
        names = [''.join(q) for q in itertools.product('ad', repeat=lev)]
        gray = ['']
        for _ in range(lev): gray = ['a' + g for g in gray] + ['d' + g for g in gray[::-1]]
        def at(s, p):
            d = R.conv(s.arr('x', 2 ** lev + 1))
            for c in p: d = R.dwt(d, W2, MODE['periodization'])['ad'.index(c)]
            return d
        s.case(['P01', 'L01'], 'pywt.WaveletPacket.get_level', 'level %d' % lev, lambda s: [[q.path, q.data] for q in s.WaveletPacket(s.arr('x', 2 ** lev + 1), s.wobj(W2), 'periodization').get_level(lev)], lambda s: [[p, at(s, p)] for p in names])
        s.case(['P01', 'L01'], 'pywt.WaveletPacket.get_level', 'level %d, frequency order' % lev, lambda s: [q.path for q in s.WaveletPacket(s.arr('x', 2 ** lev + 1), s.wobj(W2), 'periodization').get_level(lev, 'freq')], lambda s: gray)
        s.case(['P01', 'R01'], 'pywt.WaveletPacket', 'reconstruct from level %d' % lev, lambda s: (lambda t: [len(t.get_level(lev)), len(t.get_leaf_nodes()), R.crop(M.np_asarray(t.reconstruct(False)), (2 ** lev + 1,))])(s.WaveletPacket(s.arr('x', 2 ** lev + 1), 'haar')), lambda s: [2 ** lev, 2 ** lev, s.arr('x', 2 ** lev + 1)])
    for lev in (5, 6):
        for norm in (False, True):
            s.case(['R01', 'C10'], 'pywt.iswt', 'level %d, norm %s' % (lev, norm), lambda s: s.iswt(s.swt(s.arr('x', 64), 'haar', lev, norm=norm), 'haar', norm), lambda s: s.arr('x', 64))
    for n in (2 ** 14, 2 ** 20, 3 * 2 ** 30): 
        s.case(['C10', 'L02'], 'pywt.swt_max_level', '%d samples' % n, lambda s: s.swt_max_level(n), lambda s: R.swt_max_level(n))
        for F in (2, 20, 76): s.case(['L02', 'C10'], 'pywt.dwt_max_level', '%d samples, %d taps' % (n, F), lambda s: int(s.dwt_max_level(n, F)), lambda s: R.max_level(n, F))
        s.case(['L02', 'C10'], 'pywt.dwt_coeff_len', '%d samples' % n, lambda s: int(s.dwt_coeff_len(n + 1, 6, 'zero')), lambda s: spec.dwt_len(n + 1, 6, 0))


def g_sizes(s):
    jobs = [lambda: deep(s), lambda: many(s)] + [lambda N=N: one(s, N, False) for N in (33, 64, 130)] + [lambda N=N: cont(s, N) for N in (33, 130)]
    for K in marks():
        small = K < 300
        for N in (K - 1, K, K + 1) if K < 2100 else (K + 1,):
            if K < 5000: jobs.append(lambda N=N: one(s, N, small))
            if N <= 515: jobs.append(lambda N=N: cont(s, N))
            if small or (N == K + 1 and N < 5000): jobs.append(lambda N=N: many(s, N))
        if K < 600: jobs.append(lambda K=K: chain(s, 8 * K + 3))
        if K < 300: jobs += [lambda F=F: taps(s, F) for F in (K - 1, K + 1)]
    for j in jobs: j()


GROUPS9 = {'sizes': g_sizes}
