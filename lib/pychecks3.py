"""Obligations that concern every entry point: modes, options, element types,
axes, failing native calls, module state, wavelet objects."""
import itertools, re
import numpy as np
import npmodel as M
import terms as T
import pyspec as R
import pyinterp as P
import spec
from spec import MODES
from npmodel import Arr
from pychecks import W2, W4, W6, MODE, C, full, DTS
from pysuite import snap, diffsnap

OLD = {'zpd': 'zero', 'cpd': 'constant', 'sym': 'symmetric', 'ppd': 'periodic', 'sp1': 'smooth', 'per': 'periodization'}
SH = (4, 6)


def wv(s, w): return s.wobj(w) if isinstance(w, R.Wav) else w


def K2(s, dt, p='c', sh=SH): return {k: s.arr(p + k, sh, dt) for k in ('aa', 'ad', 'da', 'dd')}
def D2(s, dt, p='c', sh=SH):
    c = K2(s, dt, p, sh); del c['aa']; return c


# one calling context per public function; x: element type, w: wavelet, m: mode, ax: axis or axes
def calls():
    X = lambda s, dt, sh=SH, n='x': s.arr(n, sh, dt)
    E = {}
    def add(name, takes, f, default_ax=None): E[name] = (set(takes.split()), f, default_ax)
    add('pywt.dwt', 'mode axis wavelet', lambda s, dt, w, m, ax: s.dwt(X(s, dt), wv(s, w), m, axis=ax), 0)
    add('pywt.idwt', 'mode axis wavelet', lambda s, dt, w, m, ax: s.idwt(X(s, dt), X(s, dt, n='y'), wv(s, w), m, axis=ax), 0)
    add('pywt.idwt (no cA)', 'mode axis wavelet', lambda s, dt, w, m, ax: s.idwt(None, X(s, dt, n='y'), wv(s, w), m, axis=ax), 0)
    add('pywt.idwt (no cD)', 'mode axis wavelet', lambda s, dt, w, m, ax: s.idwt(X(s, dt), None, wv(s, w), m, axis=ax), 0)
    add('pywt.downcoef', 'mode wavelet', lambda s, dt, w, m, ax: s.downcoef('d', X(s, dt, (9,)), wv(s, w), m, 2))
    add('pywt.upcoef', 'wavelet', lambda s, dt, w, m, ax: s.upcoef('d', X(s, dt, (3,)), wv(s, w), 2))
    add('pywt.dwt2', 'mode axes wavelet', lambda s, dt, w, m, ax: s.dwt2(X(s, dt), wv(s, w), m, axes=ax), (0, 1))
    add('pywt.idwt2', 'mode axes wavelet', lambda s, dt, w, m, ax: s.idwt2((lambda c: (c['aa'], (c['da'], c['ad'], c['dd'])))(K2(s, dt)), wv(s, w), m, axes=ax), (0, 1))
    add('pywt.dwtn', 'mode axes wavelet', lambda s, dt, w, m, ax: s.dwtn(X(s, dt), wv(s, w), m, axes=ax), (0, 1))
    add('pywt.idwtn', 'mode axes wavelet', lambda s, dt, w, m, ax: s.idwtn(K2(s, dt), wv(s, w), m, axes=ax), (0, 1))
    add('pywt.wavedec', 'mode axis wavelet', lambda s, dt, w, m, ax: s.wavedec(X(s, dt, (9, 9)), wv(s, w), m, level=2, axis=ax), 0)
    add('pywt.waverec', 'mode axis wavelet', lambda s, dt, w, m, ax: s.waverec([X(s, dt), X(s, dt, n='d')], wv(s, w), m, axis=ax), 0)
    add('pywt.wavedec2', 'mode axes wavelet', lambda s, dt, w, m, ax: s.wavedec2(X(s, dt, (9, 9)), wv(s, w), m, level=2, axes=ax), (0, 1))
    add('pywt.waverec2', 'mode axes wavelet', lambda s, dt, w, m, ax: s.waverec2((lambda c: [c['aa'], (c['da'], c['ad'], c['dd'])])(K2(s, dt)), wv(s, w), m, axes=ax), (0, 1))
    add('pywt.wavedecn', 'mode axes wavelet', lambda s, dt, w, m, ax: s.wavedecn(X(s, dt, (9, 9)), wv(s, w), m, level=2, axes=ax), (0, 1))
    add('pywt.waverecn', 'mode axes wavelet', lambda s, dt, w, m, ax: s.waverecn([X(s, dt), D2(s, dt)], wv(s, w), m, axes=ax), (0, 1))
    add('pywt.fswavedecn', 'mode axes wavelet', lambda s, dt, w, m, ax: s.fswavedecn(X(s, dt, (9, 8)), wv(s, w), m, levels=1, axes=ax).coeffs, (0, 1))
    add('pywt.fswaverecn', 'wavelet', lambda s, dt, w, m, ax: s.fswaverecn(s.fswavedecn(X(s, dt, (8, 8)), wv(s, w), m, levels=1)), None)
    add('pywt.swt', 'axis wavelet', lambda s, dt, w, m, ax: s.swt(X(s, dt, (4, 4)), wv(s, w), level=2, axis=ax), 0)
    add('pywt.iswt', 'axis wavelet', lambda s, dt, w, m, ax: s.iswt([(X(s, dt, (4, 4)), X(s, dt, (4, 4), 'd')), (X(s, dt, (4, 4), 'e'), X(s, dt, (4, 4), 'f'))], wv(s, w), axis=ax), 0)
    add('pywt.iswt (trimmed)', 'axis wavelet', lambda s, dt, w, m, ax: s.iswt([X(s, dt, (4, 4)), X(s, dt, (4, 4), 'd'), X(s, dt, (4, 4), 'f')], wv(s, w), axis=ax), 0)
    add('pywt.swt2', 'axes wavelet', lambda s, dt, w, m, ax: s.swt2(X(s, dt, (4, 4)), wv(s, w), level=2, axes=ax), (0, 1))
    add('pywt.iswt2', 'axes wavelet', lambda s, dt, w, m, ax: s.iswt2((lambda c: [(c['aa'], (c['da'], c['ad'], c['dd']))])(K2(s, dt, 'c', (4, 4))), wv(s, w), axes=ax), (0, 1))
    add('pywt.swtn', 'axes wavelet', lambda s, dt, w, m, ax: s.swtn(X(s, dt, (4, 4)), wv(s, w), level=2, axes=ax), (0, 1))
    add('pywt.iswtn', 'axes wavelet', lambda s, dt, w, m, ax: s.iswtn([K2(s, dt, 'c', (4, 4))], wv(s, w), axes=ax), (0, 1))
    add('pywt.mra (swt)', 'axis wavelet', lambda s, dt, w, m, ax: s.mra(X(s, dt, (4, 4)), wv(s, w), level=1, axis=ax, transform='swt'), 0)
    add('pywt.mra (dwt)', 'mode axis wavelet', lambda s, dt, w, m, ax: s.mra(X(s, dt, (9, 9)), wv(s, w), level=1, axis=ax, transform='dwt', mode=m), 0)
    add('pywt.mra2 (swt2)', 'axes wavelet', lambda s, dt, w, m, ax: s.mra2(X(s, dt, (4, 4)), wv(s, w), level=1, axes=ax, transform='swt2'), (0, 1))
    add('pywt.mra2 (dwt2)', 'mode axes wavelet', lambda s, dt, w, m, ax: s.mra2(X(s, dt, (9, 9)), wv(s, w), level=1, axes=ax, transform='dwt2', mode=m), (0, 1))
    add('pywt.mran (swtn)', 'axes wavelet', lambda s, dt, w, m, ax: s.mran(X(s, dt, (4, 4)), wv(s, w), level=1, axes=ax, transform='swtn'), (0, 1))
    add('pywt.mran (dwtn)', 'mode axes wavelet', lambda s, dt, w, m, ax: s.mran(X(s, dt, (9, 9)), wv(s, w), level=1, axes=ax, transform='dwtn', mode=m), (0, 1))
    add('pywt.WaveletPacket', 'mode axis wavelet', lambda s, dt, w, m, ax: [n.data for n in s.WaveletPacket(X(s, dt, (9, 9)), wv(s, w), m, maxlevel=1, axis=ax).get_level(1)], 0)
    add('pywt.WaveletPacket2D', 'mode axes wavelet', lambda s, dt, w, m, ax: [n.data for n in s.WaveletPacket2D(X(s, dt, (9, 9)), wv(s, w), m, maxlevel=1, axes=ax).get_level(1)], (0, 1))
    add('pywt.WaveletPacketND', 'mode axes wavelet', lambda s, dt, w, m, ax: [n.data for n in s.WaveletPacketND(X(s, dt, (9, 9)), wv(s, w), m, maxlevel=1, axes=ax).get_level(1)], (0, 1))
    add('pywt.dwt (1-D)', 'mode wavelet', lambda s, dt, w, m, ax: s.dwt(X(s, dt, (7,)), wv(s, w), m), None)
    add('pywt.idwt (1-D)', 'mode wavelet', lambda s, dt, w, m, ax: s.idwt(X(s, dt, (5,)), X(s, dt, (5,), 'y'), wv(s, w), m), None)
    add('pywt.wavedec (1-D)', 'mode wavelet', lambda s, dt, w, m, ax: s.wavedec(X(s, dt, (9,)), wv(s, w), m, level=2), None)
    add('pywt.waverec (1-D)', 'mode wavelet', lambda s, dt, w, m, ax: (lambda k: s.waverec(k + [X(s, dt, s.waverec(k, wv(s, w), m).shape, 'e')], wv(s, w), m))([X(s, dt, (4,)), X(s, dt, (4,), 'd')]), None)
    add('pywt.swt (1-D)', 'wavelet', lambda s, dt, w, m, ax: s.swt(X(s, dt, (4,)), wv(s, w), level=2), None)
    add('pywt.iswt (1-D)', 'wavelet', lambda s, dt, w, m, ax: s.iswt([(X(s, dt, (4,)), X(s, dt, (4,), 'd')), (X(s, dt, (4,), 'e'), X(s, dt, (4,), 'f'))], wv(s, w)), None)
    add('pywt.iswt (1-D, trimmed)', 'wavelet', lambda s, dt, w, m, ax: s.iswt([X(s, dt, (4,)), X(s, dt, (4,), 'd'), X(s, dt, (4,), 'f')], wv(s, w)), None)
    add('pywt.iswt2 (two levels)', 'wavelet', lambda s, dt, w, m, ax: s.iswt2([(lambda c: (c['aa'], (c['da'], c['ad'], c['dd'])))(K2(s, dt, p, (4, 4))) for p in 'cb'], wv(s, w)), None)
    add('pywt.iswtn (two levels)', 'wavelet', lambda s, dt, w, m, ax: s.iswtn([K2(s, dt, p, (4, 4)) for p in 'cb'], wv(s, w)), None)
    add('pywt.waverec2 (two levels)', 'mode wavelet', lambda s, dt, w, m, ax: (lambda k: (lambda d: s.waverec2(k + [(d['da'], d['ad'], d['dd'])], wv(s, w), m))(K2(s, dt, 'b', s.waverec2(k, wv(s, w), m).shape)))((lambda c: [c['aa'], (c['da'], c['ad'], c['dd'])])(K2(s, dt))), None)
    add('pywt.waverecn (two levels)', 'mode wavelet', lambda s, dt, w, m, ax: (lambda k: s.waverecn(k + [D2(s, dt, 'b', s.waverecn(k, wv(s, w), m).shape)], wv(s, w), m))([X(s, dt), D2(s, dt)]), None)
    add('pywt.mra (1-D, swt)', 'wavelet', lambda s, dt, w, m, ax: s.mra(X(s, dt, (4,)), wv(s, w), level=2, transform='swt'), None)
    add('pywt.mra (1-D, dwt)', 'mode wavelet', lambda s, dt, w, m, ax: s.mra(X(s, dt, (9,)), wv(s, w), level=2, transform='dwt', mode=m), None)
    add('pywt.WaveletPacket (1-D)', 'mode wavelet', lambda s, dt, w, m, ax: [n.data for n in s.WaveletPacket(X(s, dt, (9,)), wv(s, w), m, maxlevel=2).get_level(2)], None)
    add('pywt.coeffs_to_array', 'axes', lambda s, dt, w, m, ax: s.coeffs_to_array([X(s, dt), D2(s, dt)], axes=ax)[0], (0, 1))
    add('pywt.ravel_coeffs', 'axes', lambda s, dt, w, m, ax: s.ravel_coeffs([X(s, dt), D2(s, dt)], axes=ax)[0], (0, 1))
    add('pywt.wavedecn_shapes', 'mode axes wavelet', lambda s, dt, w, m, ax: s.wavedecn_shapes((9, 9), wv(s, w), m, level=1, axes=ax), (0, 1))
    add('pywt.dwt_coeff_len', 'mode', lambda s, dt, w, m, ax: s.dwt_coeff_len(9, 4, m))
    return E


E = calls()


def val(x):
    """containers of arrays in the shape the comparison understands"""
    return x


def same(s, got): return not s.cmp(got[0], got[1])


# ---------------------------------------------------------------- modes
def g_modes(s):
    P = ['M01']
    for m in MODES:
        s.case(P, 'pywt.Modes', 'attribute ' + m, lambda s: getattr_(s, s.Modes, m), lambda s: MODE[m])
        s.case(P, 'pywt.Modes', 'from_object name ' + m, lambda s: s.Modes.from_object(m), lambda s: MODE[m])
        s.case(P, 'pywt.Modes', 'from_object code %d' % MODE[m], lambda s: s.Modes.from_object(MODE[m]), lambda s: MODE[m])
        s.case(P, 'pywt._extensions._pywt.MODES', 'attribute ' + m, lambda s: getattr_(s, s.mod('_extensions._pywt', 'MODES'), m), lambda s: MODE[m])
        s.case(P, 'pywt._extensions._pywt.MODES', 'from_object name ' + m, lambda s: s.mod('_extensions._pywt', 'MODES').from_object(m), lambda s: MODE[m])
    for o, m in OLD.items():
        s.case(P, 'pywt.Modes', 'alias ' + o, lambda s: getattr_(s, s.Modes, o), lambda s: MODE[m])
        s.case(P, 'pywt.Modes', 'from_object alias ' + o, lambda s: s.Modes.from_object(o), lambda s: MODE[m])
        s.case(P, 'pywt._extensions._pywt.MODES', 'alias ' + o, lambda s: getattr_(s, s.mod('_extensions._pywt', 'MODES'), o), lambda s: MODE[m])
        s.case(P, 'pywt._extensions._pywt.MODES', 'from_object alias ' + o, lambda s: s.mod('_extensions._pywt', 'MODES').from_object(o), lambda s: MODE[m])
    s.case(P, 'pywt.Modes', 'list of names', lambda s: sorted(s.Modes.modes), lambda s: sorted(MODES))
    s.case(P, 'pywt._extensions._pywt.MODES', 'list of names', lambda s: sorted(s.mod('_extensions._pywt', 'MODES').modes), lambda s: sorted(MODES))
    for bad in BADMODES:
        s.case(P + ['O01'], 'pywt.Modes', 'from_object(%r)' % (bad,), lambda s: s.Modes.from_object(bad), raises=True)
    for bad in ('foo', 'Zero', 'sp2', ''):
        s.case(P + ['O01'], 'pywt.Modes', 'attribute %r' % bad, lambda s: getattr_(s, s.Modes, bad), raises=True)
    # every entry point: codes and aliases select what the name selects
    for name, (takes, f, ax) in E.items():
        if 'mode' not in takes: continue
        for m in MODES:
            s.case(P + ['F01'], name, 'code %d against name %s' % (MODE[m], m), lambda s: (f(s, 'f8', W4, MODE[m], ax), f(s, 'f8', W4, m, ax)), lambda s: lambda got: same(s, got))
        for o, m in OLD.items():
            s.case(P + ['F01'], name, 'alias %s against name %s' % (o, m), lambda s: (f(s, 'f8', W4, o, ax), f(s, 'f8', W4, m, ax)), lambda s: lambda got: same(s, got))
        for bad in BADMODES:
            s.case(P + ['O01'], name, 'the mode is %r' % (bad,), lambda s: f(s, 'f8', W4, bad, ax), raises=True)
    for m in MODES:
        for n, F in itertools.product((1, 2, 3, 8, 9), (1, 2, 4, 5)):
            s.case(['M01', 'C10'], 'pywt.dwt_coeff_len', '%d samples, %d taps, %s' % (n, F, m), lambda s: s.dwt_coeff_len(n, F, m), lambda s: spec.dwt_len(n, F, MODE[m]))
    # explicit padding
    for m in MODES:
        for n in (1, 2, 3, 4, 5):
            if n == 1 and m in ('reflect', 'antireflect'): continue
            for w in ((0, 0), (1, 1), (2, 0), (0, 3), (5, 7), (1, 11)):
                for dt in ('f8', 'c16') if w == (5, 7) else ('f8',):
                    s.case(P, 'pywt.pad', '%s, %d samples, widths %s, %s' % (m, n, w, dt), lambda s: s.pad(s.arr('x', n, dt), w if w[0] != w[1] else w[0], m), lambda s: padref(s, s.arr('x', n, dt), (w,), m), aspects={'dtype': ['M01', 'D01']})
        s.case(P, 'pywt.pad', '%s, 2-D, unequal widths' % m, lambda s: s.pad(s.arr('x', (3, 4)), ((1, 5), (6, 2)), m), lambda s: padref(s, s.arr('x', (3, 4)), ((1, 5), (6, 2)), m))
        s.case(P, 'pywt.pad', '%s, 2-D, one width' % m, lambda s: s.pad(s.arr('x', (3, 4)), 2, m), lambda s: padref(s, s.arr('x', (3, 4)), ((2, 2), (2, 2)), m))
        s.case(P, 'pywt.pad', '%s, 2-D, common widths' % m, lambda s: s.pad(s.arr('x', (3, 4)), ((1, 4),), m), lambda s: padref(s, s.arr('x', (3, 4)), ((1, 4), (1, 4)), m))
        s.case(P, 'pywt.pad', '%s, integer list' % m, lambda s: s.pad([3, 1, 4, 1, 5], (2, 3), m), lambda s: padref(s, M.np_array([3, 1, 4, 1, 5]), ((2, 3),), m))
        s.case(P + ['O01'], 'pywt.pad', 'a width is negative (%s)' % m, lambda s: s.pad(s.arr('x', 4), (2, -1), m), raises=True)
    for bad in ('foo', '', 'wrap', 'edge', 'Zero', None):
        s.case(P + ['O01'], 'pywt.pad', 'the mode is %r' % (bad,), lambda s: s.pad(s.arr('x', 4), 2, bad), raises=True)


BADMODES = ('foo', '', 'Zero', 'per ', 'sp', -1, 9, 10, 100, -9, 'from_object', 'modes', '__class__', None, 2.0)


def getattr_(s, o, n): return s.W.getattr(o, n)


def padref(s, x, widths, m):
    """explicit padding, one axis after the other, by the documented extension"""
    for ax, (l, r) in enumerate(widths):
        v = np.moveaxis(x.a, ax, -1); n = v.shape[-1]
        if m == 'periodization':
            N = n + n % 2; rows = [{min(i % N, n - 1): 1} for i in range(-l, N + r)]
        else: rows = [spec.ext(MODE[m], n, i) for i in range(-l, n + r)]
        out = np.zeros(v.shape[:-1] + (len(rows),), v.dtype)
        for idx in np.ndindex(*v.shape[:-1]):
            for o, row in enumerate(rows):
                for p in (('real', 'imag') if x.cplx else ('real',)):
                    t = T.ZERO
                    for k, c in row.items(): t = T.add(t, T.scale(int(getattr(v[idx], p)[k]), float(c)))
                    if x.cplx: getattr(out[idx], p)[o] = t
                    else: out[idx][o] = t
        x = Arr(np.ascontiguousarray(np.moveaxis(out, -1, ax)), x.dt)
    return x


# ---------------------------------------------------------------- options
def g_options(s):
    O = ['O01']
    x8 = lambda s: s.arr('x', 8)
    for bad in ('x', 'A', 'D', '', 'ad', 'da', 'approx', None, True, 1):
        s.case(O, 'pywt.downcoef', 'the part is %r' % (bad,), lambda s: s.downcoef(bad, x8(s), s.wobj(W4)), raises=True)
        s.case(O, 'pywt.upcoef', 'the part is %r' % (bad,), lambda s: s.upcoef(bad, x8(s), s.wobj(W4)), raises=True)
    for bad in ('foo', '', 'Discrete', 'disc', None):
        s.case(O, 'pywt.wavelist', 'the kind is %r' % (bad,), lambda s: s.wavelist(kind=bad), raises=True)
        s.case(O, 'pywt.wavelist', 'the kind is %r, with a family' % (bad,), lambda s: s.wavelist('db', bad), raises=True)
    for bad in ('foo', '', 'DB', 'db2', 'Daubechies', 'd'):
        s.case(O, 'pywt.wavelist', 'the family is %r' % (bad,), lambda s: s.wavelist(bad), raises=True)
    for tr, good in (('mra', ('swt', 'dwt')), ('mra2', ('swt2', 'dwt2')), ('mran', ('swtn', 'dwtn'))):
        for bad in ('foo', '', 'SWT', 'swt', 'dwt', 'swt2', 'dwt2', 'swtn', 'dwtn', None):
            if bad in good: continue
            s.case(O, 'pywt.' + tr, 'the transform is %r' % (bad,), lambda s: getattr(s, tr)(s.arr('x', (8,) if tr == 'mra' else (8, 8)), s.wobj(W4), level=1, transform=bad), raises=True)
    co = lambda s: [s.arr('a', (4, 4)), D2(s, 'f8', 'c', (4, 4))]
    for bad in ('foo', '', 'wavedec3', 'Wavedecn', 'swt', 'swt2', 'swtn', None):
        def f(s):
            a, sl = s.coeffs_to_array(co(s)); return s.array_to_coeffs(a, sl, output_format=bad)
        s.case(O, 'pywt.array_to_coeffs', 'the output format is %r' % (bad,), f, raises=True)
    for bad in ('foo', '', 'wavedec3', 'Wavedecn', 'swtm', None):
        def f(s):
            a, sl, sh = s.ravel_coeffs(co(s)); return s.unravel_coeffs(a, sl, sh, output_format=bad)
        s.case(O, 'pywt.unravel_coeffs', 'the output format is %r' % (bad,), f, raises=True)
    for bad in ('foo', '', 'Natural', 'frequency', None, 0):
        for nm, sh in (('WaveletPacket', (8,)), ('WaveletPacket2D', (8, 8))):
            for lev in (0, 1, 2):
                s.case(O, 'pywt.%s.get_level' % nm, 'the order is %r (level %d)' % (bad, lev), lambda s: getattr(s, nm)(s.arr('x', sh), s.wobj(W2), 'zero', maxlevel=2).get_level(lev, bad), raises=True)
    for bad in ('foo', '', 'Conv', 'direct', None):
        s.case(O, 'pywt.cwt', 'the method is %r' % (bad,), lambda s: s.cwt(x8(s), [1, 2], 'morl', method=bad), raises=True)
        s.case(O, 'pywt.cwt', 'the method is %r and there are no scales' % (bad,), lambda s: s.cwt(x8(s), [], 'morl', method=bad), raises=True)
    for bad in ('foo', '', 'Soft', 'firm', None):
        s.case(O, 'pywt.threshold', 'the mode is %r' % (bad,), lambda s: s.threshold(x8(s), 1, bad), raises=True)
    # documented values are accepted
    for nm, kinds in (('kind', ('all', 'continuous', 'discrete')),):
        for k in kinds: s.case(O, 'pywt.wavelist', 'kind ' + k, lambda s: len(s.wavelist(kind=k)) > 0, lambda s: True)
    for k in FAMILIES: s.case(O, 'pywt.wavelist', 'family ' + k, lambda s: sorted(s.wavelist(k)), lambda s: sorted(n for n in NAMES(s) if re.match(r'%s(\d|$)' % k, n)))
    s.case(O, 'pywt.wavelist', 'everything', lambda s: sorted(s.wavelist()), lambda s: sorted(NAMES(s)))
    s.case(O, 'pywt.wavelist', 'discrete', lambda s: sorted(s.wavelist(kind='discrete')), lambda s: sorted(n for n in NAMES(s) if fam(n) in FAMILIES[:7]))
    s.case(O, 'pywt.wavelist', 'continuous', lambda s: sorted(s.wavelist(kind='continuous')), lambda s: sorted(n for n in NAMES(s) if fam(n) in FAMILIES[7:]))
    s.case(O, 'pywt.families', 'short names', lambda s: s.families(), lambda s: FAMILIES)
    s.case(O, 'pywt.families', 'both lists', lambda s: len(s.families(False)), lambda s: len(FAMILIES))
    for mth in ('conv', 'fft'): s.case(O, 'pywt.cwt', 'method ' + mth, lambda s: s.cwt(x8(s), [1, 2], 'morl', method=mth)[0].shape, lambda s: (2, 8))
    for mo in ('soft', 'hard', 'greater', 'less', 'garrote'): s.case(O, 'pywt.threshold', 'mode ' + mo, lambda s: s.threshold(x8(s), 1, mo).shape, lambda s: (8,))
    # wavelets
    for name, (takes, f, ax) in E.items():
        if 'wavelet' not in takes: continue
        for bad in ('foo', 'db0', 'db39', 'coif18', 'bior1.2', 'morl', None, 3):
            s.case(O + ['W01'], name, 'the wavelet is %r' % (bad,), lambda s: f(s, 'f8', bad, 'zero', ax), raises=True)
        if ax == (0, 1) and 'mode' in takes:
            for bad in (['zero'] * 3, ['zero', 'foo'], ['zero', 99]):
                s.case(O + ['M01'], name, 'the modes are %r for two axes' % (bad,), lambda s: f(s, 'f8', W4, bad, ax), raises=True)
        if ax == (0, 1):
            s.case(O, name, 'there are three wavelets for two axes', lambda s: f(s, 'f8', ['db2', 'db3', 'db2'], 'zero', ax), raises=True)
            s.case(O, name, 'the second wavelet is unknown', lambda s: f(s, 'f8', ['db2', 'foo'], 'zero', ax), raises=True)
    for bad in ('db2', 'haar', 'foo', 'cgau9', 'gaus0', None):
        s.case(O + ['W01'], 'pywt.cwt', 'the wavelet is %r' % (bad,), lambda s: s.cwt(x8(s), [1, 2], bad), raises=True)
    # levels the native layer has no meaning for
    for bad in (-1, 1.5, 0, 40):
        lab = 'the level is %r' % (bad,)
        for nm in ('swt', 'swt2', 'swtn'):
            if nm == 'swt' or bad in (1.5, 40): s.case(['C06'], 'pywt.' + nm, lab, lambda s: getattr(s, nm)(s.arr('x', (8, 8)), s.wobj(W4), bad), raises=True)
        if bad != 40:
            for nm in ('downcoef', 'upcoef'): s.case(['C06'], 'pywt.' + nm, lab, lambda s: getattr(s, nm)('a', x8(s), s.wobj(W4), level=bad), raises=True)
            if bad:
                for nm in ('wavedec', 'wavedec2', 'wavedecn'): s.case(['C06'], 'pywt.' + nm, lab, lambda s: getattr(s, nm)(s.arr('x', (8, 8)), s.wobj(W4), 'zero', bad), raises=True)


FAMILIES = ['haar', 'db', 'sym', 'coif', 'bior', 'rbio', 'dmey', 'gaus', 'mexh', 'morl', 'cgau', 'shan', 'fbsp', 'cmor']


def fam(n): return re.match(r'[a-z]+', n).group(0)


def NAMES(s):
    bi = ['1.1', '1.3', '1.5', '2.2', '2.4', '2.6', '2.8', '3.1', '3.3', '3.5', '3.7', '3.9', '4.4', '5.5', '6.8']
    return (['haar', 'dmey', 'mexh', 'morl', 'shan', 'fbsp', 'cmor'] + ['db%d' % i for i in range(1, 39)] + ['sym%d' % i for i in range(2, 21)] + ['coif%d' % i for i in range(1, 18)]
            + ['bior' + b for b in bi] + ['rbio' + b for b in bi] + ['gaus%d' % i for i in range(1, 9)] + ['cgau%d' % i for i in range(1, 9)])


# ---------------------------------------------------------------- element types
DT = ['f2', 'f4', 'f8', 'g', 'i1', 'i2', 'i4', 'i8', 'u1', 'u2', 'u4', 'u8', '?', 'F', 'D', 'G', '>f4', '>f8', '>c8', '>c16', '>i4', '>f2']


def leaves(x):
    if isinstance(x, P.MemView): x = x.base()
    if isinstance(x, M.Base): return [x]
    if isinstance(x, dict): return [y for v in x.values() for y in leaves(v)]
    if isinstance(x, (list, tuple)): return [y for v in x for y in leaves(v)]
    return []


TRANSFORMS = [n for n, (t, f, a) in E.items() if 'wavelet' in t and n not in ('pywt.wavedecn_shapes',)]


def g_dtypes(s):
    D = ['D01']
    for name in TRANSFORMS:
        takes, f, ax = E[name]
        for dt in DT:
            if name.startswith('pywt.fsw') and dt == '?': pass
            want = R.idt(dt)
            # reference: the same call on data already in the working type
            def ref(s):
                g = f(s, want, W4, 'symmetric', ax)
                return lambda got: all(x.dt == want and x.dt.isnative for x in leaves(got)) and not s.cmp(got, g)
            s.case(D, name, 'element type %s' % np.dtype(dt).str if np.dtype(dt).char not in 'gG' else 'element type ' + dt, lambda s: f(s, dt, W4, 'symmetric', ax), ref)
    # lists and tuples of numbers
    for data, want in (([1, 2, 3, 4], 'f8'), ([1.5, 2, 3, 4], 'f8'), ((True, False, True, True), 'f8'), (range(4), 'f8')):
        a = M.np_array(list(data)) if not isinstance(data, range) else M.np_array(list(data))
        lab = 'list %s' % (data,)
        s.case(D, 'pywt.dwt', lab, lambda s: s.dwt(data, s.wobj(W4), 'zero'), lambda s: R.dwt(M.np_array(list(data)), W4, 0))
        s.case(D, 'pywt.idwt', lab, lambda s: s.idwt(data, data, s.wobj(W4), 'zero'), lambda s: R.idwt(M.np_array(list(data)), M.np_array(list(data)), W4, 0))
        s.case(D, 'pywt.idwt', lab + ', one band', lambda s: s.idwt(None, data, s.wobj(W4), 'zero'), lambda s: R.idwt(None, M.np_array(list(data)), W4, 0))
        s.case(D, 'pywt.downcoef', lab, lambda s: s.downcoef('a', data, s.wobj(W4), 'zero'), lambda s: R.downcoef('a', M.np_array(list(data)), W4, 0, 1))
        s.case(D, 'pywt.upcoef', lab, lambda s: s.upcoef('a', data, s.wobj(W4)), lambda s: R.upcoef('a', M.np_array(list(data)), W4, 1))
        s.case(D, 'pywt.wavedec', lab, lambda s: s.wavedec(data, s.wobj(W4), 'zero', 1), lambda s: list(R.dwt(M.np_array(list(data)), W4, 0)))
        s.case(D, 'pywt.swt', lab, lambda s: s.swt(data, s.wobj(W4), 1), lambda s: [(lambda c: (c['a'], c['d']))(R.swtn1(M.np_array(list(data)), [W4], 1, (0,)))])
        s.case(D, 'pywt.dwtn', lab, lambda s: s.dwtn(data, s.wobj(W4), 'zero'), lambda s: R.dwtn(M.np_array(list(data)), [W4], [0], (0,)))
        s.case(D, 'pywt.idwtn', lab, lambda s: s.idwtn({'a': data, 'd': data}, s.wobj(W4), 'zero'), lambda s: R.idwtn({'a': M.np_array(list(data)), 'd': M.np_array(list(data))}, [W4], [0], (0,)))
        two = [list(data), list(data)[::-1]]
        s.case(D, 'pywt.dwt2', 'nested ' + lab, lambda s: s.dwt2(two, s.wobj(W4), 'zero'), lambda s: (lambda c: (c['aa'], (c['da'], c['ad'], c['dd'])))(R.dwtn(M.np_array(two), [W4, W4], [0, 0], (0, 1))))
        s.case(D, 'pywt.WaveletPacket', lab, lambda s: [n.data for n in s.WaveletPacket(data, s.wobj(W2), 'zero').get_level(1)], lambda s: list(R.dwt(M.np_array(list(data)), W2, 0)))
    # mixed element types: promoted to the common one, in either position
    pairs = [('f4', 'f8'), ('f4', 'c8'), ('f8', 'c8'), ('f4', 'c16'), ('f8', 'c16'), ('c8', 'c16'), ('f4', 'i4'), ('c8', 'i8'), ('f2', 'f8'), ('i4', 'c8'), ('f2', 'f4'), ('>f4', 'f8'), ('>c8', 'f8'), ('F', 'G')]
    wide = {'f': 'fd', 'd': 'd', 'F': 'FD', 'D': 'D'}
    def mcase(props, where, lab, fn, ref):
        def r2(s):
            w = ref(s)
            return lambda got: isinstance(got, M.Base) and got.dt.char in wide[w.dt.char] and not s.cmp(got, w, dtype=False)
        s.case(props, where, lab, fn, r2)
    for p, q in pairs + [(b, a) for a, b in pairs]:
        lab = 'element types %s and %s' % (p, q)
        A = lambda s, sh, n='a': s.arr(n, sh, p); B = lambda s, sh, n='b': s.arr(n, sh, q)
        mcase(D, 'pywt.idwt', lab, lambda s: s.idwt(A(s, 4), B(s, 4), s.wobj(W4), 'zero'), lambda s: R.idwt(A(s, 4), B(s, 4), W4, 0))
        mcase(D, 'pywt.idwt', lab + ', 2-D', lambda s: s.idwt(A(s, SH), B(s, SH), s.wobj(W4), 'zero', 0), lambda s: R.idwt(A(s, SH), B(s, SH), W4, 0, 0))
        mcase(D, 'pywt.waverec', lab, lambda s: s.waverec([A(s, 4), B(s, 4), B(s, 6, 'e')], s.wobj(W4), 'zero'), lambda s: R.waverecn([A(s, 4), {'d': B(s, 4)}, {'d': B(s, 6, 'e')}], [W4], [0], (0,)))
        mcase(D, 'pywt.waverec', lab + ', later level', lambda s: s.waverec([A(s, 4), A(s, 4, 'h'), B(s, 6, 'e')], s.wobj(W4), 'zero'), lambda s: R.waverecn([A(s, 4), {'d': A(s, 4, 'h')}, {'d': B(s, 6, 'e')}], [W4], [0], (0,)))
        mcase(D, 'pywt.iswt', lab, lambda s: s.iswt([(A(s, 4), B(s, 4))], s.wobj(W4)), lambda s: R.iswtn([{'d': B(s, 4)}], [W4], (0,), A(s, 4)))
        mcase(D, 'pywt.iswt', lab + ', later level', lambda s: s.iswt([(A(s, 4), A(s, 4, 'h')), (A(s, 4, 'g'), B(s, 4))], s.wobj(W4)), lambda s: R.iswtn([{'d': A(s, 4, 'h')}, {'d': B(s, 4)}], [W4], (0,), A(s, 4)))
        for k in ('aa', 'ad', 'da', 'dd'):
            def mix(s):
                c = K2(s, p); c[k] = s.arr('c' + k, SH, q); return c
            tp = lambda c: (c['aa'], (c['da'], c['ad'], c['dd']))
            W22 = [W4, W4]
            mcase(D, 'pywt.idwtn', lab + ' (%s)' % k, lambda s: s.idwtn(mix(s), s.wobj(W4), 'zero'), lambda s: R.idwtn(mix(s), W22, [0, 0], (0, 1)))
            mcase(D, 'pywt.idwt2', lab + ' (%s)' % k, lambda s: s.idwt2(tp(mix(s)), s.wobj(W4), 'zero'), lambda s: R.idwtn(mix(s), W22, [0, 0], (0, 1)))
            def lst(s):
                c = mix(s); return [c.pop('aa'), c]
            mcase(D, 'pywt.waverecn', lab + ' (%s)' % k, lambda s: s.waverecn(lst(s), s.wobj(W4), 'zero'), lambda s: R.idwtn(mix(s), W22, [0, 0], (0, 1)))
            mcase(D, 'pywt.waverec2', lab + ' (%s)' % k, lambda s: s.waverec2((lambda c: [c['aa'], (c['da'], c['ad'], c['dd'])])(mix(s)), s.wobj(W4), 'zero'), lambda s: R.idwtn(mix(s), W22, [0, 0], (0, 1)))
            def mix4(s):
                c = K2(s, p, 'c', (4, 4)); c[k] = s.arr('c' + k, (4, 4), q); return c
            def iref(s):
                c = mix4(s); a = c.pop('aa'); return R.iswtn([c], W22, (0, 1), a)
            mcase(D, 'pywt.iswtn', lab + ' (%s)' % k, lambda s: s.iswtn([mix4(s)], s.wobj(W4)), iref)
            mcase(D, 'pywt.iswt2', lab + ' (%s)' % k, lambda s: s.iswt2([tp(mix4(s))], s.wobj(W4)), iref)


# ---------------------------------------------------------------- axes outside the data
def g_axes(s):
    A = ['A01']
    for name, (takes, f, ax) in E.items():
        for dt in ('f8', 'c16'):
            if 'axis' in takes:
                for bad in (2, -3, 3, -4, 7, -9, 1000, 2 ** 31, 2 ** 32, -2 ** 32, 2 ** 63):
                    s.case(A, name, 'axis %d of a 2-D array, %s' % (bad, dt), lambda s: f(s, dt, W4, 'zero', bad), raises=True)
            if 'axes' in takes and name != 'pywt.ravel_coeffs':
                for bad in ((0, 2), (2, 0), (-3, 0), (0, -3), (5, 1), (0, -1000), (0, 2 ** 32), (-1, 2)):
                    s.case(A, name, 'axes %s of a 2-D array, %s' % (bad, dt), lambda s: f(s, dt, W4, 'zero', bad), raises=True)
        if 'axis' in takes:
            for good, same_ in ((-1, 1), (-2, 0)):
                s.case(A, name, 'axis %d against %d' % (good, same_), lambda s: (f(s, 'f8', W4, 'zero', good), f(s, 'f8', W4, 'zero', same_)), lambda s: lambda got: same(s, got))
        if 'axes' in takes:
            for good, same_ in (((-1, 0), (1, 0)), ((0, -1), (0, 1)), ((-2, -1), (0, 1)), ((-1, -2), (1, 0))):
                s.case(A, name, 'axes %s against %s' % (good, same_), lambda s: (f(s, 'f8', W4, 'zero', good), f(s, 'f8', W4, 'zero', same_)), lambda s: lambda got: same(s, got))
    # an axis named twice: by one number, or by its two numbers
    for name, (takes, f, ax) in E.items():
        if 'axes' in takes and name.split('.')[1] not in ('dwt2', 'idwt2', 'dwtn', 'idwtn', 'ravel_coeffs', 'coeffs_to_array', 'array_to_coeffs', 'unravel_coeffs'):
            for bad in ((0, 0), (1, 1), (-1, -1), (0, -2), (-2, 0), (1, -1), (-1, 1)):
                s.case(A, name, 'axes %s of a 2-D array' % (bad,), lambda s: f(s, 'f8', W4, 'zero', bad), raises=True)
    for bad in ((0, 0), (0, -2), (-2, 0), (-1, 1)):
        s.case(A, 'pywt.wavedecn_shapes', 'axes %s of a 2-D array' % (bad,), lambda s: s.wavedecn_shapes((8, 8), s.wobj(W4), 'zero', 1, bad), raises=True)
        s.case(A, 'pywt.dwtn_max_level', 'axes %s of a 2-D array' % (bad,), lambda s: s.dwtn_max_level((8, 8), s.wobj(W4), bad), raises=True)
        for cls in ('WaveletPacket2D', 'WaveletPacketND'):
            s.case(A, 'pywt.' + cls, 'axes %s of a 2-D array' % (bad,), lambda s: getattr(s, cls)(s.arr('x', (8, 8)), s.wobj(W4), 'zero', axes=bad), raises=True)
    for bad in ((0, 1, -3), (-1, 0, 2), (1, 2, -2)):
        for nm in ('wavedecn', 'fswavedecn'):
            s.case(A, 'pywt.' + nm, 'axes %s of a 3-D array' % (bad,), lambda s: getattr(s, nm)(s.arr('x', (8, 8, 8)), s.wobj(W4), 'zero', axes=bad), raises=True)
        s.case(A, 'pywt.swtn', 'axes %s of a 3-D array' % (bad,), lambda s: s.swtn(s.arr('x', (8, 8, 8)), s.wobj(W4), 1, axes=bad), raises=True)
        s.case(A, 'pywt.WaveletPacketND', 'axes %s of a 3-D array' % (bad,), lambda s: s.WaveletPacketND(s.arr('x', (8, 8, 8)), s.wobj(W4), 'zero', axes=bad), raises=True)
    # one-dimensional and scalar data
    for bad in (1, -2, 5):
        for nm in ('dwt', 'wavedec'): s.case(A, 'pywt.' + nm, 'axis %d of a 1-D array' % bad, lambda s: getattr(s, nm)(s.arr('x', 8), s.wobj(W4), axis=bad), raises=True)
        for nm in ('swt',): s.case(A, 'pywt.' + nm, 'axis %d of a 1-D array' % bad, lambda s: s.swt(s.arr('x', 8), s.wobj(W4), axis=bad), raises=True)
        s.case(A, 'pywt.idwt', 'axis %d of a 1-D array' % bad, lambda s: s.idwt(s.arr('x', 8), None, s.wobj(W4), axis=bad), raises=True)
    for nm in ('dwt2', 'wavedec2', 'swt2', 'mra2'):
        s.case(A, 'pywt.' + nm, 'the data has one dimension', lambda s: getattr(s, nm)(s.arr('x', 8), s.wobj(W4)), raises=True)
    for nm in ('dwt2', 'wavedec2', 'swt2', 'mra2'):
        for bad in ((0,), (0, 1, 2), ()):
            s.case(A + ['O01'], 'pywt.' + nm, 'there are %d axes' % len(bad), lambda s: getattr(s, nm)(s.arr('x', (8, 8, 8)), s.wobj(W4), axes=bad), raises=True)


# ---------------------------------------------------------------- failing native calls
def g_faults(s):
    def faults(where, label, fn):
        if not s.mine(): return
        n = 0
        for c, r in s.paths(fn):
            if r[0] == 'unsup': s.rep.unsup.append('%s [%s]: %s' % (where, label, r[1])); return
            if r[0] == 'bug': s.rep.unsup.append('%s [%s]: analysis failure %r' % (where, label, r[1])); return
            n = max(n, c.ncalls)
        s.rep.n('native calls failed in turn', n)
        if not n: return
        for k in range(1, n + 1):
            s.rep.n('obligations')
            for c, r in s.paths(fn, fail=k):
                if r[0] == 'bug': s.rep.unsup.append('%s [%s]: analysis failure %r' % (where, label, r[1])); continue
                if r[0] == 'unsup': s.rep.unsup.append('%s [%s]: %s' % (where, label, r[1])); continue
                if r[0] == 'found':
                    s.bad(['C06'], r[1], where, 'after native call %d fails: %s (%s) [%s]' % (k, r[2], c.line(), label)); continue
                s.events(c, where, label)
                if r[0] == 'ok' and c.failed:
                    s.bad(['C06'], 'failure-ignored', c.failed.split(' (')[0] + ' in ' + c.failed.split('> ')[-1].rsplit(':', 1)[0].strip('()'), 'the call %s fails but %s returns normally [%s]' % (c.failed, where, label))
                elif c.failed: s.after(where, label + ', failing native call')
    for name in TRANSFORMS:
        takes, f, ax = E[name]
        for dt in ('f4', 'f8', 'c8', 'c16'):
            faults(name, dt, lambda s: f(s, dt, W4, 'symmetric', ax))
        faults(name, 'wavelet by name', lambda s: f(s, 'f8', 'db2', 'periodization', ax))
    for sh, ax in (((9,), 0), ((4, 5), 1)):
        for dt in ('f4', 'f8', 'c8', 'c16'):
            faults('pywt.dwt', 'shape %s %s' % (sh, dt), lambda s: s.dwt(s.arr('x', sh, dt), s.wobj(W4), axis=ax))
            for miss in ('', 'a', 'd'):
                faults('pywt.idwt', 'shape %s %s %s' % (sh, dt, miss), lambda s: s.idwt(None if miss == 'a' else s.arr('x', sh, dt), None if miss == 'd' else s.arr('y', sh, dt), s.wobj(W4), axis=ax))
    for dt in ('f4', 'f8', 'c8', 'c16'):
        for lev in (1, 2, 3):
            for trim in (False, True):
                faults('pywt.swt', 'level %d %s' % (lev, dt), lambda s: s.swt(s.arr('x', 8, dt), s.wobj(W4), lev, trim_approx=trim))
                faults('pywt.swt', 'level %d %s, 2-D' % (lev, dt), lambda s: s.swt(s.arr('x', (8, 2), dt), s.wobj(W4), lev, axis=0, trim_approx=trim))
        for part in 'ad':
            for lev in (1, 2):
                faults('pywt.downcoef', 'part %s level %d %s' % (part, lev, dt), lambda s: s.downcoef(part, s.arr('x', 8, dt), s.wobj(W4), 'zero', lev))
                faults('pywt.upcoef', 'part %s level %d %s' % (part, lev, dt), lambda s: s.upcoef(part, s.arr('x', 8, dt), s.wobj(W4), lev))
    faults('pywt.Wavelet', 'built-in', lambda s: s.Wavelet('db2'))
    faults('pywt.Wavelet', 'filter bank', lambda s: s.Wavelet('x', [[.5, .5]] * 4))
    faults('pywt.ContinuousWavelet', 'built-in', lambda s: s.ContinuousWavelet('morl'))
    faults('pywt.ContinuousWavelet', 'parameters', lambda s: s.ContinuousWavelet('cmor1.5-1.0'))
    faults('pywt.DiscreteContinuousWavelet', 'discrete', lambda s: s.DiscreteContinuousWavelet('db2'))
    faults('pywt.DiscreteContinuousWavelet', 'continuous', lambda s: s.DiscreteContinuousWavelet('gaus2'))
    for n in ('db2', 'bior2.2'): faults('pywt.Wavelet.wavefun', n, lambda s: s.Wavelet(n).wavefun(2))
    faults('pywt.cwt', 'wavelet by name', lambda s: s.cwt(s.arr('x', 8), [1, 2], 'morl'))


# ---------------------------------------------------------------- filter banks of odd length, mismatched coefficients
def g_odd(s):
    # odd filters are padded to even length
    W3 = [[.1, .2, .3], [.3, -.2, .1], [.5, .2, .1], [-.1, .4, .2]]; W3p = R.Wav(*[f + [0.] for f in W3], 'w3')
    for dt in ('f8', 'c8'):
        s.case(['C09', 'S01'], 'pywt.dwt', 'three filter taps, ' + dt, lambda s: s.dwt(s.arr('x', 5, dt), s.Wavelet('x', W3), 'zero'), lambda s: R.dwt(s.arr('x', 5, dt), W3p, 0))
        s.case(['C09', 'S01'], 'pywt.idwt', 'three filter taps, ' + dt, lambda s: s.idwt(s.arr('x', 5, dt), s.arr('y', 5, dt), s.Wavelet('x', W3), 'zero'), lambda s: R.idwt(s.arr('x', 5, dt), s.arr('y', 5, dt), W3p, 0))
        s.case(['C06'], 'pywt.idwt', 'the coefficient counts differ, ' + dt, lambda s: s.idwt(s.arr('x', 4, dt), s.arr('y', 5, dt), s.wobj(W4)), raises=True)
        s.case(['C06'], 'pywt.idwt', 'the coefficient shapes differ, ' + dt, lambda s: s.idwt(s.arr('x', (4, 3), dt), s.arr('y', (4, 4), dt), s.wobj(W4), axis=0), raises=True)
        s.case(['C06'], 'pywt.idwt', 'there are no coefficients', lambda s: s.idwt(None, None, s.wobj(W4)), raises=True)
    # a single sample has no reflection: refused along every transformed axis, whatever the others are
    one = [('pywt.dwt', (1,), lambda s, x, m: s.dwt(x, s.wobj(W4), m)), ('pywt.dwt', (1, 5), lambda s, x, m: s.dwt(x, s.wobj(W4), m, axis=0)), ('pywt.dwt', (5, 1), lambda s, x, m: s.dwt(x, s.wobj(W4), m)), ('pywt.dwt', (3, 1, 2), lambda s, x, m: s.dwt(x, s.wobj(W4), m, axis=-2)),
           ('pywt.downcoef', (1,), lambda s, x, m: s.downcoef('a', x, s.wobj(W4), m)), ('pywt.downcoef', (1,), lambda s, x, m: s.downcoef('d', x, s.wobj(W4), m)), ('pywt.downcoef', (2,), lambda s, x, m: s.downcoef('d', x, s.wobj(W2), m, 2)),
           ('pywt.dwt2', (1, 4), lambda s, x, m: s.dwt2(x, s.wobj(W4), m)), ('pywt.dwt2', (4, 1), lambda s, x, m: s.dwt2(x, s.wobj(W4), ('zero', m))), ('pywt.dwtn', (2, 1, 3), lambda s, x, m: s.dwtn(x, s.wobj(W4), m)), ('pywt.dwtn', (2, 1, 3), lambda s, x, m: s.dwtn(x, s.wobj(W4), (m, 'zero'), axes=(1, 0))),
           ('pywt.wavedec', (2,), lambda s, x, m: s.wavedec(x, s.wobj(W2), m, 2)), ('pywt.wavedec', (4, 2), lambda s, x, m: s.wavedec(x, s.wobj(W2), m, 2, axis=1)), ('pywt.wavedec2', (4, 1), lambda s, x, m: s.wavedec2(x, s.wobj(W2), m, 1)), ('pywt.wavedecn', (1, 4), lambda s, x, m: s.wavedecn(x, s.wobj(W2), m, 1)),
           ('pywt.fswavedec', (4, 1), lambda s, x, m: s.fswavedec(x, s.wobj(W2), m, 1)), ('pywt.mra', (2,), lambda s, x, m: s.mra(x, s.wobj(W2), 2, mode=m, transform='dwt')), ('pywt.mra2', (4, 1), lambda s, x, m: s.mra2(x, s.wobj(W2), 1, mode=m, transform='dwt2')),
           ('pywt.WaveletPacket', (1,), lambda s, x, m: s.WaveletPacket(x, s.wobj(W2), m, 1)['a'].data), ('pywt.WaveletPacket', (3, 1), lambda s, x, m: s.WaveletPacket(x, s.wobj(W2), m, 1, 1)['d'].data), ('pywt.WaveletPacket2D', (1, 4), lambda s, x, m: s.WaveletPacket2D(x, s.wobj(W2), m, 1)['h'].data), ('pywt.WaveletPacketND', (4, 1), lambda s, x, m: s.WaveletPacketND(x, s.wobj(W2), m, 1)['ad'].data)]
    for nm, sh, f in one:
        for m in ('reflect', 'antireflect'):
            for dt in ('f8', 'c8') if len(sh) < 3 else ('f8',):
                s.case(['C02'], nm, 'a single sample is to be extended by %s, shape %s, %s' % (m, sh, dt), lambda s: f(s, s.arr('x', sh, dt), m), raises=True)


GROUPS3 = {'modes': g_modes, 'options': g_options, 'dtypes': g_dtypes, 'axes': g_axes, 'faults': g_faults, 'odd': g_odd}
