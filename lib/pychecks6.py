"""Obligations on wavelet objects, copies, the continuous transform, and on what
one call leaves behind for the next."""
import itertools, math, re, types
import numpy as np
import npmodel as M
import terms as T
import pyspec as R
import pyinterp as P
import wavtab
from spec import MODES
from npmodel import Arr, from_conc
from pychecks import W2, W4, W6, MODE
from pysuite import modstate
from pychecks3 import E, NAMES, FAMILIES, fam, wv, TRANSFORMS

DISC = FAMILIES[:7]
SYM = {'haar': 'asymmetric', 'db': 'asymmetric', 'sym': 'near symmetric', 'coif': 'near symmetric', 'bior': 'symmetric', 'rbio': 'symmetric', 'dmey': 'symmetric'}
f32 = lambda v: float(np.float32(v))


def spec_of(name):
    m = re.match(r'([a-z]+)(\d*)(?:\.(\d))?$', name)
    return wavtab.discrete_specs()[m.group(1).upper(), int(m.group(2) + (m.group(3) or '') or 0)], int(m.group(2) + (m.group(3) or '') or 0)


# ---------------------------------------------------------------- discrete wavelets
def attrs(w):
    return dict(name=w.name, length=len(w), dec_len=int(w.dec_len), rec_len=int(w.rec_len), family=w.family_name, short=w.short_family_name, number=None if w.family_number is None else int(w.family_number),
                orthogonal=bool(w.orthogonal), biorthogonal=bool(w.biorthogonal), symmetry=w.symmetry, psi=w.vanishing_moments_psi, phi=w.vanishing_moments_phi)


def filters(w): return dict(dec_lo=list(w.dec_lo), dec_hi=list(w.dec_hi), rec_lo=list(w.rec_lo), rec_hi=list(w.rec_hi), filter_bank=tuple(list(f) for f in w.filter_bank), inverse_filter_bank=tuple(list(f) for f in w.inverse_filter_bank))


def wantfilters(f):
    lo, hi, rlo, rhi = (list(map(float, f[k])) for k in ('dec_lo', 'dec_hi', 'rec_lo', 'rec_hi'))
    return dict(dec_lo=lo, dec_hi=hi, rec_lo=rlo, rec_hi=rhi, filter_bank=(lo, hi, rlo, rhi), inverse_filter_bank=(rlo[::-1], rhi[::-1], lo[::-1], hi[::-1]))


def clone(o):
    """what copy and pickle build"""
    for n in ('__deepcopy__', '__copy__'):
        f = getattr(type(o), n, None)
        if f is not None: return f(o, {}) if n == '__deepcopy__' else f(o)
    r = o.__reduce_ex__(2) if not isinstance(getattr(type(o), '%cattrs', None), dict) else o.__reduce__()
    cls, args = r[0], r[1]
    q = cls(*[clone(a) if hasattr(type(a), '%cattrs') else a for a in args])
    if len(r) > 2 and r[2] is not None:
        if hasattr(q, '__setstate__'): q.__setstate__(r[2])
        elif isinstance(r[2], dict): q.__dict__.update({k: clone(v) if hasattr(type(v), '%cattrs') else v for k, v in r[2].items()})
    return q


def g_objects(s):
    A = {}
    for n in NAMES(s):
        if fam(n) not in DISC: continue
        d, num = spec_of(n)
        want = dict(name=n, length=d['len'], dec_len=d['len'], rec_len=d['len'], family=d['fam'], short=d['short'], number=num, orthogonal=bool(d['orth']), biorthogonal=bool(d['bior']), symmetry=SYM[fam(n)] if n not in ('sym2', 'sym3') else None, psi=d['psi'], phi=d['phi'])
        def got(s, o):
            a = attrs(o)
            if n in ('sym2', 'sym3'): a['symmetry'] = None
            return a
        s.case(['W01', 'W03'], 'pywt.Wavelet', n, lambda s: got(s, s.Wavelet(n)), lambda s: want)
        s.case(['C09', 'W01'], 'pywt.Wavelet', 'filters of ' + n, lambda s: filters(s.Wavelet(n)), lambda s: wantfilters(R.named(n).f))
        s.case(['W01'], 'pywt.Wavelet', n.upper(), lambda s: (lambda o: (o.name, list(o.dec_lo)))(s.Wavelet(n.upper())), lambda s: (n, list(map(float, R.named(n).f['dec_lo']))))
        s.case(['W01'], 'pywt.DiscreteContinuousWavelet', n, lambda s: (lambda o: (o.name, isinstance(o, s.Wavelet), list(o.rec_hi)))(s.DiscreteContinuousWavelet(n)), lambda s: (n, True, list(map(float, R.named(n).f['rec_hi']))))
        s.case(['W01', 'O01'], 'pywt.ContinuousWavelet', 'the wavelet %s is discrete' % n, lambda s: s.ContinuousWavelet(n), raises=True, exc=ValueError)
        s.case(['S01'], 'pywt.Wavelet', 'copy of ' + n, lambda s: (lambda q: (type(q) is s.Wavelet, attrs(q), filters(q)))(clone(s.Wavelet(n))), lambda s: (lambda q: (True, attrs(q), filters(q)))(s.Wavelet(n)))
    bad = ['db0', 'db39', 'db', 'db-1', 'db1.0', 'db 2', ' db2', 'db2 ', 'db02', 'db2.5', 'sym0', 'sym1', 'sym21', 'coif0', 'coif18', 'bior0.0', 'bior1.2', 'bior1.7', 'bior2.3', 'bior3.2', 'bior3.11', 'bior4.2', 'bior5.6', 'bior6.6', 'bior1', 'bior11', 'bior', 'rbio1.2',
           'rbio6.6', 'rbio4.6', 'haar1', 'haar2', 'dmey1', 'dmey0', 'foo', 'daubechies', 'sym', 'coif', 'gaus', 'gaus0', 'gaus9', 'cgau0', 'cgau9', 'mexh1', 'morl2', 'morlet', 'cmor1', 'cmor1.5', 'cmor1-2-3', 'cmor-1-1', 'cmor.5', 'cmora-b', 'cmor1.5-1.0x', 'cmorx1-2', 'cmor1--2', 'shan1',
           'shan1-', 'shan-1', 'shan1-2-3', 'fbsp1', 'fbsp1-1', 'fbsp0-1-1', 'fbsp1.5-1-1', 'fbsp1-1-1-1', 'fbsp-1-1-1', 'shannon', 'cmord', 'fbspline', '\u2460']
    for n in bad:
        for cls in ('Wavelet', 'DiscreteContinuousWavelet', 'ContinuousWavelet'):
            s.case(['W01', 'O01'], 'pywt.' + cls, 'the name is %r' % n, lambda s: getattr(s, cls)(n), raises=True, exc=ValueError)
    for n in NAMES(s):
        if fam(n) not in DISC: s.case(['W01', 'O01'], 'pywt.Wavelet', 'the wavelet %s is continuous' % n, lambda s: s.Wavelet(n), raises=True, exc=ValueError)
    for cls in ('Wavelet', 'DiscreteContinuousWavelet'):
        s.case(['W01', 'O01'], 'pywt.' + cls, 'there is no name', lambda s: getattr(s, cls)(), raises=True)
        s.case(['W01', 'O01'], 'pywt.' + cls, 'the name is empty', lambda s: getattr(s, cls)(''), raises=True)
    for a in FAMILIES:
        s.case(['W01'], 'pywt.wavelist', 'families of the names of ' + a, lambda s: sorted({s.DiscreteContinuousWavelet(n).short_family_name for n in s.wavelist(a)}), lambda s: [a])
        s.case(['W01'], 'pywt.families', 'long name of ' + a, lambda s: (s.DiscreteContinuousWavelet(s.wavelist(a)[-1]).family_name, s.families(short=False)[s.families().index(a)]), lambda s: (lambda L: (L, L))(longname(a)))
    # custom filter banks
    for L in (2, 4, 6, 10, 3, 5, 1):
        fb = [[round(math.sin(3.1 * k + 7 * i) + .1 * i, 6) for k in range(L)] for i in range(4)]
        z = L % 2
        pad = lambda q: q        # lengths are kept, odd banks get a zero tap
        names = ('dec_lo', 'dec_hi', 'rec_lo', 'rec_hi')
        def want(s, nm):
            n = L + z; F = dict(zip(names, [f + [0.0] * z for f in fb]))
            return dict(name=nm, length=n, dec_len=n, rec_len=n, family='', short='', number=None, orthogonal=False, biorthogonal=False, symmetry='unknown', psi=0, phi=0), wantfilters(F)
        srcs = [('lists', lambda s: [list(f) for f in fb]), ('tuples', lambda s: tuple(tuple(f) for f in fb)), ('arrays', lambda s: [from_conc(np.array(f)) for f in fb]), ('single-precision arrays', lambda s: [from_conc(np.array(f, np.float32)) for f in fb]),
                ('an object with filters', lambda s: s.Wavelet('src', [list(f) for f in fb]))]
        for lab, src in srcs:
            tol = s.tol
            fw = (lambda s: want(s, 'mine')) if lab[0] != 's' else None
            s.case(['C09', 'W01'], 'pywt.Wavelet', 'custom bank of %d taps from %s' % (L, lab), lambda s: (lambda o: (lambda a: ({k: v for k, v in a.items() if k in ('name', 'length', 'dec_len', 'rec_len', 'number', 'orthogonal', 'biorthogonal')}, filters(o)))(attrs(o)))(s.Wavelet('mine', filter_bank=src(s))),
                   (lambda s: (lambda a, f: ({k: v for k, v in a.items() if k in ('name', 'length', 'dec_len', 'rec_len', 'number', 'orthogonal', 'biorthogonal')}, f))(*want(s, 'mine'))) if fw else (lambda s: callable_ok))
        for orth, bi in ((True, True), (False, True), (True, False), (False, False)):
            def mk(s):
                o = s.Wavelet('mine', [list(f) for f in fb]); o.orthogonal = orth; o.biorthogonal = bi; return o
            s.case(['S01'], 'pywt.Wavelet', 'copy of a custom bank of %d taps, orthogonal %s, biorthogonal %s' % (L, orth, bi), lambda s: (lambda q: (type(q) is s.Wavelet, attrs(q), filters(q)))(clone(mk(s))), lambda s: (lambda q: (True, dict(attrs(q), orthogonal=orth, biorthogonal=bi), filters(q)))(mk(s)))
    for n in ('db2', 'bior2.2', 'sym5'):
        for orth, bi in ((True, False), (False, True), (False, False), (True, True)):
            def mk(s):
                o = s.Wavelet(n); o.orthogonal = orth; o.biorthogonal = bi; return o
            s.case(['S01'], 'pywt.Wavelet', 'copy of %s after setting orthogonal %s, biorthogonal %s' % (n, orth, bi), lambda s: (lambda q: (attrs(q), filters(q)))(clone(mk(s))), lambda s: (lambda q: (dict(attrs(q), orthogonal=orth, biorthogonal=bi), filters(q)))(mk(s)))
        s.case(['C08'], 'pywt.Wavelet', 'setting attributes of one %s' % n, lambda s: (lambda o, q: (setattr(o, 'orthogonal', False), setattr(o, 'biorthogonal', False), o.dec_lo.append(3.0), o.filter_bank[1].reverse(), attrs(q), filters(q), attrs(s.Wavelet(n)), filters(o)))(s.Wavelet(n), s.Wavelet(n))[4:],
               lambda s: (lambda q: (attrs(q), filters(q), attrs(q), filters(q)))(s.Wavelet(n)))
    for lab, src in [('three filters', lambda s: [[1., 2.]] * 3), ('five filters', lambda s: [[1., 2.]] * 5), ('no filters', lambda s: []), ('filters of different length', lambda s: [[1., 2.], [1., 2.], [1., 2.], [1., 2., 3.]]), ('a longer second filter', lambda s: [[1., 2.], [1., 2., 3., 4.], [1., 2.], [1., 2.]]),
                     ('a longer third filter', lambda s: [[1., 2.], [1., 2.], [1., 2., 3.], [1., 2.]]), ('empty filters', lambda s: [[]] * 4), ('one empty filter', lambda s: [[1., 2.], [1., 2.], [], [1., 2.]]), ('scalar filters', lambda s: [1., 2., 3., 4.]),
                     ('a two-dimensional filter', lambda s: [[[1., 2.]], [1., 2.], [1., 2.], [1., 2.]]), ('two-dimensional filters', lambda s: [[[1., 2.]]] * 4), ('text', lambda s: ['ab', 'cd', 'ef', 'gh'])]:
        s.case(['O01', 'C01'], 'pywt.Wavelet', 'the bank has ' + lab, lambda s: s.Wavelet('mine', src(s)), raises=True)
        if lab not in ('text',): s.case(['O01', 'C01'], 'pywt.Wavelet', 'the bank has %s (arrays)' % lab, lambda s: s.Wavelet('mine', [M.np_asarray(f) if isinstance(f, list) else f for f in src(s)]), raises=True)
    for i in range(4):
        for lab, f in (('a column', [[1.], [2.]]), ('a row', [[1., 2.]]), ('a square', [[1., 2.], [3., 4.]])):
            s.case(['O01', 'C01'], 'pywt.Wavelet', 'filter %d of the bank is %s' % (i, lab), lambda s: s.Wavelet('mine', [f if j == i else [1., 2.] for j in range(4)]), raises=True, exc=ValueError)
    for n in (3, 4, 5):
        for lab, duck in (('a filter_bank attribute', lambda: types.SimpleNamespace(filter_bank=[[1., 2.]] * n)), ('get_filters_coeffs', lambda: types.SimpleNamespace(get_filters_coeffs=lambda: [[1., 2.]] * n))):
            if n != 4: s.case(['O01', 'C01'], 'pywt.Wavelet', 'the bank is an object with %s of %d filters' % (lab, n), lambda s: s.Wavelet('mine', duck()), raises=True)
            else: s.case(['C09', 'W01'], 'pywt.Wavelet', 'the bank is an object with ' + lab, lambda s: filters(s.Wavelet('mine', duck())), lambda s: wantfilters(dict.fromkeys(('dec_lo', 'dec_hi', 'rec_lo', 'rec_hi'), [1., 2.])))
    s.case(['O01', 'D01'], 'pywt.Wavelet', 'the filters are complex', lambda s: s.Wavelet('mine', [[1j, 2.]] * 4), raises=True)
    # deprecated spellings
    for n in ('db2', 'bior1.3'):
        s.case(['F01', 'C09'], 'pywt.Wavelet.get_filters_coeffs', n, lambda s: tuple(list(f) for f in s.Wavelet(n).get_filters_coeffs()), lambda s: wantfilters(R.named(n).f)['filter_bank'])
        s.case(['F01', 'C09'], 'pywt.Wavelet.get_reverse_filters_coeffs', n, lambda s: tuple(list(f) for f in s.Wavelet(n).get_reverse_filters_coeffs()), lambda s: wantfilters(R.named(n).f)['inverse_filter_bank'])
    # filter helpers
    for L in (2, 4, 5, 6):
        h = [round(math.cos(2.3 * k + 1) + 1.5, 5) for k in range(L)]
        q = [(-1) ** k * h[::-1][k] for k in range(L)]
        for lab, v in (('list', lambda: list(h)), ('array', lambda: from_conc(np.array(h))), ('tuple', lambda: tuple(h))):
            s.case(['C09', 'I01'], 'pywt.qmf', '%d taps as %s' % (L, lab), lambda s: s.qmf(s.own(v())), lambda s: from_conc(np.array(q)))
            if L % 2: s.case(['O01'], 'pywt.orthogonal_filter_bank', 'the filter has %d taps' % L, lambda s: s.orthogonal_filter_bank(v()), raises=True)
            else:
                r = np.array(h) * math.sqrt(2) / sum(h); rq = np.array([(-1) ** k * r[::-1][k] for k in range(L)])
                for fn in ('orthogonal_filter_bank', 'orthfilt'):
                    s.case(['C09', 'F01'], 'pywt.' + fn, '%d taps as %s' % (L, lab), lambda s: getattr(s, fn)(s.own(v())), lambda s: tuple(from_conc(x.copy()) for x in (r[::-1], rq[::-1], r, rq)))
    # sampled scaling and wavelet functions
    def cascade(W, part, level, n, sign=1.0):
        e = T.Env(1); c = 2 ** (level / 2) * sign
        x = R.upcoef(part, Arr(np.array([float(T.const(c))]), np.dtype('f8')), W, level)
        v = [e(int(i)) for i in x.ids()]
        return from_conc(np.concatenate(([0.0], v, np.zeros(n - 1 - len(v)))))
    def grid(F, level, orth):
        n = (F - 1) * 2 ** level + (1 if orth else 0)
        return max(n, (F - 1) * (2 ** level - 1) + 3)
    inv = lambda W: R.Wav(list(W.f['rec_lo'])[::-1], list(W.f['rec_hi'])[::-1], list(W.f['dec_lo'])[::-1], list(W.f['dec_hi'])[::-1], W.name + 'inv')
    KEY = ('haar', 'db2', 'db7', 'sym4', 'coif1', 'bior1.3', 'bior2.2', 'bior3.1', 'bior4.4', 'bior5.5', 'rbio1.3', 'rbio2.4', 'rbio6.8', 'rbio5.5')
    for n in NAMES(s):
        if fam(n) not in DISC: continue
        for lev in (1, 2, 3, 4, 5) if s.thorough and n != 'dmey' else (1, 2, 3) if n in KEY else (2,) if n != 'dmey' else (1,):
            d, num = spec_of(n); orth = bool(d['orth'])
            def want(s):
                W = R.named(n); m = grid(W.F, lev, orth)
                x = from_conc(np.linspace(0.0, (m - 1) / 2.0 ** lev, m))
                if orth: return [cascade(W, 'a', lev, m), cascade(W, 'd', lev, m), x]
                sg = 1.0 if d['psi'] % 4 == 1 else -1.0; V = inv(W)
                return [cascade(V, 'a', lev, m), cascade(V, 'd', lev, m, sg), cascade(W, 'a', lev, m), cascade(W, 'd', lev, m, sg), x]
            s.case(['C09', 'F01'], 'pywt.Wavelet.wavefun', '%s, level %d' % (n, lev), lambda s: list(s.Wavelet(n).wavefun(lev)), want)
            def iw(s):
                r = want(s); x = r[-1].conc(); st = x[1] - x[0]
                cs = lambda y: from_conc(np.cumsum(y.conc()) * st)
                return (cs(r[1]), r[2]) if orth else (cs(r[1]), cs(r[3]), r[4])
            s.case(['F01', 'C09'], 'pywt.integrate_wavelet', '%s, precision %d' % (n, lev), lambda s: tuple(s.integrate_wavelet(n, lev)), iw)
            if lev == 2:
                s.case(['F01', 'C09'], 'pywt.integrate_wavelet', '%s as object' % n, lambda s: tuple(s.integrate_wavelet(s.Wavelet(n), precision=lev)), iw)
                s.case(['F01', 'C09'], 'pywt.intwave', n, lambda s: tuple(s.intwave(n, lev)), iw)
            def cf(s):
                r = want(s); return centre(r[1].conc(), r[-1].conc())
            s.case(['F01', 'C09'], 'pywt.central_frequency', '%s, precision %d' % (n, lev), lambda s: num_(s.central_frequency(n, lev)), cf)
            if lev == 3:
                s.case(['F01'], 'pywt.centrfrq', n, lambda s: num_(s.centrfrq(s.Wavelet(n), lev)), cf)
                for q in ('scale2frequency', 'scal2frq'): s.case(['F01'], 'pywt.' + q, n, lambda s: num_(getattr(s, q)(n, 4.0, lev)), lambda s: cf(s) / 4.0)
                s.case(['F01'], 'pywt.frequency2scale', n, lambda s: num_(s.frequency2scale(n, 0.3, lev)), lambda s: cf(s) / 0.3)
    for L in (2, 4, 6, 3):
        fb = [[round(math.sin(3.1 * k + 7 * i) + .1 * i, 6) for k in range(L)] for i in range(4)]
        Wc = R.Wav(*[f + [0.0] * (L % 2) for f in fb], 'mine')
        for orth, bi in ((False, False), (True, True), (False, True), (True, False)):
            for lev in (1, 2, 3):
                def mk(s):
                    o = s.Wavelet('mine', [list(f) for f in fb]); o.orthogonal = orth; o.biorthogonal = bi; return o
                def want(s):
                    m = grid(Wc.F, lev, orth); x = from_conc(np.linspace(0.0, (m - 1) / 2.0 ** lev, m))
                    if orth: return [cascade(Wc, 'a', lev, m), cascade(Wc, 'd', lev, m), x]
                    sg = -1.0 if bi else 1.0; V = inv(Wc)
                    return [cascade(V, 'a', lev, m), cascade(V, 'd', lev, m, sg), cascade(Wc, 'a', lev, m), cascade(Wc, 'd', lev, m, sg), x]
                def iw(s):
                    r = want(s); x = r[-1].conc(); st = x[1] - x[0]
                    cs = lambda y: from_conc(np.cumsum(y.conc()) * st)
                    return (cs(r[1]), r[2]) if orth else (cs(r[1]), cs(r[3]), r[4])
                lab = 'custom bank of %d taps, orthogonal %s, biorthogonal %s, level %d' % (L, orth, bi, lev)
                s.case(['F01'], 'pywt.Wavelet.wavefun', lab, lambda s: list(mk(s).wavefun(lev)), want)
                s.case(['F01'], 'pywt.integrate_wavelet', lab, lambda s: tuple(s.integrate_wavelet(mk(s), lev)), iw)
                s.case(['F01'], 'pywt.central_frequency', lab, lambda s: num_(s.central_frequency(mk(s), lev)), lambda s: (lambda r: centre(r[1].conc(), r[-1].conc()))(want(s)))
    for n in ('haar', 'db3', 'bior2.2'):
        for lev in (0, -1, -7):
            s.case(['O01'], 'pywt.Wavelet.wavefun', 'the level is %d for %s' % (lev, n), lambda s: s.Wavelet(n).wavefun(lev), raises=True, exc=ValueError)
            for q in ('integrate_wavelet', 'central_frequency'): s.case(['O01'], 'pywt.' + q, 'the precision is %d for %s' % (lev, n), lambda s: getattr(s, q)(n, lev), raises=True, exc=ValueError)
        for q in ('scale2frequency', 'frequency2scale'):
            for arg in (0.25, 1, 7): s.case(['F01'], 'pywt.' + q, '%s of %r' % (n, arg), lambda s: num_(getattr(s, q)(n, arg, precision=2)), lambda s: num_(s.central_frequency(n, 2)) / arg)
            v = np.array([0.5, 1.0, 4.0]); s.case(['F01'], 'pywt.' + q, '%s of an array' % n, lambda s: getattr(s, q)(n, s.own(from_conc(v)), precision=2), lambda s: from_conc(num_(s.central_frequency(n, 2)) / v))
    for q in ('integrate_wavelet', 'central_frequency', 'scale2frequency', 'frequency2scale'):
        for bad in ('foo', '', 'db0', 'cmor1-2-3', 3, None): s.case(['O01'], 'pywt.' + q, 'the wavelet is %r' % (bad,), lambda s: getattr(s, q)(bad, *([2.0] if '2' in q else [])), raises=True)
    for mkp in (list, tuple):
        x = np.array([1.0, 1.5, 2.0, 2.5, 3.0])
        def cum(s):
            y = s.arr('y', 5).ids(); out = []; a = T.ZERO
            for i in y: a = T.add(a, int(i)); out.append(T.scale(a, 0.5))
            return Arr(np.array(out, float), np.dtype('f8'))
        s.case(['F01'], 'pywt.integrate_wavelet', 'a sampled signal as ' + mkp.__name__, lambda s: tuple(s.integrate_wavelet(s.own(mkp([s.arr('y', 5), from_conc(x.copy())])))), lambda s: (cum(s), from_conc(x.copy())))
    for arr in ('arrays', 'lists', 'tuples'):
        h = [0.3, -1.2, 2.5, 0.9]; q = [0.9, -2.5, -1.2, -0.3]
        r = np.array(h) * math.sqrt(2) / sum(h); rq = r[::-1] * np.array([1, -1, 1, -1])
        # the bank of a scaling filter makes a wavelet
        s.case(['C09'], 'pywt.orthogonal_filter_bank', 'used as filter bank, from ' + arr, lambda s: filters(s.Wavelet('m', s.orthogonal_filter_bank({'arrays': lambda: from_conc(np.array(h)), 'lists': lambda: list(h), 'tuples': lambda: tuple(h)}[arr]()))), lambda s: wantfilters(dict(dec_lo=r[::-1], dec_hi=rq[::-1], rec_lo=r, rec_hi=rq)))
        for sc in (0.01, 100.0): s.case(['C09'], 'pywt.orthogonal_filter_bank', 'the scale of the filter does not matter, %g, %s' % (sc, arr), lambda s: s.orthogonal_filter_bank(from_conc(np.array(h) * sc)), lambda s: tuple(from_conc(z.copy()) for z in (r[::-1], rq[::-1], r, rq)))
    for dt in ('f4', 'i4', 'c16'):
        v = np.array([1, -2, 3, 5]).astype(dt) * (1j if dt == 'c16' else 1)
        s.case(['C09', 'D01'], 'pywt.qmf', 'element type ' + dt, lambda s: s.qmf(s.own(from_conc(v.copy()))), lambda s: from_conc((v[::-1] * np.array([1, -1, 1, -1])).astype(dt)))
    s.case(['F01', 'C09'], 'pywt.Wavelet.wavefun', 'default level', lambda s: len(s.Wavelet('haar').wavefun()[2]), lambda s: 258)
    s.case(['F01'], 'pywt.integrate_wavelet', 'default precision', lambda s: len(s.integrate_wavelet('haar')[1]), lambda s: 258)
    # life of the native structure
    def life(label, make):
        def run(s):
            W = s.W; C = M.C
            made = []
            sk = W.sinks; old = sk.build
            def build(*a):
                r = old(*a)
                if getattr(getattr(r, 'd', None), 'name', '') in ('DiscreteWavelet', 'ContinuousWavelet'): made.append(r)
                return r
            sk.build = build
            objs = make(s)
            for o in objs:
                f = getattr(type(o), '%dealloc', None)
                if f is not None: W.call_func(f, (o,), {})
            left = [x.d.name for x in made if not x.freed]
            for o in objs:
                f = getattr(type(o), '%dealloc', None)
                if f is not None: W.call_func(f, (o,), {})
            return left
        s.case(['C07'], label.split(',')[0], label, run, lambda s: [])
    def bare(s, cls, *a):
        o = cls.__new__(cls)
        try: o.__init__(*a)
        except Exception as e:
            if not getattr(e, '_prog', False): raise
        return o
    for n in ('db2', 'bior1.3', 'dmey'): life('pywt.Wavelet, ' + n, lambda s: [s.Wavelet(n)])
    for n in ('mexh', 'cmor1.5-1.0', 'fbsp2-1-0.5', 'gaus3'): life('pywt.ContinuousWavelet, ' + n, lambda s: [s.ContinuousWavelet(n)])
    life('pywt.Wavelet, custom', lambda s: [s.Wavelet('m', [[1., 2.]] * 4)])
    for n in ('cmor1', 'fbsp0-1-1', 'fbsp1.5-1-1', 'shan1-2-3', 'gaus9', 'db2'): life('pywt.ContinuousWavelet, refused name ' + n, lambda s: [bare(s, s.ContinuousWavelet, n)])
    for n in ('gaus1', 'db39', 'cmor1-1'): life('pywt.Wavelet, refused name ' + n, lambda s: [bare(s, s.Wavelet, n)])
    for lab, fb in (('three filters', [[1., 2.]] * 3), ('unequal filters', [[1., 2.], [1., 2.], [1., 2.], [1.]]), ('text', ['ab'] * 4), ('nested', [[[1.]]] * 4)): life('pywt.Wavelet, refused bank: ' + lab, lambda s: [bare(s, s.Wavelet, 'm', fb)])


def num_(v): return float(v.conc().item()) if isinstance(v, M.Base) else float(v)


def callable_ok(v): return True


def longname(short):
    for t in wavtab.discrete_specs().values():
        if t['short'] == short: return t['fam']
    for v in wavtab.CONT.values():
        if v[2] == short: return v[1]


def centre(psi, x):
    k = int(np.argmax(abs(np.fft.fft(psi)[1:]))) + 2
    if k > len(psi) / 2: k = len(psi) - k + 2
    return float((k - 1) / (x[-1] - x[0]))


# ---------------------------------------------------------------- continuous wavelets
PARAM = {'cmor': ['cmor1.5-1.0', 'cmor0.25-2', 'cmor.5-1.', 'CMOR3-0.7'], 'shan': ['shan1.5-1.0', 'shan0.3-2', 'shan2-.5'], 'fbsp': ['fbsp1-1.5-1.0', 'fbsp3-0.5-2', 'fbsp2-0.7-.3', 'fbsp4.0-1-1']}


class CW:
    """what a continuous wavelet name denotes"""
    def __init__(self, name):
        self.name = name.lower(); f = fam(self.name); self.f = f
        orders, self.long, self.short, self.cx, (lo, hi) = wavtab.CONT[f.upper()]
        self.lo, self.hi = float(lo), float(hi)
        self.order = int(self.name[len(f):]) if f in ('gaus', 'cgau') else 0
        self.B, self.C, self.M = wavtab.CONT_DEFAULT.get(f.upper(), (0.0, 0.0, 0))
        p = self.name[4:].split('-') if f in wavtab_par and len(self.name) > 4 else None
        if p and f == 'fbsp': self.M, p = int(float(p[0])), p[1:]
        if p: self.B, self.C = f32(p[0]), f32(p[1])

    def psi(self, x):
        o = self.order or self.M
        v = np.array([wavtab.reference(self.f.upper(), o, float(t), self.B, self.C, o) for t in x])
        return v if self.cx else v.real

    def fun(self, n, dt='f8', lo=None, hi=None):
        x = np.linspace(self.lo if lo is None else lo, self.hi if hi is None else hi, n, dtype=np.dtype(dt))
        return self.psi(x).astype(np.result_type(dt, 'c8') if self.cx else dt), x

    def attrs(self):
        par = self.f in wavtab_par
        sym = 'symmetric' if self.f in ('mexh', 'morl') or self.f in ('gaus', 'cgau') and self.order % 2 == 0 else 'anti-symmetric' if self.f in ('gaus', 'cgau') else 'asymmetric'
        return dict(name=self.name, family=self.long, short=self.short, number=self.order, orthogonal=False, biorthogonal=False, complex=bool(self.cx), lo=self.lo, hi=self.hi, C=self.C if par else None, B=self.B if par else None, M=self.M if self.f == 'fbsp' else None, symmetry=sym)


wavtab_par = ('cmor', 'shan', 'fbsp')


def cattrs(w):
    n = lambda v: None if v is None else float(v)
    return dict(name=w.name, family=w.family_name, short=w.short_family_name, number=int(w.family_number), orthogonal=bool(w.orthogonal), biorthogonal=bool(w.biorthogonal), complex=bool(w.complex_cwt), lo=n(w.lower_bound), hi=n(w.upper_bound), C=n(w.center_frequency), B=n(w.bandwidth_frequency),
                M=None if w.fbsp_order is None else int(w.fbsp_order), symmetry=w.symmetry)


def names_c(s): return [n for n in NAMES(s) if fam(n) not in DISC] + [p for v in PARAM.values() for p in v]


def g_continuous(s):
    for n in names_c(s):
        w = CW(n)
        s.case(['W01', 'W03', 'K01'], 'pywt.ContinuousWavelet', n, lambda s: cattrs(s.ContinuousWavelet(n)), lambda s: w.attrs())
        s.case(['W01'], 'pywt.DiscreteContinuousWavelet', n, lambda s: (lambda o: (isinstance(o, s.ContinuousWavelet), cattrs(o)))(s.DiscreteContinuousWavelet(n)), lambda s: (True, w.attrs()))
        s.case(['W01'], 'pywt.ContinuousWavelet', n.upper(), lambda s: cattrs(s.ContinuousWavelet(n.upper())), lambda s: w.attrs())
        pair = lambda r: [from_conc(np.ascontiguousarray(r[0])), from_conc(np.ascontiguousarray(r[1]))]
        for dt in ('f8', 'f4'):
            s.tol = 2e-5 if dt == 'f4' else 1e-8
            D = np.dtype(dt).type
            mk = lambda s: s.ContinuousWavelet(n, D)
            K = ['K01', 'F01']
            s.case(K, 'pywt.ContinuousWavelet.wavefun', '%s, level 4, %s' % (n, dt), lambda s: list(mk(s).wavefun(4)), lambda s: pair(w.fun(16, dt)), dtype=True)
            s.case(K, 'pywt.ContinuousWavelet.wavefun', '%s, length 11, %s' % (n, dt), lambda s: list(mk(s).wavefun(length=11)), lambda s: pair(w.fun(11, dt)))
            s.case(K, 'pywt.ContinuousWavelet.wavefun', '%s, length 5 and a level, %s' % (n, dt), lambda s: list(mk(s).wavefun(7, 5)), lambda s: pair(w.fun(5, dt)))
            s.case(K, 'pywt.ContinuousWavelet.wavefun', '%s, other bounds, %s' % (n, dt), lambda s: (lambda o: (setattr(o, 'lower_bound', -1.5), setattr(o, 'upper_bound', 2.25), list(o.wavefun(length=9)))[2])(mk(s)), lambda s: pair(w.fun(9, dt, -1.5, 2.25)))
        s.tol = type(s).tol
        s.case(['K01', 'F01'], 'pywt.ContinuousWavelet.wavefun', n + ', default level', lambda s: list(s.ContinuousWavelet(n).wavefun()), lambda s: pair(w.fun(256)))
        for D in ('f8', 'float64', float, np.dtype('f8')):
            s.case(['K01', 'F01'], 'pywt.ContinuousWavelet.wavefun', '%s, type given as %r' % (n, D), lambda s: list(s.ContinuousWavelet(n, D).wavefun(length=5)), lambda s: pair(w.fun(5, 'f8')), dtype=True)
        s.tol = 2e-5
        for D in ('f4', 'float32', np.dtype('f4')):
            s.case(['K01', 'F01'], 'pywt.ContinuousWavelet.wavefun', '%s, type given as %r' % (n, D), lambda s: list(s.ContinuousWavelet(n, D).wavefun(length=5)), lambda s: pair(w.fun(5, 'f4')), dtype=True)
        s.tol = type(s).tol
        s.case(['O01', 'D01'], 'pywt.ContinuousWavelet', 'the element type is complex', lambda s: s.ContinuousWavelet(n, np.complex128), raises=True)
        # copies
        def chg(s, dt='f8'):
            o = s.ContinuousWavelet(n, np.dtype(dt).type)
            o.lower_bound = -3.5; o.upper_bound = 2.25
            if fam(w.name) in wavtab_par: o.center_frequency = 0.75; o.bandwidth_frequency = 1.25
            if w.f == 'fbsp': o.fbsp_order = 3
            return o
        full = lambda s, o: (type(o) is s.ContinuousWavelet, cattrs(o), list(o.wavefun(length=7)))
        for dt in ('f8', 'f4'):
            s.case(['S01'], 'pywt.ContinuousWavelet', 'copy of %s, %s' % (n, dt), lambda s: full(s, clone(s.ContinuousWavelet(n, np.dtype(dt).type))), lambda s: full(s, s.ContinuousWavelet(n, np.dtype(dt).type)))
            s.case(['S01'], 'pywt.ContinuousWavelet', 'copy of a changed %s, %s' % (n, dt), lambda s: full(s, clone(chg(s, dt))), lambda s: full(s, chg(s, dt)))
        def flags(s):
            o = s.ContinuousWavelet(n); o.orthogonal = True; o.biorthogonal = True; o.complex_cwt = not w.cx; return o
        s.case(['S01'], 'pywt.ContinuousWavelet', 'copy of %s with other flags' % n, lambda s: cattrs(clone(flags(s))), lambda s: dict(w.attrs(), orthogonal=True, biorthogonal=True, complex=not w.cx))
        s.case(['S01', 'W03'], 'pywt.ContinuousWavelet', 'attributes of a changed %s' % n, lambda s: cattrs(chg(s)), lambda s: dict(w.attrs(), lo=-3.5, hi=2.25, **(dict(C=0.75, B=1.25) if w.f in wavtab_par else {}), **(dict(M=3) if w.f == 'fbsp' else {})))
        def eqb(s):
            o = s.ContinuousWavelet(n); o.lower_bound = 4.0; o.upper_bound = 4.0; return o
        s.case(['S01'], 'pywt.ContinuousWavelet', 'copy of %s with equal bounds' % n, lambda s: [v for v in clone(eqb(s)).wavefun(length=2)], lambda s: pair(w.fun(2, 'f8', 4.0, 4.0)))
        # derived quantities
        for prec in (3, 6) if n in ('mexh', 'morl', 'gaus1', 'gaus2', 'gaus5', 'cgau3', 'cmor1.5-1.0', 'shan1.5-1.0', 'fbsp3-0.5-2', 'CMOR3-0.7') else (5,):
            psi, x = w.fun(2 ** prec); st = x[1] - x[0]
            iw = lambda s: (from_conc(np.cumsum(psi) * st), from_conc(x))
            s.case(['F01', 'K01', 'R03'], 'pywt.integrate_wavelet', '%s, precision %d' % (n, prec), lambda s: tuple(s.integrate_wavelet(n, prec)), iw)
            s.case(['F01'], 'pywt.intwave', '%s, precision %d' % (n, prec), lambda s: tuple(s.intwave(s.ContinuousWavelet(n), precision=prec)), iw)
            c = centre(psi, x)
            s.case(['F01', 'R03'], 'pywt.central_frequency', '%s, precision %d' % (n, prec), lambda s: num_(s.central_frequency(n, prec)), lambda s: c)
            s.case(['F01', 'R03'], 'pywt.scale2frequency', '%s, precision %d' % (n, prec), lambda s: num_(s.scale2frequency(s.ContinuousWavelet(n), 2.5, prec)), lambda s: c / 2.5)
            s.case(['F01', 'R03'], 'pywt.frequency2scale', '%s, precision %d' % (n, prec), lambda s: num_(s.frequency2scale(n, 0.4, precision=prec)), lambda s: c / 0.4)
    for n in ('mexh', 'gaus3', 'cmor1.5-1.0', 'fbsp2-1-0.5'):
        for kw in (dict(level=-1), dict(length=0), dict(length=-3), dict(level=-4)): s.case(['O01'], 'pywt.ContinuousWavelet.wavefun', 'the wavelet %s is asked for %s' % (n, kw), lambda s: s.ContinuousWavelet(n).wavefun(**kw), raises=True)
        for q in ('integrate_wavelet', 'central_frequency', 'scale2frequency', 'frequency2scale'):
            s.case(['O01'], 'pywt.' + q, 'the precision is -1 for ' + n, lambda s: getattr(s, q)(n, *([2.0] if '2' in q else []), precision=-1), raises=True)
        for kw in (dict(level=1), dict(length=1), dict(length=2), dict(level=0), dict(length=True)):
            s.case(['K01', 'F01'], 'pywt.ContinuousWavelet.wavefun', '%s, %s' % (n, kw), lambda s: list(s.ContinuousWavelet(n).wavefun(**kw)), lambda s: [from_conc(np.ascontiguousarray(q)) for q in CW(n).fun(int(kw['length']) if 'length' in kw else 2 ** kw['level'])])
    s.case(['F01', 'R03'], 'pywt.integrate_wavelet', 'default precision', lambda s: len(s.integrate_wavelet('mexh')[1]), lambda s: 256)
    for q, a in (('central_frequency', ()), ('scale2frequency', (1.0,)), ('frequency2scale', (1.0,))):
        s.case(['F01'], 'pywt.' + q, 'default precision', lambda s: num_(getattr(s, q)('morl', *a)), lambda s: centre(*CW('morl').fun(256)))


# ---------------------------------------------------------------- continuous transform
_ker = {}


def kernel(w, scale, real='f8'):
    """the integrated wavelet sampled at the scale"""
    psi, x = w.fun(1024)
    I = np.conj(np.cumsum(psi) * (x[1] - x[0]))
    if real == 'f4': I = I.astype('c8' if w.cx else 'f4'); x = x.astype('f4')
    step = x[1] - x[0]
    j = (np.arange(scale * (x[-1] - x[0]) + 1) / (scale * step)).astype(int)
    j = j[j < I.size]
    return I[j][::-1]


def cwt_line(x, w, scale, real):
    """centred derivative of the convolution with the integrated wavelet, as a matrix acting on the line"""
    k = kernel(w, scale, real); n = len(x)
    m = n + len(k) - 1
    G = np.zeros((m, n), complex)
    for i in range(n): G[i:i + len(k), i] = k
    G = -math.sqrt(scale) * (G[1:] - G[:-1])
    d = (m - 1 - n) / 2.0
    if d > 0: G = G[math.floor(d):m - 1 - math.ceil(d)]
    return G


def R_cwt(x, w, scales, axis, real):
    """documented result for symbolic data x"""
    dt = x.dt; out = np.dtype(np.result_type(dt, 'c8')) if w.cx else dt
    ax = axis % x.ndim
    A = np.moveaxis(x.a, ax, -1); shp = A.shape
    res = np.zeros((len(scales),) + shp, complex if out.kind == 'c' else float)
    for i, sc in enumerate(scales):
        G = cwt_line(range(shp[-1]), w, sc, real)
        for idx in np.ndindex(*shp[:-1]):
            v = A[idx]
            re_ = [int(t) for t in (v.real if x.cplx else v)]; im_ = [int(t) for t in v.imag] if x.cplx else None
            for r in range(shp[-1]):
                a, b = T.ZERO, T.ZERO
                for g, p, q in zip(G[r], re_, im_ or re_):
                    if g.real: a = T.add(a, T.scale(p, float(g.real)))
                    if g.imag: b = T.add(b, T.scale(p, float(g.imag)))
                    if im_ is not None:
                        if g.imag: a = T.sub(a, T.scale(q, float(g.imag)))
                        if g.real: b = T.add(b, T.scale(q, float(g.real)))
                res[(i,) + idx + (r,)] = complex(a, b) if out.kind == 'c' else a
    return Arr(np.moveaxis(res, -1, ax + 1), out)


def g_cwt(s):
    SC = [0.7, 1.3, 2.6, 4.1]
    def one(label, n, shape, scales, dt='f8', axis=-1, method=None, period=None, obj=False, props=()):
        w = CW(n); real = 'f4' if np.dtype(dt).char in 'fFe' else 'f8'
        cdt = {'f4': 'f4', 'c8': 'c8', 'c16': 'c16'}.get(dt, 'f8') if dt not in ('f2',) else 'f4'
        s.tol = 1e-4 if real == 'f4' else 1e-8
        kw = {}
        if method: kw['method'] = method
        if period: kw['sampling_period'] = period
        if axis != -1: kw['axis'] = axis
        fr = np.array([centre(*w.fun(1024)) / sc / (period or 1.0) for sc in scales])
        def ref(s):
            x = s.arr('x', shape, dt)
            if x.dt != np.dtype(cdt): x = M.cast(x, np.dtype(cdt))
            return R_cwt(x, w, scales, axis, real), from_conc(fr)
        s.case(['R03', 'F01', 'K01'] + list(props), 'pywt.cwt', '%s, %s, shape %s, scales %s, %s%s' % (label, n, shape, scales, dt, ''.join(', %s %s' % t for t in kw.items())),
               lambda s: (lambda r: (r[0], r[1]))(s.cwt(s.arr('x', shape, dt), s.own(list(scales)) if not obj else from_conc(np.array(scales)), n if not obj else s.ContinuousWavelet(n), **kw)), ref, aspects={'dtype': ['D01', 'R03']})
        s.tol = type(s).tol
    for m in ('conv', 'fft'):
        for n in ('mexh', 'morl', 'gaus1', 'gaus4', 'cgau2', 'cgau5', 'shan1.5-1.0', 'shan', 'fbsp2-1-0.5', 'fbsp', 'cmor1.5-1.0', 'cmor0.3-2', 'cmor'):
            one('one signal', n, (7,), [0.7, 2.6], method=m)
        for dt in ('f4', 'f8', 'c8', 'c16', 'f2', 'i4'):
            for n in ('gaus2', 'cmor1.5-1.0'):
                one('element type', n, (5,), [1.3], dt, method=m)
                if dt in ('f4', 'c16'): one('element type', n, (2, 5), [1.3, 0.8], dt, method=m, axis=1)
        for sh, ax in (((3, 4), 0), ((3, 4), 1), ((3, 4), -2), ((3, 4), -1), ((2, 3, 4), 0), ((2, 3, 4), 1), ((2, 3, 4), 2), ((2, 3, 4), -2), ((2, 1, 3), 0), ((1, 5), 0)):
            for n in ('gaus1', 'cgau2'): one('batch', n, sh, [1.3, 0.8], method=m, axis=ax, props=['A01'])
        for n in ('mexh', 'cmor1.5-1.0'):
            for sh in ((1,), (2,), (3,), (8,), (17,)): one('length', n, sh, [0.7, 1.3], method=m)
            one('scales out of order', n, (6,), [2.6, 0.7, 1.3, 0.7], method=m)
            one('many scales', n, (6,), SC, method=m, period=0.25)
            one('wavelet object', n, (6,), SC[:2], method=m, period=3.0, obj=True)
            one('sampling period', n, (2, 6), SC[:2], method=m, period=0.01)
    one('default method', 'gaus3', (6,), SC[:2])
    one('default method', 'cgau3', (6, 2), SC[:2], axis=0)
    w = CW('mexh')
    s.case(['R03', 'F01'], 'pywt.cwt', 'a scalar scale', lambda s: (lambda r: (r[0], M.np_asarray(r[1])))(s.cwt(s.arr('x', 6), 1.3, 'mexh', 0.5)), lambda s: (R_cwt(s.arr('x', 6), w, [1.3], -1, 'f8'), from_conc(np.array([centre(*w.fun(1024)) / 1.3 / 0.5]))))
    s.case(['R03'], 'pywt.cwt', 'integer scales', lambda s: s.cwt(s.arr('x', 5), from_conc(np.array([1, 3])), 'cgau1')[1], lambda s: from_conc(np.array([centre(*CW('cgau1').fun(1024)) / q for q in (1, 3)])))
    s.case(['R03'], 'pywt.cwt', 'a list', lambda s: s.cwt([1.0, -2.0, 4.5, 0.25], [1.3], 'gaus1')[0], lambda s: R_cwt(M.from_conc(np.array([1.0, -2.0, 4.5, 0.25])), CW('gaus1'), [1.3], -1, 'f8'))
    for bad in ([0.0], [1.0, 0.0], [-1.0], [2.0, -3.0]): s.case(['O01'], 'pywt.cwt', 'the scales are %s' % bad, lambda s: s.cwt(s.arr('x', 6), bad, 'mexh'), raises=True)
    s.case(['O01', 'R03'], 'pywt.cwt', 'the scale is too small for the wavelet', lambda s: s.cwt(s.arr('x', 6), [0.01], 'mexh'), raises=True)
    for ax in (2, -3, 5): s.case(['A01'], 'pywt.cwt', 'the axis is %d for two-dimensional data' % ax, lambda s: s.cwt(s.arr('x', (3, 4)), [1.3], 'mexh', axis=ax), raises=True)
    for ax in ((0,), [0, 1], None): s.case(['A01', 'O01'], 'pywt.cwt', 'the axis is %r' % (ax,), lambda s: s.cwt(s.arr('x', (3, 4)), [1.3], 'mexh', axis=ax), raises=True)


# ---------------------------------------------------------------- state
def flat(v, out=None, path='result'):
    out = [] if out is None else out
    if isinstance(v, M.Base): out.append((path, v))
    elif isinstance(v, dict):
        for k in sorted(v): flat(v[k], out, '%s[%r]' % (path, k))
    elif isinstance(v, (list, tuple)):
        for i, x in enumerate(v): flat(x, out, '%s[%d]' % (path, i))
    else: out.append((path, v))
    return out


W4same = R.Wav(*[[c * 0.5 + 0.125 for c in W4.f[n]] for n in R.FLT], W4.name)     # other taps under the same name
W4other = R.Wav(*[W4same.f[n] for n in R.FLT], 'never seen')


def g_state(s):
    def freeze(v): return [(p, Arr(x.a.copy(), x.dt) if isinstance(x, M.Base) else x) for p, x in flat(v)]
    def same(s, a, b):
        if len(a) != len(b): return 'another structure'
        for (p, x), (q, y) in zip(a, b):
            if p != q: return 'another structure'
            e = s.cmp(y, x) if isinstance(x, M.Base) else ([] if x == y or x is y else [('value', '%s differs' % p)])
            if e: return '%s: %s' % (p, e[0][1])
        return None
    names = list(E)
    combos = [('f8', W4, 'smooth'), ('c8', 'db2', 'periodization'), ('f4', 'bior1.3', 'reflect'), ('c16', W2, 'zero')]
    for k, first in enumerate(combos):
        def history(s):
            """every entry point twice, with every other one (under other settings) in between"""
            def run(combo, order):
                dt, w, m = combo; r = {}
                for n in order:
                    takes, f, ax = E[n]
                    c = (takes, f, ax)
                    if n in ('pywt.fswavedecn', 'pywt.ravel_coeffs', 'pywt.coeffs_to_array'): pass
                    r[n] = freeze(f(s, dt, w, m, ax))
                return r
            s.W.api()
            for n in list(s.W.mods): s.W.load(n)
            before = modstate(s.W)
            a = run(first, names)
            for c in combos[k + 1:] + combos[:k]: run(c, names[::-1])
            b = run(first, names[::-1])
            out = [(n, d) for n in names for d in [same(s, a[n], b[n])] if d]
            if k == 0:      # another wavelet under a name already seen
                b = run(('f8', W4same, 'smooth'), names); e = run(('f8', W4other, 'smooth'), names)
                out += [(n, 'wavelets are told apart by their names: ' + d) for n in names for d in [same(s, b[n], e[n])] if d]
            now = modstate(s.W)
            for key in before:
                if now.get(key) != before[key]: out.append(('%s.%s' % key, 'module-level %s is changed by the calls' % key[1]))
            for key in now:
                if key not in before and key[0] in {q[0] for q in before} and not key[1].startswith('%'): out.append(('%s.%s' % key, 'module-level %s is created by the calls' % key[1]))
            return out
        for c, r in s.paths(history):
            s.rep.n('obligations', len(names)); s.rep.n('contexts of state', len(names))
            if r[0] == 'ok':
                for n, d in r[1]: s.bad(['C08'], 'depends-on-history', n, 'a second call gives something else after other calls: %s [%s, %s]' % (d, first[0], first[2]))
                s.events(c, 'pywt', 'sequence of calls'); s.after('pywt', 'sequence of calls')
            elif r[0] == 'raise': s.bad(['C08'], 'depends-on-history', 'pywt', 'a sequence of valid calls raises %s: %s' % (type(r[1]).__name__, str(r[1])[:150]))
            elif r[0] == 'found': s.events(c, 'pywt', 'sequence'); s.rep.unsup.append('sequence of calls: %s' % (r[2],))
            else: s.rep.unsup.append('sequence of calls: %s' % (r[1],))
    # what is handed out is not the internal table
    for lab, f in [('pywt.families', lambda s: s.families()), ('pywt.families', lambda s: s.families(False)), ('pywt.wavelist', lambda s: s.wavelist()), ('pywt.wavelist', lambda s: s.wavelist('db')), ('pywt.wavelist', lambda s: s.wavelist(kind='discrete')), ('pywt.wavelist', lambda s: s.wavelist(kind='continuous'))]:
        def two(s):
            a = f(s); keep = list(a)
            a.reverse(); a.append('spoilt'); del a[0]
            return list(f(s)) == keep
        s.case(['C08'], lab, 'after the caller changed an earlier result', two, lambda s: True)
    for lab, f in [('Wavelet.dec_lo', lambda w: w.dec_lo), ('Wavelet.dec_hi', lambda w: w.dec_hi), ('Wavelet.rec_lo', lambda w: w.rec_lo), ('Wavelet.rec_hi', lambda w: w.rec_hi), ('Wavelet.filter_bank', lambda w: w.filter_bank[2]), ('Wavelet.inverse_filter_bank', lambda w: w.inverse_filter_bank[1])]:
        for mk in (lambda s: s.Wavelet('bior1.3'), lambda s: s.Wavelet('m', [[1., 2.], [3., 4.], [5., 6.], [7., 8.]])):
            def two(s):
                w = mk(s); a = f(w); keep = list(a)
                a.reverse(); a[0] = 99.0; a.append(5.0)
                return list(f(w)) == keep and list(f(mk(s))) == keep
            s.case(['C08'], 'pywt.' + lab, 'after the caller changed an earlier result', two, lambda s: True)
    def bank(s):
        src = [[1., 2.], [3., 4.], [5., 6.], [7., 8.]]
        w = s.Wavelet('m', src); src[0][0] = 50.0; src[1].append(3.0)
        return filters(w)['filter_bank']
    s.case(['C08'], 'pywt.Wavelet', 'after the caller changed the lists it was built from', bank, lambda s: ([1., 2.], [3., 4.], [5., 6.], [7., 8.]))
    # wavelet objects set up differently do not affect each other
    def two(s):
        a = s.ContinuousWavelet('cmor1.5-1.0'); b = s.ContinuousWavelet('cmor0.5-2.0'); c = s.ContinuousWavelet('cmor')
        a.lower_bound = -1; b.complex_cwt = False
        return [cattrs(x) for x in (a, b, c, s.ContinuousWavelet('cmor1.5-1.0'))]
    s.case(['C08', 'W01'], 'pywt.ContinuousWavelet', 'several objects of one family', two, lambda s: [dict(CW('cmor1.5-1.0').attrs(), lo=-1.0), dict(CW('cmor0.5-2.0').attrs(), complex=False), CW('cmor').attrs(), CW('cmor1.5-1.0').attrs()])
    # threshold and helpers: same settings twice
    for lab, f in [('pywt.threshold', lambda s: s.threshold(s.arr('x', 1), 1.5, 'hard')), ('pywt.pad', lambda s: s.pad(s.arr('x', 3), 2, 'symmetric')), ('pywt.wavedec', lambda s: s.wavedec(s.arr('x', 9), 'db2'))]:
        def two(s):
            a = freeze(f(s)); b = freeze(f(s)); return same(s, a, b)
        s.case(['C08'], lab, 'called twice', two, lambda s: None)


# ---------------------------------------------------------------- copies of packet trees
def g_copies(s):
    def tree(s, cls, w, mode, dt, **kw):
        sh = {'WaveletPacket': (8,), 'WaveletPacket2D': (6, 8), 'WaveletPacketND': (4, 6)}[cls]
        if 'axis' in kw: sh = (3, 8, 4)
        if 'axes' in kw: sh = (3, 8, 4)
        wp = getattr(s, cls)(s.arr('x', sh, dt), wv(s, w), mode, **kw)
        return wp
    def look(s, t, lev=1):
        a = t.axes
        return dict(cls=type(t).__name__, mode=str(t.mode) if not isinstance(t.mode, (list, tuple)) else [str(m) for m in t.mode], maxlevel=int(t.maxlevel), axes=[int(i) for i in (a if isinstance(a, (tuple, list)) else (a,))], wavelet=filters(t.wavelet)['filter_bank'], wname=t.wavelet.name,
                    data=t.data, leaves=[(n.path, n.data) for n in t.get_level(lev)])
    for cls in ('WaveletPacket', 'WaveletPacket2D', 'WaveletPacketND'):
        axk = [{}] + ([{'axis': 0}, {'axis': 1}, {'axis': -2}] if cls == 'WaveletPacket' else [{'axes': (0, 1)}, {'axes': (1, 2)}, {'axes': (2, 1)}, {'axes': (-1, 0)}])
        for kw in axk:
            for w in ('haar', 'bior1.3', W2):
                for mode in ('symmetric', 'periodization', 'zero', 'smooth'):
                    for ml in ({}, {'maxlevel': 1}, {'maxlevel': 2}):
                        if ml and (kw or mode != 'zero' or w != 'haar'): continue
                        if kw and mode in ('zero', 'symmetric') and w != 'haar': continue
                        k = dict(kw, **(ml or {'maxlevel': 1}))
                        if not kw and not ml and w == 'haar': k = {}
                        for dt in ('f8', 'c8') if w == 'haar' else ('f8',):
                            s.case(['S01'], 'pywt.' + cls, 'copy, %s, %s, %s, %s' % (w if isinstance(w, str) else 'custom wavelet', mode, k, dt), lambda s: look(s, clone(tree(s, cls, w, mode, dt, **k))), lambda s: look(s, tree(s, cls, w, mode, dt, **k)))
        def used(s):
            t = tree(s, cls, 'haar', 'periodization', 'f8'); t.get_level(1); return t
        s.case(['S01'], 'pywt.' + cls, 'copy of a tree that was walked', lambda s: look(s, clone(used(s))), lambda s: look(s, used(s)))


GROUPS6 = {'objects': g_objects, 'continuous': g_continuous, 'cwt': g_cwt, 'state': g_state, 'copies': g_copies}
