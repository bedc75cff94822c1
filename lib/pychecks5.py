"""Obligations on inverse after forward: the term must be the input itself."""
import itertools
import numpy as np
import npmodel as M
import terms as T
import pyspec as R
import pyinterp as P
from spec import MODES
from npmodel import Arr
from pychecks import full
from pychecks3 import NAMES, fam

RW = ['haar', 'db2', 'db5', 'sym4', 'coif1', 'bior1.3', 'bior2.2', 'bior3.1', 'bior4.4', 'rbio1.3', 'rbio2.4', 'rbio3.1', 'rbio6.8', 'dmey']


def crop(r, shape, axes, swt=False):
    """the result must have the input's shape, one sample longer where an odd extent was transformed"""
    r = M.np_asarray(r)
    ax = {a % len(shape) for a in axes}
    want = tuple(n + (n % 2 if i in ax and not swt else 0) for i, n in enumerate(shape))
    if r.shape != want: return r          # reported as a wrong shape
    return Arr(r.a[tuple(slice(0, n) for n in shape)], r.dt)


def g_roundtrip(s):
    T.NANS[0] = False
    from pychecks import C
    def rt(where, label, fn, shape, axes=None, dt='f8', w='db2', swt=False, tol=None):
        if w == 'dmey' and ('smooth' in label or 'antireflect' in label): return        # the published table is accurate to 3e-3 only, extrapolation multiplies that
        ax = tuple(range(len(shape))) if axes is None else axes
        s.tol = tol or (2e-2 if w == 'dmey' else 3e-5 if np.dtype(dt).char in 'fF' else 1e-8)
        s.case(['R01'], where, label, lambda s: crop(fn(s, s.arr('x', shape, dt)), shape, ax, swt), lambda s: s.arr('x', shape, dt), aspects={'shape': ['R01', 'L02']})
        s.tol = type(s).tol
    N = (1, 2, 3, 4, 5, 8, 9) if not s.thorough else tuple(range(1, 20))
    for w in RW:
        for mode in MODES:
            for n in N:
                if n == 1 and mode in ('reflect', 'antireflect'): continue
                rt('pywt.idwt', 'idwt(dwt(x)), %s, %s, length %d' % (w, mode, n), lambda s, x: s.idwt(*s.dwt(x, w, mode), w, mode), (n,), w=w)
        for dt in ('f4', 'c8', 'c16'): rt('pywt.idwt', 'idwt(dwt(x)), %s, %s' % (w, dt), lambda s, x: s.idwt(*s.dwt(x, w, 'periodic'), wavelet=w, mode='periodic'), (7,), dt=dt, w=w)
        rt('pywt.upcoef', 'upcoef(a) + upcoef(d), %s' % w, lambda s, x: s.upcoef('a', s.downcoef('a', x, w, 'constant'), w, take=8) + s.upcoef('d', s.downcoef('d', x, w, 'constant'), w, take=8), (8,), (), w=w)
        for mode in ('periodic', 'periodization', 'smooth', 'antireflect'):
            for n, lev in ((9, 2), (10, 3), (13, None)):
                rt('pywt.waverec', 'waverec(wavedec(x)), %s, %s, length %d, level %s' % (w, mode, n, lev), lambda s, x: s.waverec(s.wavedec(x, w, mode, level=lev), w, mode), (n,), w=w)
        for n, lev in ((4, 1), (4, 2), (8, 3), (16, 2), (12, 2)):
            for norm in (False, True):
                for trim in (False, True):
                    if (norm or trim) and n not in (4, 12): continue
                    rt('pywt.iswt', 'iswt(swt(x)), %s, length %d, level %d, norm %s, trim_approx %s' % (w, n, lev, norm, trim), lambda s, x: s.iswt(s.swt(x, w, level=lev, norm=norm, trim_approx=trim), w, norm=norm), (n,), w=w, swt=True)
        rt('pywt.iswt2', 'iswt2(swt2(x)), %s' % w, lambda s, x: s.iswt2(s.swt2(x, w, level=2), w), (4, 8), w=w, swt=True)
        rt('pywt.iswtn', 'iswtn(swtn(x)), %s' % w, lambda s, x: s.iswtn(s.swtn(x, w, level=2), w), (4, 8), w=w, swt=True)
    # every discrete wavelet once
    for w in NAMES(s):
        if fam(w) not in ('haar', 'db', 'sym', 'coif', 'bior', 'rbio', 'dmey'): continue
        rt('pywt.idwt', 'idwt(dwt(x)), %s' % w, lambda s, x: s.idwt(*s.dwt(x, w, 'antisymmetric'), w, 'antisymmetric'), (6,), w=w)
        rt('pywt.idwt', 'idwt(dwt(x)), %s, single precision' % w, lambda s, x: s.idwt(*s.dwt(x, w, 'periodization'), w, 'periodization'), (5,), dt='f4', w=w)
        rt('pywt.iswt', 'iswt(swt(x)), %s' % w, lambda s, x: s.iswt(s.swt(x, w, level=1), w), (6,), w=w, swt=True)
    for dt in ('f8', 'f4', 'c16', 'c8'):
        for w in ('db2', 'bior2.2', 'rbio3.1') if dt == 'f8' else ('bior1.3',):
            for sh in ((4, 6), (5, 3), (2, 7)):
                for ax in ((0, 1), (1, 0), (-1, 0)):
                    for mode in ('symmetric', 'periodization', ('zero', 'smooth'), ('periodization', 'reflect')):
                        if dt != 'f8' and (sh != (5, 3) or ax != (1, 0)): continue
                        lab = '%s, %s, shape %s, axes %s, %s' % (w, mode, sh, ax, dt)
                        rt('pywt.idwt2', 'idwt2(dwt2(x)), ' + lab, lambda s, x: s.idwt2(s.dwt2(x, w, mode, axes=ax), w, mode, axes=ax), sh, dt=dt, w=w)
                        rt('pywt.idwtn', 'idwtn(dwtn(x)), ' + lab, lambda s, x: s.idwtn(s.dwtn(x, w, mode, axes=ax), w, mode, axes=ax), sh, dt=dt, w=w)
                        if sh == (5, 3) and dt == 'f8':
                            for lev in (1, 2, 3):
                                rt('pywt.waverec2', 'waverec2(wavedec2(x)), level %d, %s' % (lev, lab), lambda s, x: s.waverec2(s.wavedec2(x, w, mode, lev, ax), w, mode, ax), sh, dt=dt, w=w)
                                rt('pywt.waverecn', 'waverecn(wavedecn(x)), level %d, %s' % (lev, lab), lambda s, x: s.waverecn(s.wavedecn(x, w, mode, lev, ax), w, mode, ax), sh, dt=dt, w=w)
                            rt('pywt.fswaverecn', 'fswaverecn(fswavedecn(x)), ' + lab, lambda s, x: s.fswaverecn(s.fswavedecn(x, w, mode, levels=(2, 1), axes=ax)), sh, dt=dt, w=w)
    for ax in (0, 1, -1, 2):
        rt('pywt.idwt', 'idwt(dwt(x)) along axis %d' % ax, lambda s, x: s.idwt(*s.dwt(x, 'db2', 'periodic', ax), 'db2', 'periodic', ax), (2, 3, 5), (ax,))
        rt('pywt.waverec', 'waverec(wavedec(x)) along axis %d' % ax, lambda s, x: s.waverec(s.wavedec(x, 'bior2.2', 'antireflect', 2, ax), 'bior2.2', 'antireflect', ax), (2, 3, 5), (ax,))
        rt('pywt.iswt', 'iswt(swt(x)) along axis %d' % ax, lambda s, x: s.iswt(s.swt(x, 'bior2.2', 1, 0, ax), 'bior2.2', axis=ax), (2, 4, 6), (ax,), swt=True)
        rt('pywt.WaveletPacket', 'reconstruct() along axis %d' % ax, lambda s, x: tree(s, s.WaveletPacket, x, 'bior2.2', axis=ax), (4, 4, 4), (ax,), swt=True)
    for axs in ((0, 2), (2, 1), (-1, 0, 1)):
        W = ['db2', 'bior1.3', 'rbio2.2'][:len(axs)]; Ms = ['smooth', 'periodization', 'reflect'][:len(axs)]
        rt('pywt.idwtn', 'idwtn(dwtn(x)), wavelets %s, modes %s, axes %s' % (W, Ms, axs), lambda s, x: s.idwtn(s.dwtn(x, tuple(W), Ms, axs), tuple(W), Ms, axs), (3, 4, 5), axs)
        rt('pywt.waverecn', 'waverecn(wavedecn(x)), wavelets %s, modes %s, axes %s' % (W, Ms, axs), lambda s, x: s.waverecn(s.wavedecn(x, W, Ms, 2, axs), W, Ms, axs), (3, 4, 5), axs)
        rt('pywt.fswaverecn', 'fswaverecn(fswavedecn(x)), wavelets %s, modes %s, axes %s' % (W, Ms, axs), lambda s, x: s.fswaverecn(s.fswavedecn(x, tuple(W), tuple(Ms), None, axs)), (3, 4, 5), axs)
        rt('pywt.iswtn', 'iswtn(swtn(x)), wavelets %s, axes %s' % (W, axs), lambda s, x: s.iswtn(s.swtn(x, tuple(W), 1, 0, axs), tuple(W), axs), (4, 2, 4), axs, swt=True)
        rt('pywt.iswtn', 'iswtn(swtn(x)), normalised and trimmed, axes %s' % (axs,), lambda s, x: s.iswtn(s.swtn(x, 'sym4', 2, 0, axs, True, True), 'sym4', axs, True), (4, 4, 4), axs, swt=True)
        if len(axs) == 2:
            rt('pywt.waverec2', 'waverec2(wavedec2(x)), axes %s' % (axs,), lambda s, x: s.waverec2(s.wavedec2(x, ('db2', 'bior1.3'), ('reflect', 'periodization'), 2, axs), ('db2', 'bior1.3'), ('reflect', 'periodization'), axs), (3, 5, 4), axs)
            rt('pywt.iswt2', 'iswt2(swt2(x)), axes %s' % (axs,), lambda s, x: s.iswt2(s.swt2(x, ('db2', 'bior1.3'), 1, 0, axs, norm=False), ('db2', 'bior1.3'), norm=False, axes=axs), (4, 2, 4), axs, swt=True)
            rt('pywt.iswt2', 'iswt2(swt2(x)), normalised and trimmed, axes %s' % (axs,), lambda s, x: s.iswt2(s.swt2(x, 'db2', 2, 0, axs, trim_approx=True, norm=True), 'db2', norm=True, axes=axs), (4, 4, 4), axs, swt=True)
    # packing in between
    for sh, lev in (((5, 7), 2), ((8, 8), 2), ((6,), 2), ((3, 4, 5), 1)):
        nd = len(sh); w, mode = 'db2', 'periodization' if sh == (8, 8) else 'reflect'
        rt('pywt.array_to_coeffs', 'waverecn through coeffs_to_array, shape %s' % (sh,), lambda s, x: s.waverecn((lambda a: s.array_to_coeffs(*a, output_format='wavedecn'))(s.coeffs_to_array(s.wavedecn(x, w, mode, lev))), w, mode), sh)
        rt('pywt.unravel_coeffs', 'waverecn through ravel_coeffs, shape %s' % (sh,), lambda s, x: s.waverecn((lambda a: s.unravel_coeffs(*a, output_format='wavedecn'))(s.ravel_coeffs(s.wavedecn(x, w, mode, lev))), w, mode), sh)
        if nd == 2:
            rt('pywt.array_to_coeffs', 'waverec2 through coeffs_to_array, shape %s' % (sh,), lambda s, x: s.waverec2((lambda a: s.array_to_coeffs(*a, output_format='wavedec2'))(s.coeffs_to_array(s.wavedec2(x, w, mode, lev))), w, mode), sh)
            rt('pywt.unravel_coeffs', 'waverec2 through ravel_coeffs, shape %s' % (sh,), lambda s, x: s.waverec2((lambda a: s.unravel_coeffs(*a, output_format='wavedec2'))(s.ravel_coeffs(s.wavedec2(x, w, mode, lev))), w, mode), sh)
        if nd == 1:
            rt('pywt.array_to_coeffs', 'waverec through coeffs_to_array, shape %s' % (sh,), lambda s, x: s.waverec((lambda a: s.array_to_coeffs(*a, output_format='wavedec'))(s.coeffs_to_array(s.wavedec(x, w, mode, lev))), w, mode), sh)
            rt('pywt.unravel_coeffs', 'waverec through ravel_coeffs, shape %s' % (sh,), lambda s, x: s.waverec((lambda a: s.unravel_coeffs(*a, output_format='wavedec'))(s.ravel_coeffs(s.wavedec(x, w, mode, lev))), w, mode), sh)
    # multiresolution sums
    for w in ('db2', 'bior2.2', 'coif1'):
        for lev in (1, 2):
            add = lambda t: sum(t[1:], t[0]) if isinstance(t, list) else None
            for tr in ('swt', 'dwt'):
                for mode in ('periodization',) if tr == 'swt' else ('periodization', 'symmetric', 'smooth'):
                    rt('pywt.mra', 'imra(mra(x)), %s, %s, level %d, %s' % (tr, w, lev, mode), lambda s, x: s.imra(s.mra(x, w, lev, transform=tr, mode=mode)), (8,), (), w=w, swt=True)
            for tr in ('swt2', 'dwt2'): rt('pywt.mra2', 'imra2(mra2(x)), %s, %s, level %d' % (tr, w, lev), lambda s, x: s.imra2(s.mra2(x, w, lev, transform=tr)), (4, 8), (), w=w, swt=True)
            for tr in ('swtn', 'dwtn'): rt('pywt.mran', 'imran(mran(x)), %s, %s, level %d' % (tr, w, lev), lambda s, x: s.imran(s.mran(x, w, lev, transform=tr)), (4, 8), (), w=w, swt=True)
    # packet trees
    for w in ('db2', 'bior2.2', 'rbio3.1'):
        for mode in ('symmetric', 'smooth', 'periodization'):
            for n, lev in ((8, 2), (9, 2), (6, 1), (7, 1)):
                rt('pywt.WaveletPacket', 'reconstruct(), %s, %s, length %d, level %d' % (w, mode, n, lev), lambda s, x: tree(s, s.WaveletPacket, x, w, mode, lev), (n,), (), w=w, swt=True)
            for sh in ((4, 6), (5, 3)):
                rt('pywt.WaveletPacket2D', 'reconstruct(), %s, %s, shape %s' % (w, mode, sh), lambda s, x: tree(s, s.WaveletPacket2D, x, w, mode, 1), sh, (), w=w, swt=True)
                rt('pywt.WaveletPacketND', 'reconstruct(), %s, %s, shape %s' % (w, mode, sh), lambda s, x: tree(s, s.WaveletPacketND, x, w, mode, 1), sh, (), w=w, swt=True)
    for dt in ('f4', 'c16', 'c8'):
        rt('pywt.WaveletPacket', 'reconstruct(), %s' % dt, lambda s, x: tree(s, s.WaveletPacket, x, 'db2', 'symmetric', 1), (6,), (), dt=dt, swt=True)
        rt('pywt.WaveletPacket2D', 'reconstruct(), %s' % dt, lambda s, x: tree(s, s.WaveletPacket2D, x, 'db2', 'symmetric', 1), (4, 4), (), dt=dt, swt=True)


def tree(s, cls, x, w, mode='symmetric', lev=1, **kw):
    """split fully, drop what every inner node knows, put it together again"""
    wp = cls(x, w, mode, maxlevel=lev, **kw)
    leaves = [(n.path, n.data) for n in wp.get_level(lev)]
    q = cls(None, w, mode, maxlevel=lev, **(dict(kw, axes=range(x.ndim)) if cls is s.WaveletPacketND else kw))
    for p, d in leaves: q[p] = d
    r = q.reconstruct()
    r = M.np_asarray(r)
    if all(a >= b for a, b in zip(r.shape, x.shape)) and r.ndim == x.ndim: r = Arr(r.a[tuple(slice(0, n) for n in x.shape)], r.dt)
    return r


GROUPS5 = {'roundtrip': g_roundtrip}
