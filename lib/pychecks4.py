"""Obligations on thresholding, round trips, wavelet objects, module state and
the continuous transform."""
import itertools, re
import numpy as np
import npmodel as M
import terms as T
import pyspec as R
import pyinterp as P
import spec
from spec import MODES
from npmodel import Arr
from pychecks import W2, W4, W6, MODE, C, full, DTS
from pychecks3 import E, NAMES, FAMILIES, fam, wv, K2, D2, TRANSFORMS

INF = float('inf'); NAN = float('nan')


# ---------------------------------------------------------------- thresholding
def soft(x, v, s):
    m = abs(x)
    if m != m or v != v: return x * NAN
    if m < v: return s
    if m == 0: return x
    if m == INF: return x
    return x * ((m - v) / m)


def garrote(x, v, s):
    m = abs(x)
    if m < v: return s
    if m == 0: return x
    if m == INF: return x
    return x - v * v / x if not isinstance(x, complex) else x * (1 - (v / m) ** 2)


def firm(x, lo, hi):
    m = abs(x)
    if m <= lo: return 0.0
    if m > hi: return x
    if hi == INF: return x * (1 - lo / m)
    return x * hi * (1 - lo / m) / (hi - lo)


RULES = {'soft': soft, 'hard': lambda x, v, s: s if abs(x) < v else x, 'greater': lambda x, v, s: s if x < v else x, 'less': lambda x, v, s: s if x > v else x, 'garrote': garrote, 'garotte': garrote}


def points(*lims):
    """one value inside every region the limits cut the line into, and every limit itself"""
    l = sorted({0.0} | {x for x in lims if abs(x) < INF} | {-x for x in lims if abs(x) < INF})
    p = [l[0] - 1.25, l[0] - 7.5]
    for a, b in zip(l, l[1:]): p += [a, a + (b - a) * .3, a + (b - a) * .85]
    return p + [l[-1], l[-1] + .75, l[-1] + 11.5]


def rows(vals, n, names=('x',)):
    """assignments: every value in every position, and every pair of neighbouring regions together"""
    out = []
    for k in range(len(vals)):
        out.append({('x', i): vals[(k + i * 3) % len(vals)] for i in range(n)})
        out.append({('x', i): vals[k] if i == k % n else vals[(k + 5) % len(vals)] for i in range(n)})
    return out


def g_threshold(s):
    for mode, rule in RULES.items():
        real_only = mode in ('greater', 'less')
        for v in (0.0, 1.5, 2, -1.0) if real_only else (0.0, 1.5, 2):
            for sub in (0, 0.0, 7.25, -3):
                pts = points(v) + [INF, -INF]
                A = rows(pts, 3)
                for dt in ('f8', 'f4') if sub == 7.25 else ('f8',):
                    s.regions(['R02'], 'pywt.threshold', '%s, threshold %s, substitute %s, %s' % (mode, v, sub, dt), lambda s: s.threshold(s.arr('x', 3, dt), v, mode, sub), A, lambda a: [rule(a['x', i], v, sub) for i in range(3)], dt)
                s.regions(['R02'], 'pywt.threshold', '%s, threshold %s, substitute %s, 2-D' % (mode, v, sub), lambda s: s.threshold(s.arr('x', (1, 2)), v, mode, substitute=sub), [{('x', 0, i): a['x', i] for i in range(2)} for a in A[:12]], lambda a: [rule(a['x', 0, i], v, sub) for i in range(2)])
                if not real_only:
                    B = []
                    for m in (0.0, .3, v * .99, v, v + .4, v + 9):
                        for ph in (0.4, 2.2, 3.9, 5.5): B.append({('x', 0): m * np.cos(ph), ("x'", 0): m * np.sin(ph), ('x', 1): 3.0, ("x'", 1): -4.0})
                    B = [b for b in B if abs(abs(complex(b['x', 0], b["x'", 0])) - v) > 1e-9 or v == 0]
                    B += [{('x', 0): 3.0, ("x'", 0): 4.0, ('x', 1): 0.0, ("x'", 1): -v}] if v else []
                    for dt in ('c16', 'c8') if sub == 7.25 else ('c16',):
                        s.regions(['R02'], 'pywt.threshold', '%s, threshold %s, substitute %s, %s' % (mode, v, sub, dt), lambda s: s.threshold(s.arr('x', 2, dt), v, mode, sub), B, lambda a: [rule(complex(a['x', i], a["x'", i]), v, sub) for i in range(2)], dt)
        s.regions(['R02'], 'pywt.threshold', '%s, default substitute' % mode, lambda s: s.threshold(s.arr('x', 2), 1.5, mode), rows(points(1.5), 2), lambda a: [rule(a['x', i], 1.5, 0) for i in range(2)])
        if not real_only: s.regions(['R02'], 'pywt.threshold', '%s, not a number' % mode, lambda s: s.threshold(s.arr('x', 2), 1.5, mode), [{('x', 0): NAN, ('x', 1): 3.0}], lambda a: [NAN, rule(3.0, 1.5, 0)])
        else: s.case(['R02', 'O01'], 'pywt.threshold', 'the data is complex (%s)' % mode, lambda s: s.threshold(s.arr('x', 2, 'c16'), 1.5, mode), raises=True)
        s.regions(['R02'], 'pywt.threshold', '%s, list of integers' % mode, lambda s: s.threshold([0, 1, 2, -3, 4], 2, mode, 9), [{}], lambda a: [rule(float(x), 2, 9) for x in (0, 1, 2, -3, 4)])
    s.regions(['R02'], 'pywt.threshold', 'default mode', lambda s: s.threshold(s.arr('x', 2), 1.5), rows(points(1.5), 2), lambda a: [soft(a['x', i], 1.5, 0) for i in range(2)])
    for lo, hi in ((0.0, 0.0), (0.0, 2.0), (1.0, 1.0), (1.0, 3.0), (1, 3), (0.0, INF), (1.5, INF), (INF, INF), (0, 4)):
        A = rows(points(lo, hi) + ([INF, -INF] if hi < INF else []), 2)
        lab = 'limits %s and %s' % (lo, hi)
        for dt in ('f8', 'f4') if lo == 1.0 else ('f8',):
            s.regions(['R02'], 'pywt.threshold_firm', lab + ', ' + dt, lambda s: s.threshold_firm(s.arr('x', 2, dt), lo, hi), A, lambda a: [firm(a['x', i], lo, hi) for i in range(2)], dt)
        s.regions(['R02'], 'pywt.threshold_firm', lab + ', 2-D', lambda s: s.threshold_firm(s.arr('x', (2, 1)), lo, hi), [{('x', i, 0): a['x', i] for i in range(2)} for a in A], lambda a: [firm(a['x', i, 0], lo, hi) for i in range(2)])
        B = [{('x', 0): m * .6, ("x'", 0): m * -.8} for m in (0.0, .2, .7, 1.2, 2.1, 5, 40)]
        s.regions(['R02'], 'pywt.threshold_firm', lab + ', complex', lambda s: s.threshold_firm(s.arr('x', 1, 'c16'), lo, hi), B, lambda a: [firm(complex(a['x', 0], a["x'", 0]), lo, hi)], 'c16')
        s.regions(['R02'], 'pywt.threshold_firm', lab + ', not a number', lambda s: s.threshold_firm(s.arr('x', 1), lo, hi), [{('x', 0): NAN}], lambda a: [NAN])
    for lo, hi in ((-1, 2), (2, 1), (-3, -2)): s.case(['R02', 'O01'], 'pywt.threshold_firm', 'the limits are %s and %s' % (lo, hi), lambda s: s.threshold_firm(s.arr('x', 2), lo, hi), raises=True)


GROUPS4 = {'threshold': g_threshold}
