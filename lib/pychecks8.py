"""Obligations on pywt.data: the demonstration signals at any length, and the
sample data (whose files are read as constants)."""
import os
import numpy as np
import npmodel as M
from npmodel import Base
import pyinterp as P
from pysuite import REPO
from pysuite import Unsupported

SIGNALS = ['Blocks', 'Bumps', 'HeaviSine', 'Doppler', 'Ramp', 'HiSine', 'LoSine', 'LinChirp', 'TwoChirp', 'QuadChirp', 'MishMash', 'WernerSorrows', 'HypChirps', 'LinChirps', 'Chirps',
           'Gabor', 'sineoneoverx', 'Piece-Regular', 'Piece-Polynomial', 'Riemann']
FIXED = ('gabor', 'sineoneoverx')
POS = (.1, .13, .15, .23, .25, .4, .44, .65, .76, .78, .81)
STEP = (4, -5, 3, -4, 5, -4.2, 2.1, 4.3, -3.1, 2.1, -4.2)
HGT = (4, 5, 3, 4, 5, 4.2, 2.1, 4.3, 3.1, 5.1, 4.2)
WTH = (.005, .005, .006, .01, .01, .03, .01, .01, .005, .008, .005)
pi = np.pi


def bumps(t): return sum(h / (1 + abs((t - p) / w)) ** 4 for p, h, w in zip(POS, HGT, WTH))


def rising(k, n):
    """samples of the half cosine from 0 to 1"""
    return (1 - np.cos(np.arange(k) / n * pi)) / 2


def documented(name, n):
    """(values, positions where a jump of the signal falls on a sample)"""
    k = np.arange(1, (n or 0) + 1); t = k / n if n else k; jump = np.zeros(len(k), bool)

    def at(*q):
        for v in q: jump[abs(t - v) < 1e-9] = True
    if name == 'blocks': at(*POS); return sum(h * (1 + np.sign(t - p)) / 2 for p, h in zip(POS, STEP)), jump
    if name == 'bumps': return bumps(t), jump
    if name == 'heavisine': at(.3, .72); return 4 * np.sin(4 * pi * t) - np.sign(t - .3) - np.sign(.72 - t), jump
    if name == 'doppler': return np.sqrt(t - t * t) * np.sin(2.1 * pi / (t + .05)), jump
    if name == 'ramp': at(.37); return np.where(t >= .37, t - 1, t), jump
    if name == 'hisine': return np.sin(.6902 * pi * k), jump
    if name == 'losine': return np.sin(.3333 * pi * k), jump
    if name == 'linchirp': return np.sin(pi / 2 * k * t), jump
    if name == 'twochirp': return np.sin(pi * k * t) + np.sin(pi / 3 * k * t), jump
    if name == 'quadchirp': return np.sin(pi / 3 * k * t * t), jump
    if name == 'mishmash': return np.sin(pi / 3 * k * t * t) + np.sin(.6902 * pi * k) + np.sin(pi / 8 * k * t), jump
    if name == 'wernersorrows': return np.sin(pi / 2 * k * t * t) + np.sin(.6902 * pi * k) + np.sin(pi * k * t) + bumps(t), jump
    if name == 'hypchirps':
        t = (k + .001) / n; f = np.zeros(n); a, b = 15 * n * pi / 1024, 5 * n * pi / 1024
        w = (t > .1) & (t < .75); at(.1, .68, .75)
        f[w] = np.sin(b / (.8 - t[w])); w &= t < .68; f[w] += np.sin(a / (.8 - t[w]))
        m = int(np.round(.65 * n)); p = m // 4; first = -(-n // 10) - 1
        env = np.ones(m); env[:p] = rising(p, max(p - 1, 1)); env[m - p:] = env[:p][::-1]
        e = np.zeros(n); e[first:first + m] = env
        return f * e, jump
    if name == 'linchirps':
        a, b = 250 * n * pi / 1024, 100 * n * pi / 1024
        return np.sqrt((k - 1) / n * (1 - t)) * (np.cos(a * t * t) + np.cos(b * t + a * t * t)), jump
    if name == 'chirps':
        s = n / 1024.
        gauss = lambda i: np.exp(-1600 * s * (i / n) ** 2)
        i = np.arange(n)
        f = np.cos((10 * pi * t) ** 2 * s) + np.cos(30 * s * (pi * t[::-1]) ** 3) + gauss(i + n // 2 - n) * np.cos(50 * pi * s * t) + gauss(i + n // 8 - n) * np.cos(350 * pi * s * t)
        q = n // 8; env = np.ones(n); env[:q] = rising(q, n / 8 - 1 or 1); env[n - q:] = env[:q][::-1]
        return f * env, jump
    if name == 'gabor':
        n = 512; j = np.arange(1, n + 1) / n; i = np.arange(n)
        g = lambda i: np.exp(-500 * (i / n) ** 2)
        return 3 * g(i - n // 2) * np.exp(32j * pi * j) + 3 * g(i - 3 * n // 4) * np.exp(128j * pi * j), np.zeros(n, bool)
    if name == 'sineoneoverx':
        n = 1024; x = np.arange(-n + 1, n + 1, dtype=float); x[x == 0] = .01
        return np.sin(1.5 * (n - 1) / x)[512:1536], np.zeros(1024, bool)
    if name == 'piece-regular':
        f = np.zeros(n); a, b, c, d, e, z = n // 12, n // 7, n // 5, n // 3, n // 2, n // 20
        fall = np.arange(1, d + 1) / d - .5 if d else np.zeros(0)
        fall = -70 * np.exp(-fall ** 2 / (2 * .15 ** 2))
        f[:d] = fall; f[b:c] /= 2
        f[d:e] = -15 * bumps(t[d:e])
        for i in range(a): f[e + i] = f[e + 2 * a - 1 - i] = -np.exp(4 * (i + 1) / a)
        o = e + 2 * a + z; f[o:o + 2 * z] = -25; o += 2 * z
        for i in range(b): f[o + i] = np.exp(4 * (i + 1) / b) - np.exp(4)
        f[5 * c:] = f[:n - 5 * c][::-1].copy()
        return f.sum() / n - f, jump
    if name == 'piece-polynomial':
        f = np.zeros(n); a, b, c = n // 5, n // 10, n // 20
        for i in range(a):
            x = (i + 1) / a
            f[i] = 20 * (x ** 3 + x ** 2 + 4); f[2 * a - 1 - i] = 10 * x ** 3 + 45; f[2 * a + i] = 40 * (2 * x ** 3 + x) + 100
            f[3 * a + i] = 16 * x * x + 8 * x + 16; f[5 * a - 1 - i] = 20 * (x + 4)
        f[5 * a:] = f[:n - 5 * a][::-1].copy()
        f[c:c + b] = 10; f[n - b:n - b + c] = 150
        return f - f.sum() / n, jump
    if name == 'riemann':
        i = np.arange(n); f = np.zeros(n)
        for q in range(1, int(n ** .5) + 1): f += np.cos(2 * pi * i * (q * q - 1) / n) / q / n
        return f, jump


def fits(name, n):
    def want(got):
        if isinstance(got, P.MemView): got = got.base()
        if not isinstance(got, Base) or got.dt != np.dtype('D' if name == 'gabor' else 'd'): return False
        w, jump = documented(name, n); v = got.conc()
        if v.shape != w.shape or not np.isfinite(v).all(): return False
        return bool(np.all(jump | (abs(v - w) <= 1e-8 * max(1, abs(w).max(initial=0)))))
    return want


def npz(s, name):
    """the constants stored in a data file"""
    p = os.path.join(REPO, 'pywt', 'data', name + '.npz')
    if not os.path.exists(p): raise Unsupported('anchor pywt/data/%s.npz vanished' % name)
    with np.load(p) as d: return d['data']


def g_signals(s):
    P = ['T01']; where = 'pywt.data.demo_signal'
    call = lambda s, *a, **k: s.mod('data._wavelab_signals', 'demo_signal')(*a, **k)
    s.case(P + ['C08'], where, "'list', after the first list was changed", lambda s: (lambda l: (l.clear(), call(s, 'list'))[1])(call(s, 'LIST')), lambda s: list(SIGNALS))
    ns = list(range(1, 26)) + [29, 31, 33, 37, 39, 40, 41, 47, 48, 49, 50, 55, 56, 57, 60, 64, 65, 70, 79, 84, 90, 97, 100, 103, 107, 120, 127, 128, 140, 187, 195, 210, 240, 420, 512, 1024]
    if s.thorough: ns += [n for n in range(26, 420) if n not in ns] + [441, 509, 840, 1000, 1023, 2048, 4096]
    for name in SIGNALS:
        low = name.lower()
        if low in FIXED:
            for sp in (name, low, name.upper()): s.case(P, where, sp, lambda s: call(s, sp), lambda s: fits(low, None))
            s.case(P, where, name + ' with no length', lambda s: call(s, name=name, n=None), lambda s: fits(low, None))
            for n in (1, 512, 1024): s.case(P, where, '%s takes no length, and %d is given' % (name, n), lambda s: call(s, name, n), raises=True, exc=ValueError)
            continue
        for n in ns: s.case(P, where, '%s, length %d' % (name, n), lambda s: call(s, name, n), lambda s: fits(low, n))
        for n in (2, 21, 64):
            s.case(P, where, '%s, length %d of type intp' % (low, n), lambda s: call(s, low, M.from_conc(np.intp(n))), lambda s: fits(low, n))
            s.case(P, where, '%s, length %d' % (name.upper(), n), lambda s: call(s, n=n, name=name.upper()), lambda s: fits(low, n))
        for n in (0, -1, -64, .5, 1.5, 64.25, 1000.5): s.case(P, where, '%s: the length is %r' % (name, n), lambda s: call(s, name, n), raises=True, exc=ValueError)
        s.case(P, where, '%s: there is no length' % name, lambda s: call(s, name), raises=True, exc=ValueError)
        s.case(P, where, '%s twice' % name, lambda s: (lambda f: (f.__setitem__(Ellipsis, 0), call(s, name, 33))[1])(call(s, name, 33)), lambda s: fits(low, 33))
    s.case(P, where, 'default name', lambda s: call(s, n=50), lambda s: fits('bumps', 50))
    for n in (None, 1, 64):
        for name in ('', 'foo', 'Block', 'Blocks ', 'Piece_Regular', 'Chirp', 'gabor2', 'db2'): s.case(P, where, 'the name is %r, length %s' % (name, n), lambda s: call(s, name, n), raises=True, exc=ValueError)

    rd = lambda s, name: s.mod('data._readers', name)
    for name, shape in (('ascent', (512, 512)), ('aero', (512, 512)), ('camera', (512, 512)), ('ecg', (1024,))):
        def same(got):
            v = got.conc(); w = npz(s, name)
            return v.shape == shape and got.dt == w.dtype and bool((v == w).all())
        s.case(['T01'], 'pywt.data.' + name, 'contents', lambda s: rd(s, name)(), lambda s: same)
        s.case(['C08'], 'pywt.data.' + name, 'after an earlier result was overwritten', lambda s: (lambda f: (f.__setitem__(Ellipsis, 7), rd(s, name)())[1])(rd(s, name)()), lambda s: same)

    def nino(got):
        d = npz(s, 'sst_nino3'); t, v = (x.conc() for x in got)
        m = d[:len(d) // 12 * 12, 4].reshape(-1, 3).sum(1) / 3; c = m - m.sum() / len(m)
        w = c / ((c * c).sum() / (len(m) - 1)) ** .5
        return t.shape == v.shape == (264,) == w.shape and bool((abs(v - w) < 1e-9).all()) and bool((abs(t - (1950 + .25 * np.arange(264))) < 1e-9).all())
    s.case(['T01'], 'pywt.data.nino', 'contents', lambda s: rd(s, 'nino')(), lambda s: nino)
    s.case(['C08'], 'pywt.data.nino', 'after an earlier result was overwritten', lambda s: (lambda f: ([x.__setitem__(Ellipsis, 7) for x in f], rd(s, 'nino')())[1])(rd(s, 'nino')()), lambda s: nino)


GROUPS8 = {'signals': g_signals}
