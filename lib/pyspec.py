"""Documented meaning of the public transforms, on arrays of value numbers.

Everything is composed from the single-step formulas of spec.py (extension,
downsampling, upsampling, stationary step); nothing here looks at the analysed
program."""
import numpy as np
import npmodel as M
import terms as T
import spec
from npmodel import Arr

FLT = ('dec_lo', 'dec_hi', 'rec_lo', 'rec_hi')


def idt(dt):
    dt = np.dtype(dt)
    if dt.kind == 'c': return np.dtype('F') if dt.newbyteorder('=').char == 'F' else np.dtype('D')
    return np.dtype('f4') if dt.newbyteorder('=').char in 'ef' else np.dtype('f8')


class Wav:
    """four filters"""
    def __init__(self, dec_lo, dec_hi, rec_lo, rec_hi, name=''):
        self.f = dict(dec_lo=tuple(map(float, dec_lo)), dec_hi=tuple(map(float, dec_hi)), rec_lo=tuple(map(float, rec_lo)), rec_hi=tuple(map(float, rec_hi)))
        self.name = name
        self.F = len(self.f['dec_lo'])

    @property
    def key(self):
        k = 'w%x' % (hash(tuple(self.f[n] for n in ('dec_hi', 'dec_lo', 'rec_hi', 'rec_lo'))) & 0xffffffffff)
        if k not in T.WAV: T.WAV[k] = dict(self.f, name=k)
        return k

    def scaled(self, s): return Wav(*[[x * s for x in self.f[n]] for n in FLT], name=self.name + 'r')
    def bank(self): return tuple(list(self.f[n]) for n in FLT)


_tab = {}


def named(name):
    """built-in wavelet by name, out of the IR tables (checked against the name by W01)"""
    if name not in _tab:
        import re, wavtab, sinks
        m = re.match(r'([a-z]+)(\d*)(?:\.(\d))?$', name)
        fam, a, b = m.group(1), m.group(2), m.group(3)
        E = wavtab.enums()
        code = {'haar': 'HAAR', 'db': 'DB', 'sym': 'SYM', 'coif': 'COIF', 'bior': 'BIOR', 'rbio': 'RBIO', 'dmey': 'DMEY'}[fam]
        order = int(a + b) if b else int(a or 0)
        d = sinks.machine_wavelet('discrete', E[code], order)
        _tab[name] = Wav(d['dec_lo_double'], d['dec_hi_double'], d['rec_lo_double'], d['rec_hi_double'], name)
    return _tab[name]


def parts(dt): return ('real', 'imag') if dt.kind == 'c' else ('real',)


def along(fn, axis, *xs):
    """apply fn(line, line, ...) -> list(s) of ids along an axis, per real/imaginary part"""
    ref = [x for x in xs if x is not None][0]
    dt = np.result_type(*[x.dt for x in xs if x is not None])
    nd = ref.ndim; axis = axis % nd
    outs = None
    shp = [s for i, s in enumerate(ref.shape) if i != axis]
    for idx in np.ndindex(*shp):
        for p in parts(dt):
            lines = []
            for x in xs:
                if x is None: lines.append(None); continue
                v = np.moveaxis(x.a, axis, -1)[idx]
                lines.append(tuple(int(i) for i in (v.real if p == 'real' else v.imag if x.cplx else np.zeros(v.shape))))
            r = fn(*lines)
            if not isinstance(r, tuple): r = (r,)
            if outs is None:
                outs = [np.zeros(shp + [len(q)], complex if dt.kind == 'c' else float) for q in r]
            for o, q in zip(outs, r):
                if p == 'real' and dt.kind != 'c': o[idx] = q
                else: getattr(o[idx], p)[:] = q
    res = [Arr(np.moveaxis(o, -1, axis), dt) for o in outs]
    return res[0] if len(res) == 1 else tuple(res)


def conv(x):
    """element type the transforms work in"""
    return M.cast(x, idt(x.dt)) if x.dt != idt(x.dt) else x


def line_dwt(l, w, mode, band):
    n = spec.dwt_len(len(l), w.F, mode)
    if not any(l): return [T.ZERO] * n
    return [T.mkterm(('dwt', band, w.key, mode, o, l)) for o in range(n)]


def line_swt(l, w, level, band):
    if not any(l): return [T.ZERO] * len(l)
    return [T.mkterm(('swt', band, w.key, level, o, l)) for o in range(len(l))]


def line_idwt(a, d, w, mode):
    n = len(a) if a is not None else len(d)
    a = a if a is not None else (T.ZERO,) * n; d = d if d is not None else (T.ZERO,) * n
    L = spec.idwt_len(n, w.F, mode)
    if not any(a) and not any(d): return [T.ZERO] * L
    return [T.mkterm(('idwt', w.key, mode, o, a, d)) for o in range(L)]


def line_rec(l, w, band):
    n = 2 * len(l) + w.F - 2
    if not any(l): return [T.ZERO] * n
    return [T.mkterm(('rec', band, w.key, o, l)) for o in range(n)]


def dwt(x, w, mode, axis=-1):
    return along(lambda l: (line_dwt(l, w, mode, 'a'), line_dwt(l, w, mode, 'd')), axis, conv(x))


def idwt(a, d, w, mode, axis=-1):
    a = None if a is None else conv(a); d = None if d is None else conv(d)
    return along(lambda p, q: line_idwt(p, q, w, mode), axis, a, d)


def downcoef(part, x, w, mode, level):
    x = conv(x)
    for i in range(level): x = along(lambda l: line_dwt(l, w, mode, part if i == level - 1 else 'a'), 0, x)
    return x


def upcoef(part, x, w, level, take=0):
    x = conv(x)
    for i in range(level): x = along(lambda l: line_rec(l, w, part if i == 0 else 'a'), 0, x)
    n = x.size
    if 0 < take < n:
        l = (n - take) // 2
        x = Arr(x.a[l:l + take].copy(), x.dt)
    return x


def dwtn(x, ws, modes, axes):
    c = {'': conv(x)}
    for w, m, ax in zip(ws, modes, axes):
        n = {}
        for k, v in c.items(): n[k + 'a'], n[k + 'd'] = dwt(v, w, m, ax)
        c = n
    return c


def idwtn(c, ws, modes, axes):
    c = {k: conv(v) for k, v in c.items() if v is not None}
    for w, m, ax in reversed(list(zip(ws, modes, axes))):
        n = {}
        for k in sorted({k[:-1] for k in c}): n[k] = idwt(c.get(k + 'a'), c.get(k + 'd'), w, m, ax)
        c = n
    return c['']


def swtn1(x, ws, level, axes):
    c = {'': conv(x)}
    for w, ax in zip(ws, axes):
        n = {}
        for k, v in c.items(): n[k + 'a'], n[k + 'd'] = along(lambda l: (line_swt(l, w, level, 'a'), line_swt(l, w, level, 'd')), ax, v)
        c = n
    return c


def crop(x, shape): return Arr(x.a[tuple(slice(s) for s in shape)], x.dt)


def iswt_line(a, d, w, step):
    """one inverse stationary step: mean of the inverses of the two decimated transforms, for each phase"""
    N = len(a); out = [T.ZERO] * N
    for first in range(step):
        ix = list(range(first, N, step))
        ev, od = ix[0::2], ix[1::2]
        x1 = line_idwt(tuple(a[i] for i in ev), tuple(d[i] for i in ev), w, spec.PER)
        x2 = line_idwt(tuple(a[i] for i in od), tuple(d[i] for i in od), w, spec.PER)
        x2 = [x2[-1]] + list(x2[:-1])
        for k, i in enumerate(ix): out[i] = T.scale(T.add(x1[k], x2[k]), 0.5)
    return out


def iswtn1(c, ws, level, axes):
    step = 1 << (level - 1)
    c = {k: conv(v) for k, v in c.items()}
    dt = np.result_type(*[v.dt for v in c.values()])
    for w, ax in reversed(list(zip(ws, axes))):
        n = {}
        for k in sorted({k[:-1] for k in c}):
            n[k] = along(lambda p, q: iswt_line(p, q, w, step), ax, c[k + 'a'], c[k + 'd'])
        c = n
    return c['']


def wavedecn(x, ws, modes, axes, level):
    """[approximation, coarsest details, ..., finest details]"""
    out = []; a = conv(x); k = 'a' * len(axes)
    for _ in range(level):
        c = dwtn(a, ws, modes, axes); a = c.pop(k); out.append(c)
    out.append(a)
    return out[::-1]


def waverecn(cs, ws, modes, axes):
    a = cs[0]; k = 'a' * len(axes)
    for i, c in enumerate(cs[1:]):
        have = [v for v in c.values() if v is not None]
        if a is not None and have: a = crop(a, have[0].shape)
        c = dict(c)
        if a is not None: c[k] = a
        if any(v is not None for v in c.values()): a = idwtn(c, ws, modes, axes)
    return a


def swtn(x, ws, axes, level, start=0):
    """coarsest first, each with its approximation"""
    out = []; a = conv(x); k = 'a' * len(axes)
    for i in range(start + 1, start + level + 1):
        c = swtn1(a, ws, i, axes); out.append(c); a = c[k]
    return out[::-1]


def iswtn(cs, ws, axes, approx):
    """cs: coarsest first, details only"""
    k = 'a' * len(axes); n = len(cs)
    for j, c in enumerate(cs):
        c = {q: v for q, v in c.items() if q != k}
        dt = np.result_type(approx.dt, *[v.dt for v in c.values()])
        c = {q: M.cast(v, dt) if v.dt != dt else v for q, v in c.items()}
        c[k] = M.cast(approx, dt) if approx.dt != dt else approx
        approx = iswtn1(c, ws, n - j, axes)
    return approx


def zeros_like(x): return Arr(np.zeros_like(x.a), x.dt)


def max_level(n, F):
    L = 0
    while F > 1 and n >= (F - 1) * 2 ** (L + 1): L += 1
    return L


def swt_max_level(n):
    L = 0
    while n and n % 2 == 0: n //= 2; L += 1
    return L
