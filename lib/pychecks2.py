"""Further groups: packing of coefficients, predicted shapes, packet trees."""
import itertools
import numpy as np
import npmodel as M
import terms as T
import pyspec as R
import spec
from spec import MODES
from npmodel import Arr
from pychecks import W2, W4, W6, MODE, C, full, DTS


def tup2(c): return [x if isinstance(x, Arr) else (x['da'], x['ad'], x['dd']) for x in c]
def lst1(c): return [x if isinstance(x, Arr) else x['d'] for x in c]


def symcoef(s, shape, W, m, axes, L, dt):
    """coefficients of the shapes a multilevel transform gives, all elements symbolic"""
    n = [shape]
    out = []
    for _ in range(L):
        q = list(n[-1])
        for a, w, mm in zip(axes, W, m): q[a] = spec.dwt_len(q[a], w.F, mm)
        n.append(tuple(q))
    keys = [''.join(k) for k in itertools.product('ad', repeat=len(axes))]
    out = [s.arr('A', n[-1], dt)]
    for i in range(L, 0, -1): out.append({k: s.arr('D%d%s' % (i, k), n[i], dt) for k in keys[1:]})
    return out


def keyed(c):
    """sub-band -> array"""
    r = {'A': c[0]}
    for i, d in enumerate(c[1:]):
        for k, v in d.items(): r[i, k] = v
    return r


def packed(c, axes, pad, dt):
    """documented layout: a block per level, growing along the transformed axes"""
    nd = c[0].ndim; off = list(c[0].shape); place = {'A': tuple(slice(0, q) for q in off)}
    axes = [a % nd for a in axes]
    for i, d in enumerate(c[1:]):
        nxt = list(off)
        for k, v in d.items():
            sl = [slice(0, q) for q in v.shape]
            for a, l in zip(axes, k):
                if l == 'd': sl[a] = slice(off[a], off[a] + v.shape[a]); nxt[a] = off[a] + v.shape[a]
            place[i, k] = tuple(sl)
        off = nxt
    r = M.np_full(tuple(off), pad, dt); used = np.zeros(off, int)
    for k, v in keyed(c).items(): r.a[place[k]] = v.a; used[place[k]] += 1
    return r, place, int(used.min()) == 1


PACK = [((9,), (0,), 2, 'symmetric'), ((8,), (0,), 3, 'periodization'), ((7, 9), (0, 1), 2, 'symmetric'), ((8, 4), (0, 1), 2, 'periodization'),
        ((3, 6, 5), (2, 0), 1, 'zero'), ((3, 6, 5), (-1, 1), 2, 'zero'), ((4, 4, 2), (0, 1, 2), 1, 'periodization')]


def g_pack(s):
    if not s.c99: return
    P = ['L01', 'F01']
    for dt in ('f8', 'c16', 'f4'):
        for shape, axes, L, mode in PACK:
            W = full(W4 if mode != 'periodization' else W2, len(axes)); m = full(MODE[mode], len(axes))
            co = lambda s: symcoef(s, shape, W, m, axes, L, dt)
            forms = [('wavedecn', lambda c: c)] + ([('wavedec2', tup2)] if len(axes) == 2 else []) + ([('wavedec', lst1)] if len(shape) == 1 else [])
            subset = len(axes) < len(shape)
            for fmt, conv in forms:
                for explicit in ((True,) if subset else (False, True)):
                    ax = axes if explicit else None
                    lab = 'shape %s, axes %s, %d levels, %s input, %s' % (shape, ax, L, fmt, dt)
                    neg = ['A01'] if min(axes) < 0 else []
                    def run(s):
                        a, sl = s.coeffs_to_array(s.own(conv(co(s))), axes=ax)
                        return [a, len(sl)] + [[k, a[sl[0] if k == 'A' else sl[k[0] + 1][k[1]]]] for k in keyed(co(s))]
                    s.case(P + neg, 'pywt.coeffs_to_array', lab, run, lambda s: [packed(co(s), axes, 0, dt)[0], L + 1] + [[k, v] for k, v in keyed(co(s)).items()])
                    def rav(s):
                        a, sl, sh = s.ravel_coeffs(s.own(conv(co(s))), axes=ax)
                        g = lambda q, k: q[0] if k == 'A' else q[k[0] + 1][k[1]]
                        return [a.shape, a.dtype, len(sl), len(sh)] + [[k, tuple(int(x) for x in g(sh, k)), a[g(sl, k)].reshape(g(sh, k))] for k in keyed(co(s))]
                    s.case(P + neg, 'pywt.ravel_coeffs', lab, rav, lambda s: [(sum(v.size for v in keyed(co(s)).values()),), np.dtype(dt), L + 1, L + 1] + [[k, v.shape, v] for k, v in keyed(co(s)).items()])
                    if explicit and not subset: continue
                    for of, oc in forms:
                        def back(s):
                            a, sl = s.coeffs_to_array(conv(co(s)), axes=ax)
                            return s.array_to_coeffs(s.arr('q', a.shape, dt), sl, output_format=of)
                        def bref(s):
                            a, pl, _ = packed(co(s), axes, 0, dt); q = s.arr('q', a.shape, dt)
                            c = [Arr(q.a[pl['A']], q.dt)] + [{k: Arr(q.a[pl[i, k]], q.dt) for k in d} for i, d in enumerate(co(s)[1:])]
                            return oc(c)
                        s.case(P, 'pywt.array_to_coeffs', lab + ', output ' + of, back, bref)
                        def unrav(s):
                            a, sl, sh = s.ravel_coeffs(conv(co(s)), axes=ax)
                            return s.unravel_coeffs(a, sl, sh, output_format=of)
                        s.case(P, 'pywt.unravel_coeffs', lab + ', output ' + of, unrav, lambda s: oc(co(s)))
            # padding
            for pad in (None, 7.5):
                tight = [None]
                def padded(s):
                    return s.coeffs_to_array(s.own(co(s)), padding=pad, axes=axes)[0]
                fits = mode == 'periodization' or L == 1
                s.case(P if fits or pad is not None else ['L01', 'O01'], 'pywt.coeffs_to_array', 'padding %s, shape %s, axes %s, %s' % (pad, shape, axes, dt), padded, lambda s: packed(co(s), axes, pad or 0, dt)[0], raises=pad is None and not fits and len(axes) > 1)
        # stationary formats, approximation only, one level missing its type
        sw = lambda s: [s.arr('A', (4, 4), dt)] + [{k: s.arr('D%d%s' % (i, k), (4, 4), dt) for k in ('ad', 'da', 'dd')} for i in range(2)]
        for fmt, conv in (('swtn', lambda c: c), ('swt2', tup2)):
            def swr(s):
                a, sl, sh = s.ravel_coeffs(s.own(conv(sw(s))))
                return s.unravel_coeffs(a, sl, sh, output_format=fmt)
            s.case(P, 'pywt.unravel_coeffs', 'stationary format %s, %s' % (fmt, dt), swr, lambda s: conv(sw(s)))
        sw1 = lambda s: [s.arr('A', 4, dt)] + [s.arr('D%d' % i, 4, dt) for i in range(2)]
        def swr1(s):
            a, sl, sh = s.ravel_coeffs(s.own(sw1(s)))
            return s.unravel_coeffs(a, sl, sh, output_format='swt')
        s.case(P, 'pywt.unravel_coeffs', 'stationary format swt, %s' % dt, swr1, sw1)
        # the bands of a level need not have one shape
        odd = lambda s: [s.arr('A', (3, 3), dt)] + [{k: s.arr('D%d%s' % (i, k), sh, dt) for k, sh in (('ad', (3 + i, 2)), ('da', (2, 3 + 2 * i)), ('dd', (2 + i, 2)))} for i in range(2)]
        for fin, cin in (('wavedecn', lambda c: c), ('wavedec2', tup2)):
            for fmt, conv in (('wavedecn', lambda c: c), ('swtn', lambda c: c), ('wavedec2', tup2), ('swt2', tup2)):
                def odr(s):
                    a, sl, sh = s.ravel_coeffs(s.own(cin(odd(s))))
                    return s.unravel_coeffs(a, sl, sh, output_format=fmt)
                s.case(P, 'pywt.unravel_coeffs', 'bands of different shapes, %s to %s, %s' % (fin, fmt, dt), odr, lambda s: conv(odd(s)))
        one = lambda s: [s.arr('A', (3, 4), dt)]
        def only(s):
            a, sl = s.coeffs_to_array(s.own(one(s))); b, sl2, sh2 = s.ravel_coeffs(s.own(one(s)))
            return [a, s.array_to_coeffs(a, sl), s.unravel_coeffs(b, sl2, sh2)]
        s.case(P, 'pywt.coeffs_to_array', 'no details, %s' % dt, only, lambda s: [one(s)[0], one(s), one(s)])
    # element types of the parts differ: the result must hold them all
    for da, dd in (('f8', 'c16'), ('f4', 'f8'), ('f4', 'c16'), ('c8', 'f8'), ('i4', 'f8')):
        mix = lambda s: [s.arr('A', (2, 2), da)] + [{k: s.arr('D' + k, (2, 2), dd) for k in ('ad', 'da', 'dd')}]
        up = np.result_type(da, dd)
        s.case(['D01'], 'pywt.coeffs_to_array', 'approximation %s, details %s' % (da, dd), lambda s: s.coeffs_to_array(s.own(mix(s)))[0], lambda s: packed([M.cast(mix(s)[0], up), {k: M.cast(v, up) for k, v in mix(s)[1].items()}], (0, 1), 0, up)[0])
        def rv(s):
            a, sl, sh = s.ravel_coeffs(s.own(mix(s))); return s.unravel_coeffs(a, sl, sh)
        s.case(['D01'], 'pywt.ravel_coeffs', 'approximation %s, details %s' % (da, dd), rv, lambda s: [M.cast(mix(s)[0], up), {k: M.cast(v, up) for k, v in mix(s)[1].items()}])
    # what cannot be packed is refused
    hole = lambda s: [s.arr('A', (2, 2)), {'ad': s.arr('h', (2, 2)), 'da': None, 'dd': s.arr('d', (2, 2))}]
    for fn in ('coeffs_to_array', 'ravel_coeffs'):
        s.case(['L01'], 'pywt.' + fn, 'a detail array is None', lambda s: getattr(s, fn)(s.own(hole(s))), raises=True)
        s.case(['L01'], 'pywt.' + fn, 'a detail array of a 2-D tuple is None', lambda s: getattr(s, fn)(s.own(tup2(hole(s)))), raises=True)
        s.case(['L01'], 'pywt.' + fn, 'the approximation is None', lambda s: getattr(s, fn)(s.own([None, s.arr('d', 3)])), raises=True)
        s.case(['A01', 'L01'], 'pywt.' + fn, 'axes of the wrong number', lambda s: getattr(s, fn)(s.own([s.arr('A', (2, 2)), {'ad': s.arr('h', (2, 2)), 'da': s.arr('v', (2, 2)), 'dd': s.arr('d', (2, 2))}]), axes=(0,)), raises=True)
        s.case(['L01'], 'pywt.' + fn, 'a transform of some axes only and no axes given', lambda s: getattr(s, fn)(s.own([s.arr('A', (2, 2, 2)), {'ad': s.arr('h', (2, 2, 2)), 'da': s.arr('v', (2, 2, 2)), 'dd': s.arr('d', (2, 2, 2))}])), raises=True)


# ---------------------------------------------------------------- predicted shapes and lengths
def shapes_of(shape, W, m, axes, L):
    out = []; cur = tuple(shape); nd = len(shape)
    keys = [''.join(k) for k in itertools.product('ad', repeat=len(axes))]
    for _ in range(L):
        q = list(cur)
        for a, w, mm in zip(axes, W, m): q[a] = spec.dwt_len(q[a], w.F, mm)
        cur = tuple(q); out.append({k: cur for k in keys[1:]})
    out.append(cur)
    return out[::-1]


def plainshapes(r): return [tuple(int(q) for q in r[0])] + [{k: tuple(int(q) for q in v) for k, v in d.items()} for d in r[1:]]


def g_shapes(s):
    if not s.c99: return
    P = ['L02']
    for shape, axes in (((13,), None), ((13,), (0,)), ((9, 12), None), ((9, 12), (1, 0)), ((9, 12), (-1,)), ((9, 12), 1), ((3, 14, 11), (2, 1)), ((3, 14, 11), (-2, 2)), ((5, 6, 7), None), ((1, 8), (1,))):
        ax = tuple(range(len(shape))) if axes is None else (axes,) if isinstance(axes, int) else axes
        neg = ['A01'] if min(ax) < 0 else []
        for ws, ms in (((W4,), ('symmetric',)), ((W4,), ('periodization',)), ((W2, W4), ('zero', 'periodization')), ((W6, W2), ('periodization', 'reflect'))):
            if len(ws) > 1 and len(ax) != 2: continue
            W = ws * (len(ax) // len(ws)); m = [MODE[q] for q in ms * (len(ax) // len(ms))]
            prog = lambda s: (s.wobj(ws[0]) if len(ws) == 1 else [s.wobj(w) for w in ws], ms[0] if len(ms) == 1 else list(ms))
            for lev in (None, 0, 1, 2, 3):
                L = min(R.max_level(shape[a], w.F) for a, w in zip(ax, W)) if lev is None else lev
                lab = 'shape %s, axes %s, level %s, %s taps, modes %s' % (shape, axes, lev, '/'.join(str(w.F) for w in ws), '/'.join(ms))
                s.case(P + neg, 'pywt.wavedecn_shapes', lab, lambda s: plainshapes(s.wavedecn_shapes(shape, *prog(s), level=lev, axes=axes)), lambda s: shapes_of(shape, W, m, ax, L))
                if lev in (1, 3):
                    S = shapes_of(shape, W, m, ax, L); n = int(np.prod(S[0])) + sum(int(np.prod(v)) for d in S[1:] for v in d.values())
                    s.case(P, 'pywt.wavedecn_size', lab + ', from shapes', lambda s: int(s.wavedecn_size(S)), lambda s: n)
                    s.case(P, 'pywt.wavedecn_size', lab + ', from coefficients', lambda s: int(s.wavedecn_size(s.own([s.arr('A', S[0])] + [{k: s.arr('D%d%s' % (i, k), v) for k, v in d.items()} for i, d in enumerate(S[1:])]))), lambda s: n)
            s.case(P + neg, 'pywt.dwtn_max_level', 'shape %s, axes %s, %s taps' % (shape, axes, '/'.join(str(w.F) for w in ws)), lambda s: int(s.dwtn_max_level(shape, prog(s)[0], axes)), lambda s: min(R.max_level(shape[a], w.F) for a, w in zip(ax, W)))
    P = ['C10', 'L02']
    for n in (1, 2, 3, 5, 6, 7, 8, 31, 60, 1000):
        for F in (1, 2, 3, 4, 8, 20):
            s.case(P, 'pywt.dwt_max_level', '%d samples, %d taps' % (n, F), lambda s: int(s.dwt_max_level(n, F)), (lambda s: R.max_level(n, F)) if F >= 2 else None, raises=F < 2)
        for w in (W2, W4, W6): s.case(P, 'pywt.dwt_max_level', '%d samples, wavelet object of %d taps' % (n, w.F), lambda s: int(s.dwt_max_level(n, s.wobj(w))), lambda s: R.max_level(n, w.F))
    for nm, F in (('db3', 6), ('haar', 2), ('bior2.4', 10)): s.case(P, 'pywt.dwt_max_level', "60 samples, name '%s'" % nm, lambda s: int(s.dwt_max_level(60, nm)), lambda s: R.max_level(60, F))
    for m in MODES:
        for n in (1, 2, 7, 8):
            for F in (2, 4, 5, 10):
                s.case(P, 'pywt.dwt_coeff_len', '%d samples, %d taps, mode %s' % (n, F, m), lambda s: int(s.dwt_coeff_len(n, F, m)), lambda s: spec.dwt_len(n, F, MODE[m]))
            s.case(P, 'pywt.dwt_coeff_len', '%d samples, wavelet object, mode %s' % (n, m), lambda s: int(s.dwt_coeff_len(n, s.wobj(W6), m)), lambda s: spec.dwt_len(n, 6, MODE[m]))
            s.case(P, 'pywt.dwt_coeff_len', '%d samples, mode code %d' % (n, MODE[m]), lambda s: int(s.dwt_coeff_len(n, 4, MODE[m])), lambda s: spec.dwt_len(n, 4, MODE[m]))
    for bad in (-1, -5, 2.5, '7', None):
        s.case(P, 'pywt.dwt_max_level', 'data_len is %r' % (bad,), lambda s: s.dwt_max_level(bad, 4), raises=True)
        s.case(P, 'pywt.dwt_max_level', 'filter_len is %r' % (bad,), lambda s: s.dwt_max_level(8, bad), raises=True)
    # every wavelet per axis or mode per axis list must have one entry per axis
    for fn, call in (('dwtn', lambda s, w, m: s.dwtn(s.arr('x', (4, 4, 4)), w, m, axes=(0, 1))), ('wavedecn', lambda s, w, m: s.wavedecn(s.arr('x', (4, 4, 4)), w, m, level=1, axes=(0, 1))),
                     ('dwt2', lambda s, w, m: s.dwt2(s.arr('x', (4, 4, 4)), w, m, axes=(0, 1))), ('fswavedecn', lambda s, w, m: s.fswavedecn(s.arr('x', (4, 4, 4)), w, m, levels=1, axes=(0, 1))),
                     ('wavedecn_shapes', lambda s, w, m: s.wavedecn_shapes((4, 4, 4), w, m, level=1, axes=(0, 1)))):
        for k in (3, 0):
            s.case(['O01', 'F01'], 'pywt.' + fn, '%d wavelets for two axes' % k, lambda s: call(s, [s.wobj(W2)] * k, 'zero'), raises=True)
            s.case(['O01', 'F01'], 'pywt.' + fn, '%d modes for two axes' % k, lambda s: call(s, s.wobj(W2), ['zero'] * k), raises=True)


# ---------------------------------------------------------------- packet trees
GRAY = {0: [''], 1: ['a', 'd'], 2: ['aa', 'ad', 'dd', 'da'], 3: ['aaa', 'aad', 'add', 'ada', 'dda', 'ddd', 'dad', 'daa']}


class Kind:
    """one sort of packet tree: constructor and reference children / inverse"""
    def __init__(self, nm, shape, axes, mode, w, dt, default=True):
        self.nm, self.shape, self.axes, self.mode, self.w, self.dt = nm, shape, axes, mode, w, dt
        self.ax = [a % len(shape) for a in axes]
        n = len(axes)
        ks = [''.join(k) for k in itertools.product('ad', repeat=n)]
        self.part = dict(zip(('a', 'd'), ks)) if nm == 'WaveletPacket' else {'a': 'aa', 'h': 'da', 'v': 'ad', 'd': 'dd'} if nm == 'WaveletPacket2D' else {k: k for k in ks}
        self.k = 1 if nm != 'WaveletPacketND' else n
        self.order = list(self.part)

    def make(self, s, x='x', **kw):
        d = s.arr(x, self.shape, self.dt) if isinstance(x, str) else x
        a = {'axis': self.axes[0]} if self.nm == 'WaveletPacket' else {'axes': self.axes}
        a.update(kw)
        return getattr(s, self.nm)(d, s.wobj(self.w), self.mode, **a)

    def split(self, path): return [path[i:i + self.k] for i in range(0, len(path), self.k)]

    def child(self, x, p): return R.dwtn(x, full(self.w, len(self.ax)), full(MODE[self.mode], len(self.ax)), self.ax)[self.part[p]]

    def at(self, s, path):
        x = s.arr('x', self.shape, self.dt)
        for p in self.split(path): x = self.child(x, p)
        return x

    def inv(self, c, shape=None):
        r = R.idwtn({self.part[p]: v for p, v in c.items()}, full(self.w, len(self.ax)), full(MODE[self.mode], len(self.ax)), self.ax)
        return R.crop(r, shape) if shape is not None else r

    def shape_at(self, lev):
        q = list(self.shape)
        for _ in range(lev):
            for a in self.ax: q[a] = spec.dwt_len(q[a], self.w.F, MODE[self.mode])
        return tuple(q)


def tree(k, leaf, lev, path='', upto=2):
    """documented reconstruction of the node at path from leaves of depth upto"""
    if lev == upto: return leaf(path)
    c = {p: tree(k, leaf, lev + 1, path + p, upto) for p in k.order}
    c = {p: v for p, v in c.items() if v is not None}
    return k.inv(c, k.shape_at(lev)) if c else None


def KINDS(thorough):
    r = [Kind('WaveletPacket', (13,), (0,), 'symmetric', W4, 'f8'), Kind('WaveletPacket', (2, 11), (-1,), 'zero', W2, 'c16'), Kind('WaveletPacket', (13, 2), (0,), 'periodization', W4, 'f4'),
         Kind('WaveletPacket2D', (7, 6), (0, 1), 'smooth', W2, 'f8'), Kind('WaveletPacket2D', (5, 7), (-1, -2), 'periodization', W2, 'f8'), Kind('WaveletPacket2D', (5, 2, 6), (2, 0), 'symmetric', W2, 'c16'),
         Kind('WaveletPacketND', (7, 6), (0, 1), 'smooth', W2, 'f8'), Kind('WaveletPacketND', (5, 2, 6), (2, 0), 'zero', W2, 'f8'), Kind('WaveletPacketND', (3, 13), (-1,), 'periodization', W4, 'c16'), Kind('WaveletPacketND', (4, 5, 4), (0, 1, 2), 'constant', W2, 'f8')]
    return r


def tree_state(s, root):
    """every node and its data, without creating any"""
    out = []

    def go(n):
        out.append((n.path, n, n.data))
        for p in (n.PARTS if not isinstance(n.PARTS, dict) else list(n.PARTS)):
            q = n._get_node(p)
            if q is not None: go(q)
    go(root)
    return out


def same_state(a, b):
    if [x[0] for x in a] != [x[0] for x in b]: return 'nodes %s become %s' % ([x[0] for x in a], [x[0] for x in b])
    for (p, n, d), (q, m, e) in zip(a, b):
        if n is not m: return 'node %s is replaced' % p
        if d is not e: return 'the data of node %r is replaced' % (p or 'root')
    return 'unchanged'


def g_packets(s):
    P = ['P01', 'F01']; P2 = ['P01', 'L01']
    for k in KINDS(s.thorough):
        if not s.c99 and 'c' not in k.dt: continue
        L = min(R.max_level(k.shape[a], k.w.F) for a in k.ax)
        tag = '%s, axes %s, mode %s, %s' % (k.shape, k.axes, k.mode, k.dt)
        wh = 'pywt.' + k.nm
        big = len(k.part) > 4
        cx = ['F02'] if 'c' in k.dt else []
        paths = [p for p in k.order] + [p + q for p, q in zip(k.order, k.order[::-1])] + ([k.order[-1] * 2 + k.order[0]] if L >= 3 and not big else [])
        for p in paths:
            s.case(P2 + cx, wh, 'node %s, %s' % (p, tag), lambda s: (lambda n: [n.data, n.path, n.level, n.node_name, n.maxlevel])(k.make(s)[p]), lambda s: [k.at(s, p), p, len(k.split(p)), k.split(p)[-1], L], dtype=True)
        two = k.order[-1] + k.order[0]
        s.case(P, wh, 'path as tuple, %s' % tag, lambda s: k.make(s)[(k.order[-1], k.order[0])].data, lambda s: k.at(s, two))
        s.case(P, wh, 'relative path, %s' % tag, lambda s: k.make(s)[k.order[-1]][k.order[0]].data, lambda s: k.at(s, two))
        s.case(P, wh, 'two reads give the same node, %s' % tag, lambda s: (lambda t: t[two] is t[two] and t[k.order[-1]][k.order[0]] is t[two] and t[''] is t)(k.make(s)), lambda s: True)
        s.case(P, wh, 'attributes, %s' % tag, lambda s: (lambda t: [t.maxlevel, t.level, t.path, t.mode, t.is_empty, t.has_any_subnode, t.data, t.wavelet.dec_lo, t.parent])(k.make(s)),
               lambda s: [L, 0, '', k.mode, False, False, s.arr('x', k.shape, k.dt), list(k.w.f['dec_lo']), None])
        s.case(P, wh, 'children inherit, %s' % tag, lambda s: (lambda t, n: [n.mode, n.axes == t.axes, n.wavelet is t.wavelet, n.parent is t[k.order[1]], t.has_any_subnode, n.has_any_subnode])(*(lambda t: (t, t[k.order[1] + k.order[0]]))(k.make(s))),
               lambda s: [k.mode, True, True, True, True, False])
        # levels
        for lev in (0, 1, 2):
            if big and lev == 2: continue
            names = [''.join(q) for q in itertools.product(k.order, repeat=lev)]
            s.case(P2, wh + '.get_level', 'level %d, %s' % (lev, tag), lambda s: [[n.path, n.data] for n in k.make(s).get_level(lev)], lambda s: [[p, k.at(s, p)] for p in names], dtype=lev > 0)
            if k.nm == 'WaveletPacket':
                s.case(P2, wh + '.get_level', 'level %d, frequency order, %s' % (lev, tag), lambda s: [[n.path, n.data] for n in k.make(s).get_level(lev, 'freq')], lambda s: [[p, k.at(s, p)] for p in GRAY[lev]], dtype=lev > 0)
            if k.nm == 'WaveletPacket2D':
                def grid(s):
                    g = lambda path: path.replace('a', 'l').replace('d', 'h')
                    by = {}
                    for n in names: by[''.join('h' if c in 'hd' else 'l' for c in n), ''.join('h' if c in 'vd' else 'l' for c in n)] = n
                    # first letter of the pair: rows, see expand_2d_path: h -> ('h', 'l')
                    o = [p.replace('a', 'l').replace('d', 'h') for p in GRAY[lev]]
                    return [[[by[r, c], k.at(s, by[r, c])] for c in o] for r in o]
                s.case(P2, wh + '.get_level', 'level %d, frequency order, %s' % (lev, tag), lambda s: [[[n.path, n.data] for n in row] for row in k.make(s).get_level(lev, 'freq')], grid, dtype=lev > 0)
        s.case(P, wh + '.get_level', 'no decomposition, %s' % tag, lambda s: (lambda t: [len(t.get_level(1, decompose=False)), t.has_any_subnode])(k.make(s)), lambda s: [0, False])
        def some(s):
            t = k.make(s); t[two]
            return [[n.path for n in t.get_level(2, decompose=False)], [n.path for n in t.get_leaf_nodes()]]
        s.case(P, wh, 'existing nodes only, %s' % tag, some, lambda s: [[k.order[-1] + p for p in k.order], k.order[:-1] + [k.order[-1] + p for p in k.order]])
        if not big:
            s.case(P, wh + '.get_leaf_nodes', 'full depth 2, %s' % tag, lambda s: [[n.path, n.data] for n in k.make(s, maxlevel=2).get_leaf_nodes(True)], lambda s: [[a + b, k.at(s, a + b)] for a in k.order for b in k.order])
            def walked(s):
                out = []; t = k.make(s, maxlevel=2)
                t.walk(lambda n, a, b=0: (out.append((n.path, a, b)), n.level < 1)[1], (3,), {'b': 4}); r = list(out); del out[:]
                t.walk_depth(lambda n: out.append(n.path), decompose=False)
                return [r, out]
            s.case(P, wh + '.walk', tag, walked, lambda s: [[('', 3, 4)] + [(p, 3, 4) for p in k.order], k.order + ['']])
            for lev in (1, 2):
                def deep(s, how, **kw):
                    out = []; t = k.make(s, maxlevel=lev)
                    getattr(t, how)(lambda n, a=0, b=0: (out.append([n.path, a, b, n.data]), True)[1], **kw); return out
                post = lambda p, l: [q for c in (k.order if l else []) for q in post(p + c, l - 1)] + [p]
                pre = lambda p, l: [p] + [q for c in (k.order if l else []) for q in pre(p + c, l - 1)]
                for lab, kw, a, b in (('', {}, 0, 0), (', arguments', dict(args=(3,), kwargs={'b': 4}), 3, 4), (', decompose given', dict(args=(5, 6), decompose=True), 5, 6)):
                    s.case(P, wh + '.walk_depth', 'all of %d levels%s, %s' % (lev, lab, tag), lambda s: deep(s, 'walk_depth', **kw), lambda s: [[p, a, b, k.at(s, p)] for p in post('', lev)], dtype=False)
                    s.case(P, wh + '.walk', 'all of %d levels%s, %s' % (lev, lab, tag), lambda s: deep(s, 'walk', **kw), lambda s: [[p, a, b, k.at(s, p)] for p in pre('', lev)], dtype=False)
            def partly(s):
                out = []; t = k.make(s); t[two]
                t.walk_depth(lambda n: out.append(n.path), decompose=False); r = list(out); del out[:]
                t.walk(lambda n: (out.append(n.path), True)[1], decompose=False)
                return [r, out]
            s.case(P, wh + '.walk', 'existing nodes, %s' % tag, partly, lambda s: [k.order[:-1] + [k.order[-1] + p for p in k.order] + [k.order[-1], ''], [''] + k.order + [k.order[-1] + p for p in k.order]])
        s.case(P, wh + '.decompose', tag, lambda s: [[n.path, n.data] for n in k.make(s).decompose()], lambda s: [[p, k.at(s, p)] for p in k.order])
        # reconstruction
        leafs = lambda s: (lambda p: s.arr('L' + p, k.shape_at(2), k.dt))
        def setleaves(s, t):
            for a in k.order:
                for b in k.order:
                    t[a + b]
            for a in k.order:
                for b in k.order: t[a + b].data = leafs(s)(a + b)
            return t
        if not big or True:
            if big: kk = None
            def rec(s, update):
                t = k.make(s)
                if big:
                    for a in k.order: t[a]
                    for a in k.order: t[a].data = s.arr('L' + a, k.shape_at(1), k.dt)
                else: setleaves(s, t)
                st = tree_state(s, t); st2 = [x for x in st if x[0]] if update else st
                r = t.reconstruct(update=update) if update is not None else t.reconstruct()
                en = tree_state(s, t); en2 = [x for x in en if x[0]] if update is not False else en
                st2 = [x for x in st if x[0]] if update is not False else st
                return [r, same_state(st2, en2), t.data is r if update is not False else t.data]
            def rref(s, update):
                if big: r = tree(k, lambda p: s.arr('L' + p, k.shape_at(1), k.dt), 0, upto=1)
                else: r = tree(k, leafs(s), 0)
                return [r, 'unchanged', True if update is not False else s.arr('x', k.shape, k.dt)]
            for update in (False, True, None):
                s.case(P2 + cx, wh + '.reconstruct', 'update %s, %s' % ('default' if update is None else update, tag), lambda s: rec(s, update), lambda s: rref(s, update))
        if not big:
            def node(s, update):
                t = setleaves(s, k.make(s)); n = t[k.order[1]]; old = n.data
                r = n.reconstruct(update=update)
                return [r, n.data is r, n.data is old, t.data]
            for update in (False, True):
                s.case(P2, wh + '.reconstruct', 'of an inner node, update %s, %s' % (update, tag), lambda s: node(s, update), lambda s: [tree(k, leafs(s), 1, k.order[1]), update, not update, s.arr('x', k.shape, k.dt)])
        s.case(P, wh + '.reconstruct', 'without children, %s' % tag, lambda s: (lambda t: [t.reconstruct(), t.reconstruct(update=False)])(k.make(s)), lambda s: [s.arr('x', k.shape, k.dt)] * 2, dtype=False)
        for drop in k.order[:4] + ([] if big else ['rest']):
            gone = [p for p in k.order if p != k.order[1]] if drop == 'rest' else [drop]
            def dele(s):
                t = k.make(s)
                for p in k.order: t[p]
                for p in k.order: t[p].data = s.arr('L' + p, k.shape_at(1), k.dt)
                n = t[gone[0]]
                for p in gone: del t[p]
                return [t.reconstruct(update=False), n.data, n.path, t.get_subnode(gone[0], False)]
            s.case(P2, wh + '.__delitem__', 'node%s %s removed, %s' % ('s' if len(gone) > 1 else '', ' '.join(gone), tag), dele,
                   lambda s: [tree(k, lambda p: None if p in gone else s.arr('L' + p, k.shape_at(1), k.dt), 0, upto=1), s.arr('L' + gone[0], k.shape_at(1), k.dt), gone[0], None])
        # assignment
        def assign(s):
            t = k.make(s); p = k.order[1]
            t[p] = s.arr('v', k.shape_at(1), k.dt)
            q = t[k.order[0]].data           # reads a sibling: must not undo the assignment
            return [t[p].data, q, t[p].path, t[p].level, t[p][k.order[0]].data]
        s.case(P2, wh + '.__setitem__', 'one child, %s' % tag, assign, lambda s: [s.arr('v', k.shape_at(1), k.dt), k.at(s, k.order[0]), k.order[1], 1, k.child(s.arr('v', k.shape_at(1), k.dt), k.order[0])])
        def assign_node(s):
            t = k.make(s); u = k.make(s, 'y')
            t[k.order[1]] = u[k.order[1]]
            return [t[k.order[1]].data, t[k.order[1]].parent is t, u[k.order[1]].parent is u]
        def anref(s):
            x = s.arr('y', k.shape, k.dt); return [k.child(x, k.order[1]), True, True]
        s.case(P2, wh + '.__setitem__', 'a node of another tree, %s' % tag, assign_node, anref)
        def deepset(s):
            t = k.make(s); t[two] = s.arr('v', k.shape_at(2), k.dt)
            return [t[two].data, t[two].level, t.data]
        s.case(P, wh + '.__setitem__', 'a grandchild, %s' % tag, deepset, lambda s: [s.arr('v', k.shape_at(2), k.dt), 2, s.arr('x', k.shape, k.dt)])
        # the largest level of a tree without data follows from the parts it is given
        def parts(s, part, fill):
            a = {'axis': k.axes[0] % len(k.shape)} if k.nm == 'WaveletPacket' else {'axes': tuple(k.ax)}
            t = getattr(s, k.nm)(None, s.wobj(k.w), k.mode, **a); r = [t.maxlevel, t.is_empty, t.has_any_subnode]
            if fill: t[part] = s.arr('v', k.shape_at(len(k.split(part))), k.dt)
            return t, r
        for part in (k.order[0], k.order[-1]) + (() if big else (two,)):
            d = len(k.split(part)); want = d + min(R.max_level(k.shape_at(d)[a], k.w.F) for a in k.ax)
            def lev(s):
                t, r = parts(s, part, True); n = t[part]; r += [n.maxlevel, t.maxlevel, n.level, n.is_empty]
                c = n
                for _ in range(want - d): c = c[k.order[0]]
                r += [c.data, c.maxlevel, t[part + k.order[0] * (want - d)] is c]
                for q in (lambda: c.decompose(), lambda: t[part + k.order[0] * (want - d + 1)], lambda: c.__setitem__(k.order[1], 1)):
                    try: q(); r.append('no error')
                    except (ValueError, IndexError) as e: r.append('refused')
                return r
            def levref(s):
                x = s.arr('v', k.shape_at(d), k.dt)
                for _ in range(want - d): x = k.child(x, k.order[0])
                return [None, True, False, want, want, d, False, x, want, True] + ['refused'] * 3
            s.case(P, wh, 'largest level, from node %s alone, %s' % (part, tag), lev, levref)
        # built from parts only
        def fromparts(s):
            a = {'axis': k.axes[0] % len(k.shape)} if k.nm == 'WaveletPacket' else {'axes': tuple(k.ax)}
            t = getattr(s, k.nm)(None, s.wobj(k.w), k.mode, maxlevel=3, **a)
            for p in k.order: t[p] = s.arr('L' + p, k.shape_at(1), k.dt)
            r = t.reconstruct(update=False); d = t.data
            t.reconstruct()
            return [r, d, t.data, t.is_empty]
        def regrow(s):
            t = k.make(s); p = k.order[1]
            t[p].data = s.arr('v', k.shape_at(1), k.dt)
            del t[p]
            return [t[p].data, t[p].path, t[p].level]
        s.case(P, wh + '.__delitem__', 'a removed node is computed again on access, %s' % tag, regrow, lambda s: [k.at(s, k.order[1]), k.order[1], 1])
        def bare(s, deep):
            a = {'axis': k.axes[0] % len(k.shape)} if k.nm == 'WaveletPacket' else {'axes': tuple(k.ax)}
            t = getattr(s, k.nm)(None, s.wobj(k.w), k.mode, maxlevel=3, **a)
            p = k.order[1] + (k.order[2 % len(k.order)] if deep else '')
            t[p] = s.arr('v', k.shape_at(2 if deep else 1), k.dt)
            del t[p]
            return t[p]
        for deep in (False, True):
            s.case(P, wh + '.__delitem__', 'access to a removed %s of a tree without data, %s' % ('grandchild' if deep else 'child', tag), lambda s: bare(s, deep), raises=True, exc=TypeError)
        if k.nm != 'WaveletPacketND' or len(k.ax) == len(k.shape):
            s.case(P2, wh, 'assembled without data, %s' % tag, fromparts, lambda s: (lambda r: [r, None, r, False])(k.inv({p: s.arr('L' + p, k.shape_at(1), k.dt) for p in k.order})))
        # refusals
        s.case(P, wh, 'path beyond the maximum level, %s' % tag, lambda s: k.make(s, maxlevel=1)[two], raises=True, exc=IndexError)
        s.case(P, wh, 'assignment beyond the maximum level, %s' % tag, lambda s: k.make(s, maxlevel=1).__setitem__(two, s.arr('v', k.shape_at(2))), raises=True, exc=IndexError)
        s.case(P, wh, 'assignment beyond the maximum level from a child, %s' % tag, lambda s: k.make(s, maxlevel=1)[k.order[0]].__setitem__(k.order[0], s.arr('v', k.shape_at(2))), raises=True, exc=IndexError)
        s.case(P, wh, 'unknown node name, %s' % tag, lambda s: k.make(s)['x' * k.k], raises=True, exc=ValueError)
        s.case(P, wh, 'node name of the wrong type, %s' % tag, lambda s: k.make(s)[3], raises=True, exc=TypeError)
        s.case(P + ['O01'], wh + '.get_level', 'beyond the maximum level, %s' % tag, lambda s: k.make(s).get_level(L + 1), raises=True, exc=ValueError)
        s.case(P, wh + '.decompose', 'at the maximum level, %s' % tag, lambda s: k.make(s, maxlevel=0).decompose(), raises=True, exc=ValueError)
        if k.nm != 'WaveletPacketND': s.case(['O01'], wh + '.get_level', 'unknown order, %s' % tag, lambda s: k.make(s).get_level(1, 'natrual'), raises=True, exc=ValueError)
    # defaults and names
    s.case(P, 'pywt.WaveletPacket', 'defaults', lambda s: (lambda t: [t.mode, t.axes, t['d'].data])(s.WaveletPacket(s.arr('x', (2, 9)), s.wobj(W2))), lambda s: ['symmetric', 1, R.dwt(s.arr('x', (2, 9)), W2, 1, 1)[1]])
    s.case(P, 'pywt.WaveletPacket2D', 'defaults', lambda s: (lambda t: [t.mode, [a % 3 for a in t.axes], t['h'].data])(s.WaveletPacket2D(s.arr('x', (2, 4, 5)), s.wobj(W2))), lambda s: ['smooth', [1, 2], R.dwtn(s.arr('x', (2, 4, 5)), full(W2, 2), [3, 3], (1, 2))['da']])
    s.case(P, 'pywt.WaveletPacketND', 'defaults', lambda s: (lambda t: [t.mode, list(t.axes), t['ad'].data])(s.WaveletPacketND(s.arr('x', (4, 5)), s.wobj(W2))), lambda s: ['smooth', [0, 1], R.dwtn(s.arr('x', (4, 5)), full(W2, 2), [3, 3], (0, 1))['ad']])
    s.case(P, 'pywt.WaveletPacket', 'wavelet by name', lambda s: s.WaveletPacket(s.arr('x', 9), 'db2')['d'].data, lambda s: R.dwt(s.arr('x', 9), R.named('db2'), 1)[1])
    for fn, ax in (('WaveletPacket2D', (0, 0)), ('WaveletPacketND', (1, 1))):
        s.case(P + ['A01'], 'pywt.' + fn, 'repeated axes', lambda s: getattr(s, fn)(s.arr('x', (4, 4)), s.wobj(W2), axes=ax), raises=True)
    for a in (2, -3, 5): s.case(P + ['A01'], 'pywt.WaveletPacket', 'axis %d of two dimensions' % a, lambda s: s.WaveletPacket(s.arr('x', (4, 4)), s.wobj(W2), axis=a), raises=True)
    for fn in ('WaveletPacket2D', 'WaveletPacketND'):
        for a in ((0, 2), (-3, 0), (1, 7)): s.case(P + ['A01'], 'pywt.' + fn, 'axes %s of two dimensions' % (a,), lambda s: getattr(s, fn)(s.arr('x', (4, 4)), s.wobj(W2), axes=a)[{'WaveletPacket2D': 'a', 'WaveletPacketND': 'aa'}[fn]], raises=True)


GROUPS2 = {'pack': g_pack, 'shapes': g_shapes, 'packets': g_packets}
