"""Native entry points as seen from Cython: what each requires and returns.

The native analyses (native.py, wavtab.py) decide that the C code meets these
relations; here the callers are checked against them."""
import re, weakref
import numpy as np
import npmodel as M
import terms as T
import spec
from npmodel import Arr, Found, Unsupported
from pyinterp import (CInt, CFloat, CStructVal, CStructDef, StructPtr, Null, NULL, MetaPtr, MetaView, ElemPtr, DataPtr, FilterPtr, CellPtr, Env, NativeFn, coerce, plain, f32, ELEM, perr, INTT)

FLT = ('dec_hi', 'dec_lo', 'rec_hi', 'rec_lo')
_cache = {}


def ld1(m, p, es, nm):
    from cinterp import UNDEF
    import cinterp
    try: v = m.load(p, es, 'f', nm)
    except cinterp.Violation: return None
    return None if v is UNDEF else float(v)


def machine_wavelet(kind, code, n):
    """the struct the C constructor returns, by constant propagation (None if it returns NULL)"""
    k = (kind, code, n)
    if k in _cache: return _cache[k]
    import wavtab
    from cinterp import Machine, Ptr, UNDEF
    from native import prog, FILTERS, s32
    import cinterp
    mod = wavtab.wmod()
    m = Machine(prog(), (), limit=10 ** 6)
    try:
        if kind == 'blank': r = m.call('blank_discrete_wavelet', [n])
        else: r = m.call('%s_wavelet' % kind, [code & 0xffffffff, n & 0xffffffff])
        if r == cinterp.NULL: _cache[k] = None; return None
        out = {}
        bs = mod.structs['%struct.BaseWavelet']

        def ld(off, size, ty):
            try: v = m.load(Ptr(r.o, off), size, ty, 'field')
            except cinterp.Violation: return UNDEF
            return v
        b = {}
        b['support_width'] = ld(mod.field_offset(bs, 0), 4, 'i')
        b['symmetry'] = ld(mod.field_offset(bs, 1), 4, 'i')
        bits = ld(mod.field_offset(bs, 2), 1, 'i')
        for i, nm in enumerate(('orthogonal', 'biorthogonal', 'compact_support')):
            if type(bits) is int: b[nm] = bits >> i & 1
            elif hasattr(bits, 'u'): b[nm] = UNDEF if bits.u >> i & 1 else bits.v >> i & 1
            else: b[nm] = UNDEF
        for i, nm in ((4, 'family_name'), (5, 'short_name')):
            p = ld(mod.field_offset(bs, i), 8, 'p')
            b[nm] = None if p == cinterp.NULL else UNDEF if p is UNDEF else wavtab.cstr(p)
        out['base'] = {a: (s32(v) if type(v) is int and a not in ('family_name', 'short_name') else v) for a, v in b.items()}
        if kind == 'continuous':
            cs = mod.structs['%struct.ContinuousWavelet']
            for i, nm, ty in ((1, 'lower_bound', 'f'), (2, 'upper_bound', 'f'), (3, 'complex_cwt', 'i'), (4, 'center_frequency', 'f'), (5, 'bandwidth_frequency', 'f'), (6, 'fbsp_order', 'i')):
                out[nm] = ld(mod.field_offset(cs, i), 4, ty)
        else:
            st = mod.structs['%struct.DiscreteWavelet']
            out['dec_len'] = ld(mod.field_offset(st, 9), 8, 'i'); out['rec_len'] = ld(mod.field_offset(st, 10), 8, 'i')
            for i, nm in ((11, 'vanishing_moments_psi'), (12, 'vanishing_moments_phi')):
                v = ld(mod.field_offset(st, i), 4, 'i'); out[nm] = s32(v) if type(v) is int else v
            for i, nm in enumerate(FILTERS):
                L = out['dec_len'] if nm.startswith('dec') else out['rec_len']
                q = ld(mod.field_offset(st, 1 + i), 8, 'p'); es = 8 if nm.endswith('double') else 4
                if kind == 'blank': out[nm] = [ld1(m, Ptr(q.o, q.off + j * es), es, nm) for j in range(L)]; continue
                out[nm] = [m.load(Ptr(q.o, q.off + j * es), es, 'f', nm) for j in range(L)]
    except cinterp.Violation as e: raise Unsupported('constructor: %s' % e)
    except cinterp.Unsupported as e: raise Unsupported('constructor: %s' % e)
    _cache[k] = out
    return out


class Sinks:
    def __init__(self):
        self.last = []

    def args(self, W, fn, args):
        env = Env(W.load(fn.ns))
        out = []
        if len(args) != len(fn.cargs): raise Unsupported('%s called with %d arguments' % (fn.name, len(args)))
        for v, ct in zip(args, fn.cargs):
            if ct.ptr or ct.mv: out.append(v)
            else:
                t = W.resolve_type(ct.name, env.module)
                if isinstance(t, CStructDef): out.append(v)
                else:
                    if t not in ('float', 'double'): v = coerce(v, ct, W, env)
                    else: v = coerce(v, ct, W, env)
                    out.append(v)
        return out

    def call(self, W, fn, args):
        C = M.C
        a = self.args(W, fn, args)
        n = fn.name
        mod = fn.ns.rsplit('.', 1)[1]
        W.callsites.add((tuple(C.loc[-1][:2]) if C.loc else ('?',), n, C.loc[-1][2] if C.loc else 0))
        if mod == 'common': return self.common(n, a, fn, W)
        if mod == 'wavelet': return self.wavelet(n, a, fn, W)
        m = re.match(r'(double|float)(_complex)?_(\w+)$', n)
        if mod != 'c_wt' or not m: raise Unsupported('native function ' + n)
        ty = m.group(1) + (' complex' if m.group(2) else '')
        op = m.group(3)
        C.sinks += 1
        if op in ('gaus', 'mexh', 'morl', 'cgau', 'shan', 'fbsp', 'cmor'): return self.cwt(op, ty, a)
        C.ncalls += 1
        C.native = getattr(C, 'native', [])
        C.native.append((op, ty))
        h = getattr(self, 'k_' + op, None)
        if h is None: raise Unsupported('native function ' + n)
        if C.fail == C.ncalls:
            C.failed = '%s (%s)' % (n, C.line())
            return CInt(2 if op.endswith('_axis') else -1)
        return CInt(h(ty, *a))

    # -- lengths: decided natively by C10
    def common(self, n, a, fn, W):
        a = [int(x) for x in a]
        ret = INTT.get(fn.cret.name, (64, False))
        if n == 'dwt_buffer_length': r = spec.dwt_len(a[0], a[1], a[2]) if a[0] and a[1] else 0
        elif n == 'idwt_buffer_length': r = spec.idwt_len(a[0], a[1], a[2]); r = r if a[2] != spec.PER else 2 * a[0]
        elif n == 'reconstruction_buffer_length': r = 0 if a[0] < 1 or a[1] < 1 else 2 * a[0] + a[1] - 2
        elif n == 'swt_buffer_length': r = a[0]
        elif n == 'dwt_max_level':
            r = 0
            if a[1] > 1 and a[0] >= a[1] - 1:
                q = a[0] // (a[1] - 1); r = q.bit_length() - 1
        elif n == 'swt_max_level':
            r = 0; x = a[0]
            while x > 0 and x % 2 == 0: x //= 2; r += 1
        elif n == 'upsampling_buffer_length': raise Unsupported(n)
        else: raise Unsupported(n)
        return CInt(r, ret)

    # -- wavelet structs
    def build(self, sd, vals, W, base=True):
        s = CStructVal(sd, W)
        import cinterp
        for f, t in sd.fields.items():
            if isinstance(t, CStructDef): s.v[f] = self.build(t, vals[f], W); continue
            if f not in vals: continue
            v = vals[f]
            if v is cinterp.UNDEF: continue
            if t.ptr and t.name in ('double', 'float'):
                p = FilterPtr(v if isinstance(v, int) else len(v), 8 if t.name == 'double' else 4)
                if not isinstance(v, int): p.cells = [None if x is None else float(x) for x in v]
                s.v[f] = p
            elif t.ptr: s.v[f] = NULL if v is None else v.encode('latin-1') if isinstance(v, str) else v
            elif t.name in ('float', 'double'): s.v[f] = CFloat(v)
            else: s.v[f] = CInt(v, INTT.get(t.name, (32, True)))
        return s

    def wavelet(self, n, a, fn, W):
        C = M.C
        mod = W.load(fn.ns)
        if n == 'is_discrete_wavelet':
            import wavtab
            from cinterp import Machine
            from native import prog, s32
            k = ('isd', int(a[0]))
            if k not in _cache:
                r = Machine(prog()).call('is_discrete_wavelet', [int(a[0]) & 0xffffffff]); _cache[k] = s32(r)
            return CInt(_cache[k])
        if n in ('free_discrete_wavelet', 'free_continuous_wavelet'):
            p = a[0]
            if isinstance(p, StructPtr):
                if p.s.freed: raise Found('double-release', 'a wavelet is released twice')
                if p.s.d.name.lower().startswith('discrete') != (n == 'free_discrete_wavelet'): raise Found('wrong-release', 'a %s is released by %s' % (p.s.d.name, n))
                p.s.freed = True; object.__setattr__(p.s, 'freed', True)
            return None
        C.ncalls += 1; C.sinks += 1
        if C.fail == C.ncalls: C.failed = '%s (%s)' % (n, C.line()); return NULL
        if n == 'blank_discrete_wavelet':
            d = machine_wavelet('blank', 0, int(a[0]))
            return NULL if d is None else StructPtr(self.build(mod.d['DiscreteWavelet'], d, W))
        if n == 'discrete_wavelet':
            d = machine_wavelet('discrete', int(a[0]), int(a[1]))
            return NULL if d is None else StructPtr(self.build(mod.d['DiscreteWavelet'], d, W))
        if n == 'continuous_wavelet':
            d = machine_wavelet('continuous', int(a[0]), int(a[1]))
            return NULL if d is None else StructPtr(self.build(mod.d['ContinuousWavelet'], d, W))
        raise Unsupported(n)

    # -- arguments of the transforms
    def wav(self, p, ty):
        if isinstance(p, Null): raise Found('null-dereference', 'a null wavelet is passed to a native transform')
        s = p.s
        if s.freed: raise Found('use-after-release', 'a released wavelet is passed to a native transform')
        v = s.v
        f = {}
        for n in FLT:
            d = v.get(n + '_double'); g = v.get(n + '_float')
            if d is None or g is None: raise Unsupported('filters')
            for k, c in (('double', d), ('float', g)):
                if k == ty.split(' ')[0] and any(x is None for x in c.cells): raise Found('uninitialised-use', 'filter %s_%s is used before it is filled' % (n, k))
            if None not in d.cells and None not in g.cells and [f32(x) for x in d.cells] != g.cells and max(abs(x - y) for x, y in zip(d.cells, g.cells)) > 1e-6 * max(1.0, max(map(abs, d.cells))):
                M.C.event('filter-precision', 'the single-precision %s differs from the double-precision one' % n)
            f[n] = tuple(d.cells if ty.startswith('double') else [x if False else y for x, y in zip(g.cells, d.cells)])
        L = len(f['dec_lo'])
        if v['dec_len'] != L: M.C.event('filter-length', 'dec_len %s but %d taps' % (v['dec_len'], L))
        key = 'w%x' % (hash(tuple(f[n] for n in FLT)) & 0xffffffffff)
        if key not in T.WAV: T.WAV[key] = dict(f, name=key)
        return key, len(f['dec_lo']), len(f['rec_lo'])

    def data(self, p, ty, what, out=False):
        """-> Arr"""
        if isinstance(p, Null): return None
        if not isinstance(p, DataPtr): raise Unsupported('pointer to %s' % type(p).__name__)
        if getattr(p, 'strong', None) is not None: a = p.strong
        else: a = p.get()
        if p.elem is not None and p.elem != ty: raise Unsupported('pointer type %s passed for %s' % (p.elem, ty))
        if a.dt != ELEM[ty] or not a.dt.isnative:
            raise Found('element-type', '%s of element type %s is passed to the %s routine' % (what, a.dt, ty))
        if out:
            if not a.a.flags.writeable:
                b = a.a
                while b is not None:
                    if id(b) in M.C.owned: raise Found('argument-modified', 'a native transform writes into ' + M.C.owned[id(b)])
                    b = b.base
                raise Found('argument-modified', 'a native transform writes into read-only data')
        return a

    def line_in(self, p, n, ty, what):
        a = self.data(p, ty, what)
        if a is None: return None
        n = int(n)
        x = a.a.reshape(-1) if a.a.ndim != 1 else a.a
        if a.a.ndim != 1 and not a.a.flags.c_contiguous or a.a.ndim == 1 and a.a.size > 1 and not a.a.flags.c_contiguous:
            raise Found('layout', '%s is not contiguous but is passed as a plain pointer' % what)
        x = x[p.off:]
        if n > x.size: raise Found('buffer-size', 'length %d is passed for %s of %d elements' % (n, what, x.size))
        if n < x.size: M.C.event('buffer-size', 'length %d is passed for %s of %d elements' % (n, what, x.size))
        return x[:n]

    def line_out(self, p, n, ty):
        a = self.data(p, ty, 'output', True)
        n = int(n)
        x = a.a.reshape(-1)
        if not (a.a.flags.c_contiguous or a.a.size < 2): raise Found('layout', 'output is not contiguous but is passed as a plain pointer')
        x = x[p.off:]
        if n > x.size: raise Found('buffer-size', 'length %d is passed for an output of %d elements' % (n, x.size))
        return x[:n]

    def parts(self, x, ty):
        return [('real', tuple(int(i) for i in x.real)), ('imag', tuple(int(i) for i in x.imag))] if 'complex' in ty else [('real', tuple(int(i) for i in x))]

    def put(self, out, ty, part, ids):
        if 'complex' in ty: getattr(out, part)[:] = ids
        else: out[:] = ids

    def noalias(self, x, out):
        if x is not None and np.shares_memory(x, out): raise Found('alias', 'input and output of a native transform overlap')

    def checkin(self, ids):
        if T.UNINIT in ids: raise Found('uninitialised-use', 'uninitialised elements are transformed')

    def step(self, kind, band, key, par, line):
        self.checkin(line)
        if kind == 'dwt': n = spec.dwt_len(len(line), len(T.WAV[key]['dec_lo']), par)
        elif kind == 'swt': n = len(line)
        elif kind == 'rec':
            r = [T.mkterm(('rec', band, key, o, line)) for o in range(2 * len(line) + len(T.WAV[key]['rec_lo']) - 2)]
            if not all(T.isconst(i) for i in line): return r
            e = T.Env(1)
            return [T.const(e(i)) for i in r]
        if all(i == T.ZERO for i in line): return [T.ZERO] * n
        return [T.mkterm((kind, band, key, par, o, line)) for o in range(n)]

    def dec(self, band, ty, inp, n, w, out, m, mode):
        key, F, R = self.wav(w, ty)
        x = self.line_in(inp, n, ty, 'the input'); y = self.line_out(out, m, ty)
        if int(m) != spec.dwt_len(int(n), F, int(mode)): return -1
        self.noalias(x, y)
        mode = self.mode(mode, int(n))
        for part, ids in self.parts(x, ty): self.put(y, ty, part, self.step('dwt', band, key, mode, ids))
        return 0

    def mode(self, mode, n):
        mode = int(mode)
        if not 0 <= mode < len(spec.MODES): raise Found('mode-range', 'mode %d reaches a native transform' % mode)
        if n == 1 and spec.MODES[mode] in ('reflect', 'antireflect'): raise Found('mode-length', '%s with one sample reaches a native transform' % spec.MODES[mode])
        if n < 1: raise Found('empty', 'an empty line reaches a native transform')
        return mode

    def k_dec_a(self, ty, *a): return self.dec('a', ty, *a)
    def k_dec_d(self, ty, *a): return self.dec('d', ty, *a)

    def rec(self, band, ty, inp, n, w, out, m):
        key, F, R = self.wav(w, ty)
        x = self.line_in(inp, n, ty, 'the coefficients'); y = self.line_out(out, m, ty)
        if int(m) != 2 * int(n) + R - 2 or int(n) < 1: return -1
        if R % 2: return -3
        self.noalias(x, y)
        for part, ids in self.parts(x, ty):
            self.accumulate(y, ty, part, self.step('rec', band, key, None, ids) if any(ids) else [T.ZERO] * int(m))
        return 0

    def accumulate(self, y, ty, part, ids):
        old = getattr(y, part) if 'complex' in ty else y
        if any(int(i) == T.UNINIT for i in old): raise Found('uninitialised-use', 'a transform that accumulates is given an output that was not cleared')
        self.put(y, ty, part, [T.add(int(o), i) for o, i in zip(old, ids)])

    def k_rec_a(self, ty, *a): return self.rec('a', ty, *a)
    def k_rec_d(self, ty, *a): return self.rec('d', ty, *a)

    def idwt_line(self, key, mode, a, d, n):
        if a is None: a = (T.ZERO,) * n
        if d is None: d = (T.ZERO,) * n
        self.checkin(a); self.checkin(d)
        L = spec.idwt_len(n, len(T.WAV[key]['rec_lo']), mode)
        if not any(a) and not any(d): return [T.ZERO] * L
        return [T.mkterm(('idwt', key, mode, o, a, d)) for o in range(L)]

    def k_idwt(self, ty, pa, na, pd, nd, out, m, w, mode):
        key, F, R = self.wav(w, ty)
        xa = self.line_in(pa, na, ty, 'the approximation coefficients'); xd = self.line_in(pd, nd, ty, 'the detail coefficients'); y = self.line_out(out, m, ty)
        if xa is None and xd is None: return -1
        if xa is not None and xd is not None and int(na) != int(nd): return -1
        n = int(na) if xa is not None else int(nd)
        mode = int(mode)
        if not 0 <= mode < len(spec.MODES): raise Found('mode-range', 'mode %d reaches a native transform' % mode)
        if int(m) != spec.idwt_len(n, R, mode) or R % 2 or n < 1: return -1
        for x in (xa, xd): self.noalias(x, y)
        pa_ = self.parts(xa, ty) if xa is not None else None; pd_ = self.parts(xd, ty) if xd is not None else None
        for k, part in enumerate(('real', 'imag') if 'complex' in ty else ('real',)):
            self.accumulate(y, ty, part, self.idwt_line(key, mode, pa_ and pa_[k][1], pd_ and pd_[k][1], n))
        return 0

    def swt(self, band, ty, inp, n, w, out, m, level):
        key, F, R = self.wav(w, ty)
        x = self.line_in(inp, n, ty, 'the input'); y = self.line_out(out, m, ty)
        n = int(n); level = int(level)
        if level < 1: return -1
        if int(m) != n or n < 1: return -1
        if n % (1 << level): return -2
        self.noalias(x, y)
        for part, ids in self.parts(x, ty): self.put(y, ty, part, self.step('swt', band, key, level, ids))
        return 0

    def k_swt_a(self, ty, *a): return self.swt('a', ty, *a)
    def k_swt_d(self, ty, *a): return self.swt('d', ty, *a)

    # -- n-dimensional entry points
    def info(self, info, arr, what):
        """ArrayInfo against the array it describes"""
        s = info if isinstance(info, CStructVal) else info.s
        nd = int(s.get('ndim'))
        sh = s.get('shape'); st = s.get('strides')
        for p, nm, real in ((sh, 'shape', arr.shape), (st, 'strides', arr.strides)):
            if isinstance(p, Null) or p is None: raise Found('metadata-lifetime', '%s of the %s is a null pointer' % (nm, what))
            v = tuple(int(x) for x in p.values())
            if len(v) < nd: raise Found('metadata-bounds', '%s of the %s has %d entries, %d are announced' % (nm, what, len(v), nd))
            if nd != len(real): raise Found('metadata-mismatch', 'the %s has %d dimensions, %d are announced' % (what, len(real), nd))
            v = v[:nd]
            if v != tuple(real) and not (nm == 'strides' and all(x == y or n < 2 for x, y, n in zip(v, real, arr.shape))) and arr.a.size:
                raise Found('metadata-mismatch', '%s %s is passed for a %s whose %s is %s' % (nm, v, what, nm, tuple(real)))
        return nd

    def lines(self, arr, axis):
        return np.moveaxis(arr.a, axis, -1)

    def k_downcoef_axis(self, ty, inp, ii, out, oi, w, axis, coef, mode, level, transform):
        key, F, R = self.wav(w, ty)
        a = self.data(inp, ty, 'the input'); o = self.data(out, ty, 'the output', True)
        nd = self.info(ii, a, 'input'); no = self.info(oi, o, 'output')
        axis = int(axis)
        if nd != no: return 1
        if axis >= nd: return 2
        n = a.shape[axis]; mode = int(mode); level = int(level)
        swt = int(transform) == 1
        if not swt and int(transform) != 0: raise Found('mode-range', 'transform kind %d' % int(transform))
        want = n if swt else spec.dwt_len(n, F, mode)
        for i in range(nd):
            if o.shape[i] != (want if i == axis else a.shape[i]): return 4
        if int(coef) not in (0, 1): raise Found('mode-range', 'band %d' % int(coef))
        if a.a.size == 0: raise Unsupported('empty array')
        self.noalias(a.a, o.a)
        if swt:
            if level < 1: return 6
            if n % (1 << level): return 6
        else: mode = self.mode(mode, n)
        band = 'a' if int(coef) == 0 else 'd'
        src = self.lines(a, axis); dst = self.lines(o, axis)
        for idx in np.ndindex(*src.shape[:-1]):
            y = dst[idx]
            for part, ids in self.parts(src[idx], ty): self.put(y, ty, part, self.step('swt' if swt else 'dwt', band, key, level if swt else mode, ids))
        return 0

    def k_idwt_axis(self, ty, pa, ia, pd, id_, out, oi, w, axis, mode):
        key, F, R = self.wav(w, ty)
        a = self.data(pa, ty, 'the approximation coefficients'); d = self.data(pd, ty, 'the detail coefficients'); o = self.data(out, ty, 'the output', True)
        if a is not None and isinstance(ia, Null) or d is not None and isinstance(id_, Null) or a is None and not isinstance(ia, Null) or d is None and not isinstance(id_, Null):
            raise Found('metadata-mismatch', 'coefficient data and its description do not go together')
        if a is None and d is None: return 3
        for x, i, nm in ((a, ia, 'approximation'), (d, id_, 'detail')):
            if x is not None: self.info(i, x, nm)
        no = self.info(oi, o, 'output')
        axis = int(axis); mode = int(mode)
        if not 0 <= mode < len(spec.MODES): raise Found('mode-range', 'mode %d reaches a native transform' % mode)
        if a is not None and d is not None and a.shape != d.shape:
            if len(a.shape) != len(d.shape): return 1
            return 1
        ref = a if a is not None else d
        if len(ref.shape) != no: return 1
        if axis >= no: return 1
        n = ref.shape[axis]
        for i in range(no):
            if o.shape[i] != (spec.idwt_len(n, R, mode) if i == axis else ref.shape[i]): return 1
        if R % 2: return 2
        if o.a.size == 0: raise Unsupported('empty array')
        for x in (a, d):
            if x is not None: self.noalias(x.a, o.a)
        dst = self.lines(o, axis)
        sa = self.lines(a, axis) if a is not None else None; sd = self.lines(d, axis) if d is not None else None
        for idx in np.ndindex(*dst.shape[:-1]):
            y = dst[idx]
            qa = self.parts(sa[idx], ty) if sa is not None else None; qd = self.parts(sd[idx], ty) if sd is not None else None
            for k, part in enumerate(('real', 'imag') if 'complex' in ty else ('real',)):
                self.put(y, ty, part, self.idwt_line(key, mode, qa and qa[k][1], qd and qd[k][1], n))
        return 0

    # -- continuous wavelets
    def cwt(self, fam, ty, a):
        cx = fam in ('cgau', 'shan', 'fbsp', 'cmor')
        inp = a[0]; outs = a[1:3] if cx else a[1:2]; rest = a[3 if cx else 2:]
        n = int(rest[0]); par = tuple(float(x) for x in rest[1:])
        x = self.line_in(inp, n, ty, 'the grid')
        ids = tuple(int(i) for i in x)
        self.checkin(ids)
        ys = [self.line_out(o, n, ty) for o in outs]
        if len(ys) == 2 and np.shares_memory(ys[0], ys[1]): raise Found('alias', 'real and imaginary outputs overlap')
        for o, y in zip(outs, ys):
            if y.size != o.get().a.size - o.off: M.C.event('buffer-size', '%d of %d output samples are computed' % (y.size, o.get().a.size))
        if all(T.isconst(i) for i in ids) and all(p == p for p in par):        # the documented formula (K01 compares the native routine with it)
            import wavtab
            o = int(par[0]) if fam in ('gaus', 'cgau', 'fbsp') else 0
            B, C = par[-2:] if fam in ('shan', 'fbsp', 'cmor') else (1.0, 1.0)
            if not (fam in ('gaus', 'cgau') and not 1 <= o <= 8 or fam == 'fbsp' and o < 1 or B <= 0):
                v = [complex(wavtab.reference(fam.upper(), o, T.cval(i), B, C, o)) for i in ids]
                for k, y in enumerate(ys): y[:] = [T.const(q.imag if k else q.real) for q in v]
                return None
        for part, y in zip(('re', 'im'), ys):
            y[:] = [T.fn('psi', fam + repr(par) + part, i) for i in ids]
        return None
