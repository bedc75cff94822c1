"""Drives the abstract interpreter over the public functions in enumerated
calling contexts and compares what it derives with pyspec."""
import collections, os
import numpy as np
import npmodel as M
import terms as T
import pyinterp as P
import pyspec as R
import sinks
from npmodel import Arr, Scal, Base, Found, Unsupported
from report import Report

REPO = os.environ.get('VERIF_REPO', '/repo')
RULEPROP = {
    'element-type': ['C09', 'D01'], 'filter-precision': ['C09'], 'filter-length': ['C09'], 'buffer-size': ['C01'], 'view-bounds': ['C01'], 'filter-bounds': ['C01'],
    'null-dereference': ['C01', 'C06'], 'alias': ['C01'], 'layout': ['C01', 'G01'], 'metadata-lifetime': ['G01'], 'metadata-bounds': ['G01'], 'metadata-mismatch': ['G01'],
    'axis-unchecked': ['A01', 'G01'], 'argument-modified': ['I01'], 'uninitialised-use': ['C03'], 'imaginary-dropped': ['D01'], 'precision-dropped': ['D01'],
    'mode-range': ['O01', 'C01'], 'mode-length': ['C01', 'C02'], 'empty': ['C01'], 'double-release': ['C07'], 'wrong-release': ['C07'], 'use-after-release': ['C07'], 'integer-overflow': ['C01'],
    'no-progress': ['C02'], 'data-lifetime': ['G01']}
_asts = {}


def snap(v, seen=None, depth=0):
    """identity and content of everything reachable from an argument"""
    seen = seen if seen is not None else {}
    if isinstance(v, (bool, int, float, complex, str, bytes, type(None), slice, np.dtype, type, np.generic)): return v
    if id(v) in seen: return ('seen', seen[id(v)])
    seen[id(v)] = len(seen)
    if isinstance(v, Base): return ('arr', id(v), id(v.a), v.shape, str(v.dt))
    if isinstance(v, P.FilterPtr): return ('filter', tuple(v.cells))
    if isinstance(v, P.CStructVal): return ('struct', tuple(sorted((k, snap(x, seen, depth + 1)) for k, x in v.v.items())))
    if isinstance(v, P.StructPtr): return ('ptr', snap(v.s, seen, depth + 1))
    if isinstance(v, (list, tuple)): return (type(v).__name__, id(v), tuple(snap(x, seen, depth + 1) for x in v))
    if isinstance(v, dict): return ('dict', id(v), tuple((k, snap(x, seen, depth + 1)) for k, x in v.items()))
    if isinstance(v, (set, frozenset)): return ('set', tuple(sorted(map(str, v))))
    d = {}
    for o in (getattr(v, '__dict__', None), v.__dict__.get('%cattrs') if hasattr(v, '__dict__') else None):
        if isinstance(o, dict): d.update({k: x for k, x in o.items() if k != '%cattrs'})
    if d and depth < 8 and not isinstance(v, (P.Func, P.World, P.Module)): return (type(v).__name__, id(v), tuple(sorted((k, snap(x, seen, depth + 1)) for k, x in d.items())))
    return ('obj', id(v))


def diffsnap(a, b, where='argument'):
    if type(a) is not type(b): return '%s changes' % where
    if isinstance(a, tuple) and len(a) and isinstance(a[0], str) and a[0] in ('list', 'tuple', 'dict') and len(a) == 3:
        if a[0] != b[0] or a[1] != b[1]: return '%s is replaced by another %s' % (where, b[0] if isinstance(b[0], str) else 'object')
        if len(a[2]) != len(b[2]): return '%s has %d entries instead of %d' % (where, len(b[2]), len(a[2]))
        for i, (x, y) in enumerate(zip(a[2], b[2])):
            if a[0] == 'dict':
                if x[0] != y[0]: return '%s: key %r becomes %r' % (where, x[0], y[0])
                r = diffsnap(x[1], y[1], '%s[%r]' % (where, x[0]))
            else: r = diffsnap(x, y, '%s[%d]' % (where, i))
            if r: return r
        return None
    try: eq = a == b
    except Exception: eq = a is b
    return None if eq is True or (a != a and b != b) else '%s changes' % where


def modstate(W):
    """(module, name) -> content, for everything reachable from the module level"""
    out = {}

    def st(v, depth, seen):
        if isinstance(v, (bool, int, float, complex, str, bytes, type(None), np.dtype, np.generic, P.Lazy, P.NativeFn, P.Module)): return v if isinstance(v, (bool, int, float, complex, str, bytes, type(None))) else None
        if id(v) in seen: return 'again'
        seen = seen | {id(v)}
        if depth > 6: return type(v).__name__
        if isinstance(v, Base): return ('array', id(v), v.a.tobytes() if v.a.dtype != object else repr(v.a))
        if isinstance(v, (list, tuple)): return [st(x, depth + 1, seen) for x in v]
        if isinstance(v, (set, frozenset)): return sorted(map(repr, v))
        if isinstance(v, dict): return [(repr(k), st(x, depth + 1, seen)) for k, x in v.items()]
        if isinstance(v, P.Func): return ['function', st(list(v.defaults or ()), depth + 1, seen), st(dict(v.kwdefaults or {}), depth + 1, seen), [(k, st(x, depth + 1, seen)) for k, x in sorted(v.__dict__.items()) if k not in FUNCATTR]]
        if isinstance(v, type):
            return [(k, st(x, depth + 1, seen)) for k, x in sorted(v.__dict__.items(), key=str) if not (k.startswith('__') and k.endswith('__'))] if getattr(v, '__module__', '').startswith('pywt') or '%' in str(list(v.__dict__)) else None
        if hasattr(v, '__dict__') and not callable(v) and type(v).__module__.split('.')[0] not in ('re', 'types', 'npmodel', 'pyinterp', 'abc', 'builtins'):
            return [(k, st(x, depth + 1, seen)) for k, x in sorted(v.__dict__.items(), key=str)]
        return type(v).__name__
    for mn, m in list(W.mods.items()):
        for k, v in m.d.items():
            if k.startswith('%') or isinstance(v, P.Lazy): continue
            out[mn, k] = st(v, 0, frozenset())
    return out


FUNCATTR = ('node', 'module', 'env', 'W', '__name__', '__qualname__', 'defaults', 'kwdefaults', 'is_lambda', '__doc__', '__module__', 'cls', 'decos')


# what derives from a wavelet without transforming data
VIEWS = {'pywt.' + n for n in ('qmf', 'orthogonal_filter_bank', 'orthfilt', 'Wavelet.wavefun', 'ContinuousWavelet.wavefun', 'integrate_wavelet', 'intwave', 'central_frequency', 'centrfrq', 'scale2frequency', 'scal2frq', 'frequency2scale')}


class Skip(Exception): pass


class Suite:
    def __init__(self, tier, c99=1, part=(0, 1)):
        self.part = part; self.seq = 0
        self.rep = Report(); self.tier = tier; self.thorough = tier == 'thorough'
        self.c99 = c99; self.group = ''
        self.fns = set(); self.sites = set()
        self.npaths = 0

    def mine(self):
        """the contexts of a group are dealt out over several processes"""
        self.seq += 1
        return self.seq % self.part[1] == self.part[0]

    # ---- per path: making arguments
    def new(self, choices, fail):
        T.reset(); T.GEN[0] += 1; T.ENVS[0] = None
        c = M.Ctx(choices, fail); M.setctx(c)
        self.W = P.World(REPO, sinks.Sinks(), _asts, self.c99)
        self.live = []
        return c

    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        a = self.W.api()
        if n not in a: raise P.mark(AttributeError('pywt has no ' + n))
        return a[n]

    def mod(self, name, attr):
        m = self.W.load('pywt.' + name)
        if attr not in m.d: raise Unsupported('anchor %s.%s vanished' % (name, attr))
        return self.W.deref(m.d[attr])

    def arr(self, name, shape, dt='f8', order='C', frozen=True):
        dt = np.dtype(dt); M.C.hasdouble |= dt.newbyteorder('=').char not in 'efF'; shape = (shape,) if isinstance(shape, int) else tuple(shape)
        if dt.kind == 'c':
            a = np.empty(shape, complex)
            for i in np.ndindex(*shape): a[i] = complex(T.sym(name, *i), T.sym(name + "'", *i))
        else:
            a = np.empty(shape, float)
            for i in np.ndindex(*shape): a[i] = T.sym(name, *i)
        if order == 'F': a = np.asfortranarray(a)
        elif order == 'S':       # every other element of a larger buffer
            b = np.zeros([2 * s for s in shape], a.dtype); v = b[tuple(slice(None, None, 2) for _ in shape)]; v[...] = a; a = v
        elif order == 'N':       # negative strides
            a = a[tuple(slice(None, None, -1) for _ in shape)].copy()[tuple(slice(None, None, -1) for _ in shape)]
        r = Arr(a, dt)
        return self.freeze(r, name) if frozen else r

    def freeze(self, r, name='argument'):
        b = r.a
        while b is not None:
            b.flags.writeable = False
            M.C.owned[id(b)] = 'the argument %s' % name; M.C.keep.append(b)
            b = b.base
        self.track(r, name)
        return r

    def own(self, v, name='argument'):
        """freeze every array of a structure and remember the structure"""
        def go(x):
            if isinstance(x, Arr): 
                if x.a.flags.writeable or id(x.a) not in M.C.owned: self.freeze(x, name)
            elif isinstance(x, (list, tuple)):
                for y in x: go(y)
            elif isinstance(x, dict):
                for y in x.values(): go(y)
        go(v)
        self.track(v, name)
        return v

    def track(self, v, name='argument'): self.live.append((name, v, snap(v)))

    def wav(self, spec):
        """(object of the analysed program, reference filters)"""
        if isinstance(spec, R.Wav):
            o = self.Wavelet(spec.name, [list(spec.f[n]) for n in R.FLT])
            self.track(o, 'wavelet'); return o, spec
        return spec, R.named(spec)

    def wobj(self, spec):
        if isinstance(spec, R.Wav): return self.wav(spec)[0]
        o = self.Wavelet(spec); self.track(o, 'wavelet'); return o

    # ---- running
    def paths(self, fn, fail=None, limit=48):
        pend = [()]; n = 0
        while pend:
            pre = pend.pop(); n += 1
            if n > limit:
                self.rep.unsup.append('%s: more than %d paths' % (self.group, limit)); return
            c = self.new(pre, fail)
            try: r = ('ok', fn(self))
            except Found as e: r = ('found', e.rule, e.msg)
            except Unsupported as e: r = ('unsup', '%s [%s]' % (e, c.line()))
            except RecursionError: r = ('unsup', 'recursion')
            except Skip: r = ('skip',)
            except Exception as e:
                r = ('raise', e) if getattr(e, '_prog', False) else ('bug', e)
            self.fns |= self.W.functions; self.sites |= self.W.callsites
            self.npaths += 1
            yield c, r
            ch = [t[0] for t in c.taken]
            for i in range(len(pre), len(c.taken)):
                for alt in range(c.taken[i][0] + 1, c.taken[i][1]): pend.append(tuple(ch[:i]) + (alt,))

    def bad(self, props, kind, where, msg):
        for p in props: self.rep.bad(p, kind, where, msg)

    def events(self, c, where, label):
        for rule, w, msg in c.events:
            self.bad(RULEPROP.get(rule, ['C01']), rule, w if w != '?' else where, '%s [%s]' % (msg, label))

    def after(self, where, label):
        for name, v, s in self.live:
            d = diffsnap(s, snap(v), name)
            if d: self.bad(['I01'] + (['C08'] if name == 'wavelet' else []), 'argument-modified', where, '%s [%s]' % (d, label))

    def case(self, props, where, label, fn, ref=None, raises=False, dtype=True, aspects=None, exc=None, note=None):
        """fn(suite) calls the program; ref(suite) gives the documented result.
        props: blamed for a wrong value; raises: the call must raise."""
        if not self.mine(): return
        if where in VIEWS: props = list(props) + ['V01']
        self.rep.n('obligations'); self.rep.n('contexts of ' + self.group)
        if self.c99 == 0: label += ', without native complex support'
        for c, r in self.paths(fn):
            if r[0] == 'bug':
                if os.environ.get('VERIF_DEBUG'): raise RuntimeError('interpreter failure in %s [%s] at %s' % (where, label, c.line())) from r[1]
                self.rep.unsup.append('%s [%s]: analysis failure %r at %s' % (where, label, r[1], c.line())); continue
            if r[0] == 'skip': continue
            if r[0] == 'unsup': self.rep.unsup.append('%s [%s]: %s' % (where, label, r[1])); continue
            T.ENVS[0] = None
            if any(k[0] == 'b' for k in c.dec):      # a path taken for some data only
                T.ENVS[0] = T.meeting(c.dec)
                self.rep.n('paths for some data only')
                if not T.ENVS[0]: self.rep.n('paths no sample takes'); continue
            if r[0] == 'found':
                pp = RULEPROP.get(r[1], ['C01'])
                self.bad(pp, r[1], where, '%s (%s) [%s]' % (r[2], c.line(), label)); self.events(c, where, label); continue
            self.events(c, where, label)
            self.after(where, label)
            if raises:
                if r[0] == 'ok': self.bad(props, 'accepted', where, 'no exception although %s' % label)
                elif exc is not None and not isinstance(r[1], exc): self.bad(props, 'exception-type', where, '%s instead of %s although %s' % (type(r[1]).__name__, exc.__name__ if isinstance(exc, type) else exc, label))
                continue
            if r[0] == 'raise':
                self.bad(props, 'rejected', where, 'raises %s: %s [%s]' % (type(r[1]).__name__, str(r[1])[:160], label)); continue
            if ref is None: continue
            w = ref(self)
            for asp, msg in self.cmp(r[1], w, dtype):
                pp = (aspects or {}).get(asp)
                if pp is None: pp = {'dtype': ['D01'], 'uninitialised': ['C03'] + list(props)}.get(asp, props)
                self.bad(pp, asp, where, '%s [%s]' % (msg, label))

    def regions(self, props, where, label, fn, assigns, want, dt=None, raises=False):
        """fn's result, element by element, in every region of the symbols' values.
        assigns: [{(name, index..): value}]; want(assignment) -> documented values"""
        if not self.mine(): return
        self.rep.n('obligations'); self.rep.n('contexts of ' + self.group); self.rep.n('regions', len(assigns))
        hit = set()
        for c, r in self.paths(fn, limit=1200):
            if r[0] in ('bug', 'unsup'):
                if r[0] == 'bug' and os.environ.get('VERIF_DEBUG'): raise RuntimeError('interpreter failure in %s [%s] at %s' % (where, label, c.line())) from r[1]
                self.rep.unsup.append('%s [%s]: %s' % (where, label, r[1])); return
            if r[0] == 'found':
                self.bad(RULEPROP.get(r[1], ['C01']), r[1], where, '%s (%s) [%s]' % (r[2], c.line(), label)); continue
            self.events(c, where, label); self.after(where, label)
            if r[0] == 'ok':
                got = r[1] if isinstance(r[1], Base) else M.np_asarray(r[1])
                if dt is not None and got.dt != np.dtype(dt): self.bad(list(props) + ['D01'], 'dtype', where, 'result has element type %s instead of %s [%s]' % (got.dt, np.dtype(dt), label))
            for k, asg in enumerate(assigns):
                env = T.Env(1, {T.sym(*n): v for n, v in asg.items()})
                if any(key[0] != 'b' or any(env(i) != 0 for i in key[1]) != bool(v) for key, v in c.dec.items()): continue
                hit.add(k)
                w = want(asg)
                if r[0] != 'ok':
                    if w is not None: self.bad(props, 'rejected', where, 'raises %s: %s [%s]' % (type(r[1]).__name__, str(r[1])[:120], label))
                    continue
                if w is None: self.bad(props, 'accepted', where, 'no exception [%s]' % label); continue
                if got.size != len(w): self.bad(props, 'shape', where, 'result has %d elements instead of %d [%s]' % (got.size, len(w), label)); continue
                for j, x in enumerate(w):
                    g = [env(int(i)) for i in M.part(got, 're').ravel()[j:j + 1]] + [env(int(i)) for i in M.part(got, 'im').ravel()[j:j + 1]]
                    x = complex(x)
                    if not (T.close(g[0], x.real) and T.close(g[1], x.imag)):
                        self.bad(props, 'value', where, 'element %d is %s in the region of %s, documented: %s [%s]' % (j, complex(*g) if g[1] else g[0], ', '.join('%s=%g' % ('.'.join(map(str, n)), v) for n, v in asg.items()), x if x.imag else x.real, label)); break
        if len(hit) < len(assigns) and not raises: self.rep.unsup.append('%s [%s]: %d of %d regions are not covered by a path' % (where, label, len(assigns) - len(hit), len(assigns)))

    # ---- comparison
    tol = 1e-8

    def cmp(self, got, want, dtype=True, at='result'):
        if callable(want) and not isinstance(want, Base): return [] if want(got) else [('value', '%s is not as documented' % at)]
        if isinstance(got, P.MemView): got = got.base()
        if isinstance(want, Base):
            if not isinstance(got, Base):
                try: got = M.np_asarray(got)
                except (Unsupported, Exception): return [('structure', '%s is %s, not an array' % (at, type(got).__name__))]
            if got.shape != want.shape: return [('shape', '%s has shape %s instead of %s' % (at, got.shape, want.shape))]
            out = []
            if dtype and got.dt != want.dt: out.append(('dtype', '%s has element type %s instead of %s' % (at, got.dt, want.dt)))
            cx = got.cplx or want.cplx
            for p in (('re', 'im') if cx else ('re',)):
                for i, (x, y) in enumerate(zip(M.part(got, p).ravel(), M.part(want, p).ravel())):
                    x, y = int(x), int(y)
                    if x == y: continue
                    if x == T.UNINIT: out.append(('uninitialised', '%s: element %d is never assigned' % (at, i))); break
                    if not T.same(x, y, self.tol):
                        out.append(('value', '%s%s: element %d is %s, documented: %s' % (at, {'re': '', 'im': ' imaginary part'}[p] if cx else '', i, T.show(x)[:150], T.show(y)[:150]))); break
            return out
        if isinstance(want, dict):
            if not isinstance(got, dict): return [('structure', '%s is %s, not a dictionary' % (at, type(got).__name__))]
            if set(got) != set(want): return [('structure', '%s has keys %s instead of %s' % (at, sorted(got), sorted(want)))]
            r = []
            for k in want: r += self.cmp(got[k], want[k], dtype, '%s[%r]' % (at, k))
            return r
        if isinstance(want, (list, tuple)):
            if not isinstance(got, (list, tuple)): return [('structure', '%s is %s, not a sequence' % (at, type(got).__name__))]
            if len(got) != len(want): return [('structure', '%s has %d entries instead of %d' % (at, len(got), len(want)))]
            r = []
            for i, (g, w) in enumerate(zip(got, want)): r += self.cmp(g, w, dtype, '%s[%d]' % (at, i))
            return r
        if isinstance(got, Base) and got.size == 1 and got.isconst(): got = got.conc().item()
        if isinstance(want, float) and isinstance(got, (int, float)):
            return [] if abs(got - want) <= 1e-9 * max(1, abs(want)) else [('value', '%s is %r, documented: %r' % (at, got, want))]
        try: same = bool(got == want)
        except Exception: same = False
        return [] if same else [('value', '%s is %s, documented: %s' % (at, str(got)[:160], str(want)[:160]))]
