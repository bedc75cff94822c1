"""Value numbering for array elements: hash-consed terms.

An element is an integer id of a term: a constant, an input symbol, a linear
combination, or an uninterpreted application (one output of a native transform
of one line of elements, an elementwise function, ...).  Two terms that were not
given the same number are compared by random interpretation: both are evaluated
over several random assignments of the symbols."""
import math, cmath, random
import numpy as np

TAB = []
IDX = {}
WAV = {}          # wavelet key -> filters


def reset():
    TAB.clear(); IDX.clear(); _memo.clear(); ARRKEYS.clear(); WAV.clear()
    mkterm(('c', 0.0)); mkterm(('u',))


def mkterm(t):
    i = IDX.get(t)
    if i is None:
        i = len(TAB); TAB.append(t); IDX[t] = i
    return i


ZERO, UNINIT = 0, 1
_memo = {}
ARRKEYS = {}


def const(v):
    v = float(v)
    if v == 0: return ZERO
    return mkterm(('c', v))


def isconst(i): return TAB[i][0] == 'c'
def cval(i): return TAB[i][1]
def sym(*name): return mkterm(('s',) + name)


def lin(i):
    t = TAB[i]
    if t[0] == 'c': return t[1], {}
    if t[0] == 'l': return t[1], dict(t[2])
    return 0.0, {i: 1.0}


def fromlin(c, d):
    d = {k: v for k, v in d.items() if v != 0}
    if not d: return const(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1: return k
    return mkterm(('l', float(c), tuple(sorted(d.items()))))


def add(a, b, s=1.0):
    if a == UNINIT or b == UNINIT: return UNINIT
    if b == ZERO: return a
    ca, da = lin(a); cb, db = lin(b)
    for k, v in db.items(): da[k] = da.get(k, 0.0) + s * v
    return fromlin(ca + s * cb, da)


def sub(a, b): return add(a, b, -1.0)


def scale(a, f):
    if a == UNINIT: return UNINIT
    if f == 1: return a
    c, d = lin(a)
    return fromlin(c * f, {k: v * f for k, v in d.items()})


def mul(a, b):
    if a == UNINIT or b == UNINIT: return UNINIT
    if isconst(a): return scale(b, cval(a)) if cval(a) != 0 else ZERO
    if isconst(b): return scale(a, cval(b)) if cval(b) != 0 else ZERO
    return mkterm(('m',) + tuple(sorted((a, b))))


def div(a, b):
    if a == UNINIT or b == UNINIT: return UNINIT
    if isconst(b) and cval(b) != 0:
        if isconst(a): return const(cval(a) / cval(b))
        return scale(a, 1.0 / cval(b))
    return mkterm(('q', a, b))


def fn(name, *a):
    if any(type(x) is int and x == UNINIT for x in a): return UNINIT
    return mkterm(('f', name) + a)


def has_uninit(ids): return any(i == UNINIT for i in ids)


# ---- random interpretation
def ieee_div(a, b):
    if b == 0:
        if a == 0 or a != a: return float('nan')
        return math.copysign(float('inf'), a) * math.copysign(1.0, b)
    return a / b


def total(xs):
    xs = list(xs)
    try: return math.fsum(xs)
    except (ValueError, OverflowError): return sum(xs)


def guard(f):
    def g(*a):
        if any(x != x for x in a): return float('nan')
        try: return f(*a)
        except ValueError: return float('nan')
        except OverflowError: return float('inf')
    return g


def npow(a, b):
    try: r = a ** b
    except ZeroDivisionError: return float('inf')
    return r if not isinstance(r, complex) else float('nan')


SEM = {'abs': guard(abs), 'hypot': guard(math.hypot), 'maximum': guard(max), 'minimum': guard(min), 'sqrt': guard(math.sqrt), 'exp': guard(math.exp), 'sin': guard(math.sin), 'cos': guard(math.cos),
       'log': guard(math.log), 'log2': guard(math.log2), 'sign': guard(lambda x: (x > 0) - (x < 0)), 'pow': guard(npow), 'floor': guard(math.floor), 'ceil': guard(math.ceil),
       'cmp_lt': lambda a, b: float(a < b), 'cmp_le': lambda a, b: float(a <= b), 'cmp_gt': lambda a, b: float(a > b), 'cmp_ge': lambda a, b: float(a >= b),
       'cmp_eq': lambda a, b: float(a == b), 'cmp_ne': lambda a, b: float(a != b), 'and': lambda a, b: float(bool(a) and bool(b)), 'or': lambda a, b: float(bool(a) or bool(b)),
       'and_': lambda a, b: float(bool(a) and bool(b)), 'or_': lambda a, b: float(bool(a) or bool(b)), 'not': lambda a: float(not a), 'bool': lambda a: float(bool(a)),
       'where': lambda c, a, b: a if c else b, 'any': lambda *a: float(any(a)), 'all': lambda *a: float(all(a)), 'max': guard(lambda *a: max(a)), 'min': guard(lambda *a: min(a)),
       'isnan': lambda a: float(a != a), 'isinf': lambda a: float(abs(a) == float('inf')), 'isfinite': lambda a: float(a == a and abs(a) != float('inf')), 'xor': lambda a, b: float(bool(a) != bool(b)),
       'sinh': guard(math.sinh), 'cosh': guard(math.cosh), 'norm': guard(lambda *a: math.sqrt(sum(x * x for x in a))), 'floordiv': guard(lambda a, b: a // b if b else float('nan')),
       'copysign': math.copysign, 'tan': guard(math.tan), 'tanh': guard(math.tanh), 'log10': guard(math.log10), 'exp2': guard(lambda x: 2.0 ** x), 'cbrt': guard(lambda x: math.copysign(abs(x) ** (1 / 3), x)),
       'rint': guard(lambda x: float(round(x))), 'trunc': guard(math.trunc), 'log1p': guard(math.log1p), 'expm1': guard(math.expm1), 'signbit': lambda a: float(math.copysign(1.0, a) < 0), 'fabs': guard(abs),
       'mod': guard(lambda a, b: a % b if b else float('nan')), 'int': guard(lambda a: float(int(a)))}


CALLS = {}      # numpy functions terms refer to


class Env:
    """one assignment of values to the symbols"""
    scale = 1.0
    def __init__(self, seed, fix=None): self.seed = seed; self.m = dict(fix or {})

    def __call__(self, i):
        v = self.m.get(i)
        if v is None: v = self.m[i] = self.ev(i)
        return v

    def rnd(self, key):
        return random.Random('%d|%r' % (self.seed, key)).uniform(-1, 1)

    def ev(self, i):
        t = TAB[i]; k = t[0]
        if k == 'c': return t[1]
        if k == 's': return self.rnd(t)
        if k == 'u': return float('nan')
        if k == 'l': return total([t[1]] + [c * self(j) for j, c in t[2]])
        if k == 'm': return self(t[1]) * self(t[2])
        if k == 'q': return ieee_div(self(t[1]), self(t[2]))
        if k == 'f':
            f = SEM.get(t[1])
            if f is None and t[1].startswith('round') and len(t) == 3: return float(np.round(self(t[2]), int(t[1][5:] or 0)))
            if f is not None and all(type(x) is int for x in t[2:]): return float(f(*[self(x) for x in t[2:]]))
            return self.rnd(('f', t[1], tuple(round(self(x), 9) if type(x) is int else x for x in t[2:])))
        if k == 'dwt': return self.rows(('dwt',) + t[1:4], t[5])[t[4]]
        if k == 'swt': return self.rows(('swt',) + t[1:4], t[5])[t[4]]
        if k == 'rec': return self.rows(('rec',) + t[1:3], t[4])[t[3]]
        if k == 'idwt':
            a = self.rows(('idwt', 'lo') + t[1:3], t[4]); d = self.rows(('idwt', 'hi') + t[1:3], t[5])
            return a[t[3]] + d[t[3]]
        if k in ('conv', 'fft', 'cdiv'):
            mk = t[:2] + t[4:]
            r = self.m.get(mk)
            if r is None:
                vec = lambda re, im: np.array([self(x) for x in re]) + (1j * np.array([self(x) for x in im]) if im else 0)
                if k == 'conv': r = np.convolve(vec(t[4], t[5]), vec(t[6], t[7]), t[1])
                elif k == 'cdiv':
                    with np.errstate(all='ignore'): r = vec(t[4], t[5]) / vec(t[6], t[7])
                else: r = getattr(np.fft, t[1])(vec(t[4], t[5]), t[6])
                self.m[mk] = r
            v = r[t[2]]
            return float(v.real if t[3] == 're' else v.imag)
        if k == 'n':
            mk = ('n', t[1], t[5])
            r = self.m.get(mk)
            if r is None: r = self.m[mk] = CALLS[t[1]]([self(j) for j in t[5]])
            v = complex(r[int(t[2]) if t[2] else 0].reshape(-1)[int(t[4])])
            return v.real if t[3] == 're' else v.imag
        raise KeyError(t)

    def rows(self, key, line):
        """all outputs of one line"""
        mk = (key, line)
        r = self.m.get(mk)
        if r is not None: return r
        import spec
        x = [self(j) for j in line]
        N = len(x)
        if key[0] == 'dwt':
            h = WAV[key[2]]['dec_lo' if key[1] == 'a' else 'dec_hi']; S = cached(spec.spec_dec, key[3], N, len(h))
        elif key[0] == 'swt':
            h = WAV[key[2]]['dec_lo' if key[1] == 'a' else 'dec_hi']; S = cached(spec.spec_swt, key[3], N, len(h))
        elif key[0] == 'rec':
            h = WAV[key[2]]['rec_lo' if key[1] == 'a' else 'rec_hi']; S = cached(spec.spec_rec, N, len(h))
        else:
            h = WAV[key[2]]['rec_lo' if key[1] == 'lo' else 'rec_hi']; S = cached(spec.spec_idwt, key[3], N, len(h))
        r = self.m[mk] = [total(c * h[j] * x[s] for (j, s), c in row.items()) for row in S]
        return r


_sc = {}


def cached(f, *a):
    k = (f.__name__,) + a
    if k not in _sc: _sc[k] = f(*a)
    return _sc[k]


_envs = None


def close(a, b, tol=1e-8, floor=1.0):
    if a != a or b != b: return a != a and b != b
    if a == b: return True
    if abs(a) == float('inf') or abs(b) == float('inf'): return False
    return abs(a - b) <= tol * max(floor, abs(a), abs(b))


def same(i, j, tol=1e-8):
    global _envs
    if i == j: return True
    if i == UNINIT or j == UNINIT: return False
    if _envs is None or _envs[0][0] is not TAB or _envs[0][1] != GEN[0]: _envs = ((TAB, GEN[0]), [Env(1), Env(2), Like(lambda k, r, t: 1e-9 * r, 1e-9), Like(lambda k, r, t: 1e6 * r if k % 3 else 0, 1e6)])
    for e in ENVS[0] or _envs[1]:
        a, b = e(i), e(j)
        if not close(a, b, tol, e.scale):
            if e.scale < 1 and close(a, b, tol) and (offset(i) or offset(j)): continue
            u = opaque(i) ^ opaque(j)
            if u:       # the two sides go through functions without a meaning here: nothing is decided
                import npmodel
                raise npmodel.Unsupported('comparison through ' + ', '.join(sorted(u)[:3]))
            return False
    if NANS[0] and telltale(i) != telltale(j):
        for f in KINDS[-4:]:
            e = Like(f)
            if not close(e(i), e(j), tol): return False
    return True


NANS = [True]


def telltale(i):
    """functions in the term that give an answer where an operand is not finite"""
    seen = set(); names = set(); st = [i]
    while st:
        j = st.pop()
        if type(j) is tuple: st.extend(j); continue
        if type(j) is not int or j in seen: continue
        seen.add(j); t = TAB[j]
        if t[0] in 'cs': continue
        n = t[1] if t[0] == 'f' else t[1].split()[0] if t[0] == 'n' else ''
        if n.split('.')[-1] in ('isnan', 'isfinite', 'isinf', 'nan_to_num', 'fmax', 'fmin', 'cmp_ne', 'cmp_eq', 'maximum', 'minimum', 'isneginf', 'isposinf') or n.startswith('nan'): names.add(n)
        if t[0] == 'l': st.extend(x for x, c in t[2])
        else: st.extend(x for x in t[1:] if type(x) is tuple or t[0] in 'fmq' and type(x) is int)
    return names


class Like(Env):
    """symbols take values of a given kind"""
    def __init__(self, f, scale=1.0): self.seed = 1; self.m = {}; self.f = f; self.k = 0; self.scale = scale

    def ev(self, i):
        t = TAB[i]
        if t[0] != 's': return Env.ev(self, i)
        self.k += 1
        return float(self.f(self.k, self.rnd(t), t))


KINDS = [lambda k, r, t: 1 + 1e-4 * r, lambda k, r, t: 1e-5 * r if t[1][:1] in 'dDy' else r, lambda k, r, t: 1e-5 * r if t[1][:1] in 'aAcx' else r, lambda k, r, t: 0, lambda k, r, t: 1, lambda k, r, t: -2.5, lambda k, r, t: abs(r), lambda k, r, t: -abs(r), lambda k, r, t: 1e4 * r, lambda k, r, t: k, lambda k, r, t: -k,
         lambda k, r, t: 0 if k % 2 else r, lambda k, r, t: 0 if k > 1 else r, lambda k, r, t: 0 if k == 1 else r, lambda k, r, t: round(9 * r), 
         lambda k, r, t: 0 if t[1].endswith("'") else r, lambda k, r, t: r if t[1].endswith("'") else 0, lambda k, r, t: 0 if t[1][:1] in 'dDy' else r, lambda k, r, t: 0 if t[1][:1] in 'aAcx' else r,
         lambda k, r, t: float('nan'), lambda k, r, t: float('nan') if k == 1 else r, lambda k, r, t: float('inf') if k == 1 else r, lambda k, r, t: -float('inf') if k == 1 else r]


def meeting(conds, most=3):
    """samples of the symbols for which every branch goes the recorded way; conds: {key: choice}"""
    out = []
    ok = lambda e: all(k[0] == 'b' and any(e(i) != 0 for i in k[1]) == bool(v) for k, v in conds.items())
    for e in [Env(s) for s in range(1, 9)] + [Like(f) for f in KINDS] + [Like(lambda k, r, t, q=q: q * r, q) for q in (1e-7, 1e-12, 1e-30, 1e9, 1e12)]:
        try:
            if ok(e): out.append(e)
        except (ArithmeticError, ValueError): continue
        if len(out) >= most: break
    if len(out) < most and (not out or isinstance(out[0], Like)):
        # conditions on single elements: rejection over many samples
        for s in range(9, 200):
            e = Env(s)
            if ok(e): out.append(e)
            if len(out) >= most: break
    return out


def offset(i):
    """whether a constant is added somewhere in the term"""
    seen = set(); st = [i]
    while st:
        j = st.pop()
        if type(j) is tuple: st.extend(j); continue
        if type(j) is not int or j in seen: continue
        seen.add(j); t = TAB[j]
        if t[0] == 'c' and t[1] and j == i or t[0] == 'l' and t[1]: return True
        if t[0] == 'l': st.extend(x for x, c in t[2])
        elif t[0] != 'c': st.extend(x for x in t[1:] if type(x) is tuple or t[0] in 'fmq' and type(x) is int)
    return False


ENVS = [None]       # samples used instead of the usual ones


def opaque(i):
    """names of the functions in a term that have no interpretation"""
    seen = set(); names = set(); st = [i]
    while st:
        j = st.pop()
        if type(j) is tuple: st.extend(j); continue
        if type(j) is not int or j in seen: continue
        seen.add(j)
        t = TAB[j]
        if t[0] == 'c': continue
        if t[0] == 'l': st.extend(x for x, c in t[2]); continue
        if t[0] == 'f':
            if t[1] not in SEM and not t[1].startswith('round'): names.add(t[1])
            st.extend(t[2:]); continue
        if t[0] in ('m', 'q'): st.extend(t[1:]); continue
        st.extend(x for x in t[1:] if type(x) is tuple)
    return names


GEN = [0]


def show(i, d=0):
    t = TAB[i]; k = t[0]
    if k == 'c': return '%g' % t[1]
    if k == 's': return '.'.join(str(x) for x in t[1:])
    if k == 'u': return '<uninitialised>'
    if k == 'l':
        s = ' + '.join(('%g*%s' % (c, show(j, d + 1)) if c != 1 else show(j, d + 1)) for j, c in t[2][:4])
        return '(%s%s%s)' % ('%g + ' % t[1] if t[1] else '', s, ' ...' if len(t[2]) > 4 else '')
    if d > 2: return '..'
    if k in ('dwt', 'swt'): return '%s_%s[%s,%s][%d](%s)' % (k, t[1], WAV.get(t[2], {}).get('name', t[2]), t[3], t[4], showl(t[5], d))
    if k == 'rec': return 'rec_%s[%s][%d](%s)' % (t[1], WAV.get(t[2], {}).get('name', t[2]), t[3], showl(t[4], d))
    if k == 'idwt': return 'idwt[%s,%s][%d](%s; %s)' % (WAV.get(t[1], {}).get('name', t[1]), t[2], t[3], showl(t[4], d), showl(t[5], d))
    return '%s(%s)' % (t[1] if k == 'f' else k, ','.join(show(x, d + 1) if type(x) is int else str(x)[:12] for x in t[2 if k == 'f' else 1:][:3]))


def showl(l, d): return ','.join(show(x, d + 1) for x in l[:2]) + ('..' if len(l) > 2 else '')


reset()
