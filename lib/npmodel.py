"""Abstract numpy: arrays whose elements are value numbers (terms), with real
shapes, element types, strides and aliasing."""
import math, numbers, operator
import numpy as np
import terms as T


class Unsupported(BaseException):
    """the analysis cannot follow this construct"""


class Found(BaseException):
    """a rule violation that ends the path"""
    def __init__(self, rule, msg): self.rule = rule; self.msg = msg; super().__init__(rule, msg)


class Ctx:
    """state of the path being analysed"""
    def __init__(self, choices=(), fail=None):
        self.choices = list(choices); self.taken = []; self.dec = {}
        self.events = []           # (rule, where, message)
        self.fail = fail; self.ncalls = 0; self.failed = None
        self.owned = {}            # id(base ids array) -> description
        self.keep = []
        self.loc = []              # call stack of (module, function, line)
        self.steps = 0
        self.sinks = 0
        self.warned = []
        self.hasdouble = False

    def choose(self, n, key=None):
        if key is not None and key in self.dec: return self.dec[key]
        i = len(self.taken)
        c = self.choices[i] if i < len(self.choices) else 0
        self.taken.append((c, n))
        if key is not None: self.dec[key] = c
        if len(self.taken) > 60: raise Unsupported('too many undecided branches')
        return c

    def where(self):
        for m, f, l in reversed(self.loc):
            return '%s:%s' % (m, f)
        return '?'

    def line(self): return ' > '.join('%s:%s:%d' % tuple(x) for x in self.loc[-4:])

    def event(self, rule, msg): self.events.append((rule, self.where(), '%s (%s)' % (msg, self.line())))


C = Ctx()


def setctx(c):
    global C
    C = c


NP_ATTRS = set(dir(np.ndarray)) | set(dir(np.float64))


def strip(v):
    if type(v) is not int and isinstance(v, int) and not isinstance(v, bool): return int(v)
    return v


def dt_of(x): return np.dtype(x) if not isinstance(x, np.dtype) else x


class Base:
    """shared by arrays (Arr) and scalars (Scal)"""
    __array_priority__ = 1e9

    def __array__(self, *a, **k): raise Unsupported('host numpy applied to an abstract array')
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        raise Unsupported('host ufunc %s applied to an abstract array' % ufunc)

    def __init__(self, a, dt):
        self.a = a; self.dt = dt

    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        if n in NP_ATTRS: raise Unsupported('ndarray.' + n)
        raise AttributeError("'numpy.ndarray' object has no attribute %r" % n)

    # metadata
    @property
    def shape(self): return self.a.shape
    @shape.setter
    def shape(self, v): self.a.shape = v
    @property
    def ndim(self): return self.a.ndim
    @property
    def size(self): return self.a.size
    @property
    def dtype(self): return self.dt
    @property
    def itemsize(self): return self.dt.itemsize
    @property
    def nbytes(self): return self.dt.itemsize * self.a.size
    @property
    def strides(self):
        k = self.a.itemsize
        return tuple(s * self.dt.itemsize // k for s in self.a.strides)
    @property
    def flags(self): return self.a.flags
    @property
    def base(self): return None if self.a.base is None else Arr(self.a.base, self.dt)
    @property
    def cplx(self): return self.dt.kind == 'c'
    @property
    def T(self): return Arr(self.a.T, self.dt)

    def realdt(self):
        return {'F': np.dtype('f4'), 'D': np.dtype('f8'), 'G': np.dtype('longdouble')}.get(self.dt.char, self.dt)

    @property
    def real(self): return wrap(self.a.real, self.realdt()) if self.cplx else self
    @real.setter
    def real(self, v): Arr(self.a.real if self.cplx else self.a, self.realdt())[...] = v
    @property
    def imag(self):
        if self.cplx: return wrap(self.a.imag, self.realdt())
        z = np.zeros(self.a.shape); z.flags.writeable = False
        return wrap(z, self.dt)
    @imag.setter
    def imag(self, v): Arr(self.a.imag, self.realdt())[...] = v

    # parts as integer id lists
    def ids(self): return [int(x) for x in self.a.real.ravel()] + ([int(x) for x in self.a.imag.ravel()] if self.cplx else [])
    def isconst(self): return all(T.isconst(i) for i in self.ids())

    def conc(self):
        """concrete numpy value if every element is a constant"""
        for i in self.ids():
            if not T.isconst(i):
                if i == T.UNINIT: raise Found('uninitialised-use', 'the value of an uninitialised element is used')
                raise Unsupported('concrete value of a symbolic element')
        r = np.array([T.cval(int(x)) for x in self.a.real.ravel()], dtype=float).reshape(self.a.shape)
        if self.cplx: r = r + 1j * np.array([T.cval(int(x)) for x in self.a.imag.ravel()], dtype=float).reshape(self.a.shape)
        return r.astype(self.dt)

    def one(self):
        if self.a.size != 1: raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')
        return self

    def __bool__(self):
        if self.a.size == 0: return False
        self.one()
        if self.isconst(): return bool(self.conc().reshape(-1)[0])
        return bool(C.choose(2, ('b', tuple(self.ids()))))

    def __int__(self): return int(self.conc().reshape(-1)[0]) if self.a.size == 1 else _only()
    def __float__(self): return float(self.conc().reshape(-1)[0]) if self.a.size == 1 else _only()
    def __complex__(self): return complex(self.conc().reshape(-1)[0]) if self.a.size == 1 else _only()
    def __index__(self):
        if self.dt.kind not in 'iub': raise TypeError('only integer scalar arrays can be converted to a scalar index')
        return int(self)
    def __hash__(self):
        if isinstance(self, Scal):
            if self.isconst(): return hash(self.conc().reshape(-1)[0])
            return hash(tuple(self.ids()))
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def item(self, *i):
        if i: return self[i if len(i) > 1 else i[0]].item()
        self.one()
        return self.conc().reshape(-1)[0].item() if self.isconst() else Scal(self.a.reshape(()), self.dt)

    def tolist(self):
        if self.ndim == 0: return self.item()
        return [x.tolist() for x in self]

    def astype(self, dtype, order='K', casting='unsafe', subok=True, copy=True):
        dtype = dt_of(conv_dtype(dtype))
        if not copy and dtype == self.dt and dtype.isnative == self.dt.isnative: return self
        r = cast(self, dtype)
        if r is self or r.a is self.a: r = type(self)(self.a.copy(order='K') if isinstance(self, Arr) else self.a, dtype)
        return r

    def copy(self, order='C'): return Arr(self.a.copy(order=order), self.dt)
    def __copy__(self): return Arr(self.a.copy(order='K'), self.dt)
    def __deepcopy__(self, memo): return Arr(self.a.copy(order='K'), self.dt)
    def conj(self): return conj(self)
    conjugate = conj
    def sum(self, axis=None, dtype=None, **k): return np_sum(self, axis, dtype)
    def mean(self, axis=None): return np_mean(self, axis)
    def prod(self, axis=None): return reduce_const('prod', self, axis)
    def max(self, axis=None, **k): return reduce_opaque('max', self, axis, **k)
    def min(self, axis=None, **k): return reduce_opaque('min', self, axis, **k)
    def any(self, axis=None, **k): return reduce_opaque('any', self, axis, **k)
    def all(self, axis=None, **k): return reduce_opaque('all', self, axis, **k)
    def argmax(self, axis=None): return reduce_opaque('argmax', self, axis)
    def reshape(self, *s, order='C'):
        s = s[0] if len(s) == 1 and not isinstance(s[0], int) else s
        s = tuple(int(x) for x in s) if not isinstance(s, int) else int(s)
        return Arr(self.a.reshape(s, order=order), self.dt)
    def ravel(self, order='C'): return Arr(self.a.ravel(order), self.dt)
    def flatten(self, order='C'): return Arr(self.a.flatten(order), self.dt)
    def transpose(self, *ax): return Arr(self.a.transpose(*ax), self.dt)
    def take(self, k, axis=None, **kw): return MODEL['take'](self, k, axis=axis, **kw)
    def repeat(self, n, axis=None): return MODEL['repeat'](self, n, axis=axis)
    def diagonal(self, *a): return Arr(self.a.diagonal(*[int(v) for v in a]), self.dt)
    def cumsum(self, axis=None): return np_cumsum(self, axis)
    def dot(self, o): return np_dot(self, o)
    def __matmul__(self, o): return np_dot(self, o)
    def compress(self, c, axis=None): return np_compress(c, self, axis)
    def nonzero(self): return fallback('nonzero', np.nonzero)(self)
    def std(self, *a, **k): return fallback('std', np.std)(self, *a, **k)
    def var(self, *a, **k): return fallback('var', np.var)(self, *a, **k)
    def ptp(self, *a, **k): return fallback('ptp', np.ptp)(self, *a, **k)
    def trace(self, *a, **k): return fallback('trace', np.trace)(self, *a, **k)
    def argsort(self, *a, **k): return fallback('argsort', np.argsort)(self, *a, **k)
    def cumprod(self, *a, **k): return fallback('cumprod', np.cumprod)(self, *a, **k)
    def argmin(self, axis=None): return fallback('argmin', np.argmin)(self, axis)
    def searchsorted(self, *a, **k): return fallback('searchsorted', np.searchsorted)(self, *a, **k)
    @property
    def flat(self):
        if not self.a.flags.c_contiguous: raise Unsupported('flat of a strided array')
        return self.reshape((-1,))
    @flat.setter
    def flat(self, v):
        if not self.a.flags.c_contiguous: raise Unsupported('flat of a strided array')
        self.reshape((-1,))[...] = v
    def swapaxes(self, a, b): return Arr(self.a.swapaxes(int(a), int(b)), self.dt)
    def squeeze(self, axis=None): return Arr(self.a.squeeze(axis), self.dt)
    def view(self, *a):
        if not a or a[0] is self.dt: return Arr(self.a.view(), self.dt)
        raise Unsupported('ndarray.view(dtype)')
    def fill(self, v): self[...] = v
    def clip(self, min=None, max=None, out=None):
        r = self
        if min is not None: r = arith('maximum', r, min)
        if max is not None: r = arith('minimum', r, max)
        if r is self: r = self.copy()
        if out is None: return r
        out[...] = r
        return out
    def round(self, n=0):
        if self.cplx: return symcall('round', np.round, (self, n), {})
        return elementwise(lambda i: T.fn('round%d' % n, i), self, self.dt)
    def setflags(self, write=None, **k):
        if k: raise Unsupported('ndarray.setflags')
        if write is not None:
            if write and not self.a.flags.writeable: self.writable()
            self.a.flags.writeable = bool(write)
    def put(self, k, v, mode='raise'): np_put(self, k, v)
    def newbyteorder(self, *a): raise AttributeError('newbyteorder')
    def tobytes(self): return self.conc().tobytes()
    def __contains__(self, v): return bool((self == v).any())

    def __len__(self):
        if self.ndim == 0: raise TypeError('len() of unsized object')
        return self.a.shape[0]

    def __iter__(self):
        if self.ndim == 0: raise TypeError('iteration over a 0-d array')
        return iter([self[i] for i in range(self.a.shape[0])])

    def __getitem__(self, k):
        if isinstance(k, (str, list)) and isinstance(k, str): raise IndexError('only integers, slices...')
        r = self.a[key(k)]
        if isinstance(r, np.ndarray): return Arr(r, self.dt)
        return Scal(np.asarray(r), self.dt)

    def __setitem__(self, k, v):
        self.writable()
        k = key(k)
        tgt = self.a[k]
        v = lift(v, self.dt if not isinstance(v, Base) else None)
        v = cast(v, self.dt, 'assignment')
        self.a[k] = v.a

    def writable(self):
        if not self.a.flags.writeable:
            b = self.a
            while b is not None:
                if id(b) in C.owned: raise Found('argument-modified', 'writes into ' + C.owned[id(b)])
                b = b.base
            raise ValueError('assignment destination is read-only')

    def __repr__(self): return '<%s %s %s>' % (type(self).__name__, self.dt, self.a.shape)
    def __str__(self): return '<array>' if self.a.size != 1 or not self.isconst() else str(self.conc())
    def __format__(self, s): return format(self.conc().item(), s) if self.isconst() and self.a.size == 1 else '<array>'


def _only(): raise TypeError('only length-1 arrays can be converted to Python scalars')


class Arr(Base):
    __hash__ = None
    def __hash__(self): raise TypeError("unhashable type: 'numpy.ndarray'")


class Scal(Base):
    def __round__(self, n=None):
        v = round(self.conc().reshape(-1)[0].item(), n) if n is not None else round(self.conc().reshape(-1)[0].item())
        return v if n is None else from_conc(self.dt.type(v))
    def __trunc__(self): return math.trunc(self.conc().reshape(-1)[0].item())
    def __floor__(self): return math.floor(self.conc().reshape(-1)[0].item())
    def __ceil__(self): return math.ceil(self.conc().reshape(-1)[0].item())
    def is_integer(self): return self.conc().reshape(-1)[0].item().is_integer()


numbers.Number.register(Scal)


def wrap(a, dt):
    return Arr(a, dt)


def key(k):
    if isinstance(k, tuple): return tuple(key1(x) for x in k)
    return key1(k)


def key1(k):
    if isinstance(k, Base):
        c = k.conc() if k.isconst() or k.dt.kind != 'b' else decide(k)
        if isinstance(k, Scal): return c.reshape(-1)[0]
        return c
    if isinstance(k, slice):
        f = lambda v: None if v is None else operator.index(v)
        return slice(f(k.start), f(k.stop), f(k.step))
    if isinstance(k, list): return [key1(x) for x in k]
    if isinstance(k, bool) or k is None or k is Ellipsis: return k
    if isinstance(k, int): return int(k)
    if isinstance(k, np.ndarray) or isinstance(k, np.generic): return k
    if hasattr(k, '__index__'): return operator.index(k)
    raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices')


def decide(k):
    """a symbolic mask: every element is followed both ways"""
    return np.array([bool(T.cval(int(i))) if T.isconst(int(i)) else bool(C.choose(2, ('b', (int(i),)))) for i in k.a.ravel()]).reshape(k.a.shape)


def conv_dtype(d):
    """names the analysed program uses for element types -> numpy dtype argument"""
    if isinstance(d, CTypeMark): return d.np
    return d


class CTypeMark:
    """np.float64_t and friends in Cython code"""
    def __init__(self, n): self.n = n; self.np = np.dtype(n)


def const_arr(a, dt=None):
    """concrete numpy data -> Arr"""
    a = np.asarray(a)
    if a.dtype.kind not in 'biufc': raise Unsupported('array of %s' % a.dtype)
    dt = dt or a.dtype
    if a.dtype.kind == 'c':
        r = np.empty(a.shape, complex)
        r.real = np.array([T.const(x) for x in a.real.ravel()], float).reshape(a.shape); r.imag = np.array([T.const(x) for x in a.imag.ravel()], float).reshape(a.shape)
    else:
        r = np.array([T.const(x) for x in a.ravel()], float).reshape(a.shape)
    return Arr(r, a.dtype)


def lift(x, dt=None):
    """anything array-like -> Base; dt: preferred element type for Python scalars"""
    if isinstance(x, Base): return x
    if isinstance(x, (bool, int, float, complex, np.ndarray, np.generic)):
        r = const_arr(strip(x))
        if isinstance(x, (np.generic, bool, int, float, complex)): r = Scal(r.a, r.dt)
        return r
    if hasattr(x, '__abs_array__'): return x.__abs_array__()
    if isinstance(x, (list, tuple, range)): return np_array(x)
    if x is None: raise Unsupported('array of None')
    if hasattr(x, '__array__') and not isinstance(x, type): return lift(x.__array__())
    raise Unsupported('array of %s' % type(x).__name__)


def ensure_kind(a, cplx):
    """ids in the layout of a real / complex array"""
    if cplx and a.dtype != complex: return a.astype(complex)
    if not cplx and a.dtype == complex: return a.real.copy()
    return a


NARROW = {'e': 1, 'f': 2, 'd': 3, 'g': 4, 'F': 2, 'D': 3, 'G': 4}


def cast(x, dt, how='astype'):
    dt = dt_of(dt)
    if dt.kind not in 'biufc': raise Unsupported('cast to %s' % dt)
    if x.dt == dt: return x
    if x.cplx and dt.kind != 'c' and dt.kind != 'b':
        if any(int(i) != T.ZERO for i in x.a.imag.ravel()): C.event('imaginary-dropped', '%s of complex data to %s drops the imaginary part' % (how, dt))
    if x.dt.char in NARROW and dt.char in NARROW and NARROW[dt.char] < min(NARROW[x.dt.char], 3) and not x.isconst() and C.hasdouble:
        C.event('precision-dropped', '%s of %s data to %s' % (how, x.dt, dt))
    a = ensure_kind(x.a, dt.kind == 'c')
    if dt.kind in 'iu' and x.dt.kind in 'fc':
        if x.isconst():
            a = np.array([T.const(int(T.cval(int(i)))) for i in a.real.ravel()], float).reshape(a.shape)
        else: a = emap1(lambda i: T.fn('int', i), a)
    if dt.kind == 'b' and x.dt.kind != 'b':
        if x.isconst(): return type(x)(const_arr(x.conc().astype(bool)).a, dt)
        a = emap1(lambda i: T.fn('bool', i), a.real)
    if a is x.a: a = a.copy()
    if a.dtype == float and dt.kind == 'c': a = a.astype(complex)
    return type(x)(a, dt)


def emap1(f, a):
    return np.array([f(int(i)) for i in a.ravel()], float).reshape(a.shape)


def emap2(f, a, b):
    a, b = np.broadcast_arrays(a, b)
    return np.array([f(int(i), int(j)) for i, j in zip(a.ravel(), b.ravel())], float).reshape(a.shape)


def mkres(re, im, dt, scal):
    if dt.kind == 'c':
        a = np.empty(re.shape, complex); a.real = re; a.imag = im
    else: a = np.asarray(re, float)
    return (Scal if scal and a.ndim == 0 else Arr)(a, dt)


def weak(x): return strip(x) if isinstance(x, (bool, int, float, complex)) and not isinstance(x, (np.generic,)) else None


def dummy(x):
    w = weak(x)
    if w is not None: return w
    if isinstance(x, (np.generic, np.ndarray)): return np.ones((), x.dtype)[()]
    return np.ones((), x.dt)[()]


def opdt(uf, x, y):
    with np.errstate(all='ignore'): return np.asarray(uf(dummy(x), dummy(y))).dtype


UF = {'add': np.add, 'sub': np.subtract, 'mul': np.multiply, 'truediv': np.true_divide, 'floordiv': np.floor_divide, 'mod': np.remainder, 'pow': np.power,
      'maximum': np.maximum, 'minimum': np.minimum, 'and_': np.bitwise_and, 'or_': np.bitwise_or, 'xor': np.bitwise_xor,
      'lt': np.less, 'le': np.less_equal, 'gt': np.greater, 'ge': np.greater_equal, 'eq': np.equal, 'ne': np.not_equal}


def part(x, p):
    return (x.a.real if x.cplx else x.a) if p == 're' else (x.a.imag if x.cplx else np.zeros(x.a.shape))


def arith(op, x, y):
    uf = UF[op]
    dt = opdt(uf, x, y)
    X, Y = lift(x), lift(y)
    scal = not (isinstance(X, Arr) and X.ndim or isinstance(Y, Arr) and Y.ndim)
    if X.isconst() and Y.isconst():
        with np.errstate(all='ignore'): r = uf(X.conc() if weak(x) is None else weak(x), Y.conc() if weak(y) is None else weak(y))
        return (Scal if scal else Arr)(const_arr(np.asarray(r)).a, np.asarray(r).dtype)
    cx = X.cplx or Y.cplx
    f = {'add': T.add, 'sub': T.sub, 'mul': T.mul, 'truediv': T.div}.get(op)
    if op in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
        if op in ('eq', 'ne') and cx:
            re = emap2(lambda a, b: cmpterm('eq', a, b), part(X, 're'), part(Y, 're')); im = emap2(lambda a, b: cmpterm('eq', a, b), part(X, 'im'), part(Y, 'im'))
            r = emap2(lambda a, b: T.fn('and', a, b) if not (T.isconst(a) and T.isconst(b)) else T.const(T.cval(a) and T.cval(b)), re, im)
            if op == 'ne': r = emap1(lambda a: T.fn('not', a) if not T.isconst(a) else T.const(not T.cval(a)), r)
        else: r = emap2(lambda a, b: cmpterm(op, a, b), part(X, 're'), part(Y, 're'))
        return mkres(r, None, np.dtype(bool), scal)
    if not cx:
        if f is None and op in ('and_', 'or_', 'xor') and dt.kind == 'b':
            f = lambda a, b: T.const(T.SEM[op](T.cval(a), T.cval(b))) if T.isconst(a) and T.isconst(b) else T.fn(op, a, b)
        if f is None: f = lambda a, b: T.const(float(uf(T.cval(a), T.cval(b)))) if T.isconst(a) and T.isconst(b) else T.fn(op, a, b)
        if op == 'truediv' or op not in ('add', 'sub', 'mul'): pass
        return mkres(emap2(f, X.a, Y.a), None, dt, scal)
    ar, ai, br, bi = part(X, 're'), part(X, 'im'), part(Y, 're'), part(Y, 'im')
    if op in ('add', 'sub'): return mkres(emap2(f, ar, br), emap2(f, ai, bi), dt, scal)
    if op == 'mul':
        m = T.mul
        return mkres(emap2(T.sub, emap2(m, ar, br), emap2(m, ai, bi)), emap2(T.add, emap2(m, ar, bi), emap2(m, ai, br)), dt, scal)
    if op == 'truediv' and not Y.cplx: return mkres(emap2(T.div, ar, br), emap2(T.div, ai, br), dt, scal)
    if op == 'truediv' and Y.isconst() and Y.a.size == 1: return arith('mul', x, complex(1 / Y.conc().reshape(-1)[0]))
    if op != 'truediv': raise Unsupported('complex ' + op)
    q = np.broadcast_arrays(ar, ai, br, bi); shp = q[0].shape
    g = lambda prt: np.array([T.mkterm(('cdiv', '', 0, prt, (int(a),), (int(b),), (int(c),), (int(d),))) for a, b, c, d in zip(*[z.ravel() for z in q])], float).reshape(shp)
    return mkres(g('re'), g('im'), dt, scal)


PYCMP = {'lt': operator.lt, 'le': operator.le, 'gt': operator.gt, 'ge': operator.ge, 'eq': operator.eq, 'ne': operator.ne}


def cmpterm(op, a, b):
    if T.isconst(a) and T.isconst(b): return T.const(1.0 if PYCMP[op](T.cval(a), T.cval(b)) else 0.0)
    return T.fn('cmp_' + op, a, b)


def _mk(op, swap=False):
    def m(self, other):
        if isinstance(other, (list, tuple)): other = np_array(other)
        if other is None or isinstance(other, (str, type, np.dtype)):
            if op == 'eq': return False
            if op == 'ne': return True
            raise TypeError('unsupported operand')
        if not isinstance(other, (Base, bool, int, float, complex, np.ndarray, np.generic)):
            if op in ('eq', 'ne'): return op == 'ne'
            return NotImplemented
        return arith(op, other, self) if swap else arith(op, self, other)
    return m


for _n, _o in (('add', 'add'), ('sub', 'sub'), ('mul', 'mul'), ('truediv', 'truediv'), ('floordiv', 'floordiv'), ('mod', 'mod'), ('pow', 'pow'), ('and', 'and_'), ('or', 'or_'), ('xor', 'xor')):
    setattr(Base, '__%s__' % _n, _mk(_o)); setattr(Base, '__r%s__' % _n, _mk(_o, True))

    def _i(self, other, _o=_o):
        if isinstance(self, Scal): return arith(_o, self, other)
        self.writable()
        r = arith(_o, self, other)
        if not np.can_cast(r.dt, self.dt, 'same_kind'): raise TypeError('Cannot cast ufunc output from %s to %s' % (r.dt, self.dt))
        r = cast(r, self.dt, 'in-place assignment')
        self.a[...] = r.a
        return self
    setattr(Base, '__i%s__' % _n, _i)
for _o in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'): setattr(Base, '__%s__' % _o, _mk(_o))
Base.__hash__ = Base.__dict__['__hash__'] if '__hash__' in Base.__dict__ else None


def _neg(self): return arith('mul', self, -1) if self.dt.kind != 'b' else elementwise(lambda i: T.fn('not', i), self, self.dt)


Base.__neg__ = _neg
Base.__pos__ = lambda self: self
Base.__abs__ = lambda self: np_abs(self)


def _inv(self):
    if self.dt.kind == 'b':
        return type(self)(emap1(lambda i: T.const(not T.cval(i)) if T.isconst(i) else T.fn('not', i), self.a), self.dt)
    raise Unsupported('~')


Base.__invert__ = _inv


def _hash(self):
    if isinstance(self, Scal): return hash(self.conc().item()) if self.isconst() else hash(tuple(self.ids()))
    raise TypeError("unhashable type: 'numpy.ndarray'")


Base.__hash__ = _hash; Arr.__hash__ = _hash; Scal.__hash__ = _hash


def elementwise(f, x, dt):
    if x.cplx: raise Unsupported('complex elementwise')
    return type(x)(emap1(f, x.a), dt)


def conj(x):
    x = lift(x)
    if not x.cplx: return x
    a = x.a.copy(); a.imag = emap1(lambda i: T.scale(i, -1.0), x.a.imag)
    return type(x)(a, x.dt)


def np_abs(x):
    if isinstance(x, (int, float, complex)): return abs(x)
    x = lift(x)
    if x.isconst(): return from_conc(np.abs(x.conc()), isinstance(x, Scal))
    if x.cplx: return type(x)(emap2(lambda a, b: T.fn('hypot', a, b), x.a.real, x.a.imag), x.realdt())
    return elementwise(lambda i: T.fn('abs', i), x, x.dt)


def from_conc(v, scal=None):
    """result of real numpy -> abstract"""
    if isinstance(v, np.ndarray): return const_arr(v)
    if isinstance(v, np.generic): return Scal(const_arr(v).a, v.dtype) if v.dtype.kind in 'biufc' else v
    if isinstance(v, tuple): return tuple(from_conc(x) for x in v)
    if isinstance(v, list): return [from_conc(x) for x in v]
    return v


def np_array(x, dtype=None, copy=True, **kw):
    if kw.pop('order', None) not in (None, 'K', 'C'): raise Unsupported('order=')
    ndmin = kw.pop('ndmin', 0)
    dtype = None if dtype is None else dt_of(conv_dtype(dtype))
    if isinstance(x, Base):
        if dtype is None or dtype == x.dt: r = Arr(x.a.copy(), x.dt) if copy else (x if isinstance(x, Arr) else Arr(x.a, x.dt))
        else: r = cast(Arr(x.a, x.dt), dtype, 'conversion')
    elif hasattr(x, '__abs_array__'):
        r = np_array(x.__abs_array__(), dtype, copy)
    elif isinstance(x, (list, tuple, range)):
        items = [np_array(e) if not isinstance(e, (bool, int, float, complex, str, type(None), dict)) or isinstance(e, np.generic) else strip(e) for e in x]
        if any(isinstance(e, (str, type(None), dict)) for e in items):
            raw = np.array(items, dtype=dtype)
            raise Unsupported('object array') if raw.dtype.kind not in 'biufc' else None
        if not any(isinstance(e, Base) for e in items):
            r = const_arr(np.array(items, dtype=float if not items and dtype is None else dtype))
        else:
            shp = {e.shape if isinstance(e, Base) else () for e in items}
            if len(shp) > 1: raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
            dt = dtype or np.result_type(*[e.dt if isinstance(e, Base) else np.min_scalar_type(e) if isinstance(e, complex) else np.array(e).dtype for e in items])
            items = [cast(lift(e), dt, 'conversion') for e in items]
            r = Arr(np.array([ensure_kind(e.a, dt.kind == 'c') for e in items]), dt)
        if dtype is not None: r = cast(r, dtype, 'conversion')
    elif x is None or isinstance(x, (str, dict, set)) or callable(x) or isinstance(x, type):
        v = np.array(x if not isinstance(x, (dict, set)) else None, dtype=dtype)
        if v.dtype.kind in 'biufc': r = const_arr(v)
        else: return ObjArr(v.shape, v.dtype)
    else:
        r = lift(x)
        if not isinstance(r, Arr): r = Arr(r.a, r.dt)
        if dtype is not None: r = cast(r, dtype, 'conversion')
    while r.ndim < ndmin: r = Arr(r.a[None], r.dt)
    return r


class ObjArr:
    """array of non-numeric elements: only its metadata is followed"""
    def __init__(self, shape, dt): self.shape = shape; self.dtype = dt; self.ndim = len(shape); self.size = int(np.prod(shape))
    def __getattr__(self, n): raise Unsupported('array of objects')


def np_asarray(x, dtype=None, order=None, **k):
    if order not in (None, 'K', 'A') and not (order == 'C' and isinstance(x, Base) and x.a.flags.c_contiguous):
        if order == 'C':
            r = np_array(x, dtype, copy=False); return Arr(np.ascontiguousarray(r.a), r.dt)
        raise Unsupported('order=')
    if isinstance(x, Arr) and (dtype is None or dt_of(conv_dtype(dtype)) == x.dt): return x
    return np_array(x, dtype, copy=False)


def shp(s):
    if isinstance(s, Base): s = s.conc().tolist() if s.ndim else int(s)
    if hasattr(s, 'shape_values'): s = s.shape_values()
    if isinstance(s, (tuple, list)): return tuple(operator.index(x) for x in s)
    return operator.index(s)


def alloc(v):
    def f(shape, dtype=float, order='C', **k):
        dt = dt_of(conv_dtype(dtype)) if dtype is not None else np.dtype(float)
        if dt.kind not in 'biufc': raise Unsupported('dtype %s' % dt)
        if dt.kind == 'c': a = np.full(shp(shape), complex(v, T.UNINIT if v == T.UNINIT else 0), order=order)
        else: a = np.full(shp(shape), float(v), order=order)
        return Arr(a, dt)
    return f


def alloc_like(v):
    def f(x, dtype=None, order='K', subok=True, shape=None):
        x = lift(x)
        dt = x.dt if dtype is None else dt_of(conv_dtype(dtype))
        a = np.full_like(x.a, 0, dtype=complex if dt.kind == 'c' else float, shape=None if shape is None else shp(shape))
        a[...] = complex(v, v if v == T.UNINIT else 0) if dt.kind == 'c' else v
        return Arr(a, dt)
    return f


def np_full(shape, v, dtype=None, **k):
    v = lift(v)
    r = alloc(T.ZERO)(shape, dtype if dtype is not None else v.dt)
    r[...] = v
    return r


def common(xs):
    xs = [lift(x) for x in xs]
    dt = np.result_type(*[x.dt for x in xs])
    return [cast(x, dt, 'promotion') for x in xs], dt


def np_concatenate(xs, axis=0, **k):
    if k: raise Unsupported('concatenate options')
    xs, dt = common(list(xs))
    return Arr(np.concatenate([x.a for x in xs], axis=axis), dt)


def np_stack(xs, axis=0):
    xs, dt = common(list(xs))
    return Arr(np.stack([x.a for x in xs], axis=axis), dt)


def mover(name):
    f = getattr(np, name)

    def g(x, *a, **k):
        x = lift(x)
        conv = lambda v: v.conc() if isinstance(v, Base) else int(v) if isinstance(v, int) and not isinstance(v, bool) else v
        r = f(x.a, *[conv(v) for v in a], **{kk: conv(v) for kk, v in k.items()})
        if isinstance(r, list): return [Arr(y, x.dt) for y in r]
        return Arr(np.asarray(r), x.dt)
    return g


def multi_mover(name):
    f = getattr(np, name)

    def g(xs, *a, **k):
        xs, dt = common(list(xs))
        return Arr(f([x.a for x in xs], *a, **k), dt)
    return g


def np_pad(x, width, mode='constant', **kw):
    """extension of each axis; documented semantics of numpy.pad"""
    x = np_asarray(x)
    if isinstance(width, Base): width = width.conc().tolist()
    w = np.broadcast_to(np.array([[operator.index(v) for v in (p if isinstance(p, (list, tuple)) else [p])] for p in width] if isinstance(width, (list, tuple)) and width and isinstance(width[0], (list, tuple))
                                 else ([operator.index(v) for v in width] if isinstance(width, (list, tuple)) else operator.index(width))), (x.ndim, 2)) if x.ndim else np.zeros((0, 2), int)
    if (w < 0).any(): raise ValueError("index can't contain negative values")
    if callable(mode):
        # numpy pads with zeros first and calls the function on every 1-D slice
        a = np.pad(x.a, w, mode='constant'); out = Arr(a, x.dt)
        for ax in range(x.ndim):
            v = np.moveaxis(out.a, ax, -1)
            for idx in np.ndindex(*v.shape[:-1]):
                line = Arr(v[idx], x.dt)
                r = mode(line, (int(w[ax][0]), int(w[ax][1])), ax, kw)
        return out
    if mode == 'constant':
        cv = kw.pop('constant_values', 0)
        if kw: raise Unsupported('pad options')
        if cv != 0: raise Unsupported('pad constant_values')
        return Arr(np.pad(x.a, w, mode='constant'), x.dt)
    if mode in ('edge', 'wrap', 'empty') or mode in ('symmetric', 'reflect') and kw.get('reflect_type', 'even') == 'even':
        if mode == 'empty': return Arr(np.pad(x.a, w, mode='constant', constant_values=T.UNINIT), x.dt)
        kw.pop('reflect_type', None)
        if kw: raise Unsupported('pad options')
        return Arr(np.pad(x.a, w, mode=mode), x.dt)
    if mode in ('symmetric', 'reflect') and kw.get('reflect_type') == 'odd':
        # linear: apply numpy to unit vectors to learn the combination of each output
        out = x
        for ax in range(x.ndim):
            n = out.shape[ax]
            L = np.pad(np.eye(n), [(int(w[ax][0]), int(w[ax][1])), (0, 0)], mode=mode, reflect_type='odd')
            v = np.moveaxis(out.a, ax, -1)
            res = np.zeros(v.shape[:-1] + (L.shape[0],), v.dtype)
            for idx in np.ndindex(*v.shape[:-1]):
                for o in range(L.shape[0]):
                    for prt in (('real', 'imag') if x.cplx else ('real',)):
                        s = T.ZERO
                        for k in range(n):
                            if L[o, k]: s = T.add(s, T.scale(int(getattr(v[idx], prt)[k]), L[o, k]))
                        if x.cplx: getattr(res[idx], prt)[o] = s
                        else: res[idx][o] = s
            out = Arr(np.moveaxis(res, -1, ax), x.dt)
        return Arr(np.ascontiguousarray(out.a), x.dt)
    if mode not in ('linear_ramp', 'maximum', 'mean', 'median', 'minimum'): raise ValueError("mode '%s' is not supported" % mode)
    raise Unsupported('pad mode ' + str(mode))


def np_mean(x, axis=None, dtype=None, **k):
    if k: raise Unsupported('mean options')
    x = np_asarray(x) if isinstance(x, (list, tuple)) else lift(x)
    if x.dt.kind in 'iub' and dtype is None: dtype = np.dtype(float)
    if isinstance(axis, tuple):
        n = 1
        for i, ax in enumerate(sorted((a % x.ndim for a in axis), reverse=True)): n *= x.shape[ax]; x = np_sum(x, ax, dtype)
        return x / n
    if axis is not None and not -x.ndim <= axis < x.ndim: raise np.exceptions.AxisError(axis, x.ndim)
    return np_sum(x, axis, dtype) / (x.size if axis is None else x.shape[axis])


def np_sum(x, axis=None, dtype=None, **k):
    x = lift(x)
    dt = np.ones(1, x.dt).sum().dtype if dtype is None else dt_of(dtype)
    def red(a):
        if axis is None:
            s = T.ZERO
            for i in a.ravel(): s = T.add(s, int(i))
            return np.array(float(s))
        v = np.moveaxis(a, axis, -1)
        r = np.zeros(v.shape[:-1])
        for idx in np.ndindex(*v.shape[:-1]):
            s = T.ZERO
            for i in v[idx]: s = T.add(s, int(i))
            r[idx] = s
        return r
    re = red(x.a.real)
    if x.cplx:
        a = np.empty(re.shape, complex); a.real = re; a.imag = red(x.a.imag)
    else: a = re
    return Scal(a, dt) if a.ndim == 0 else Arr(a, dt)


def reduce_opaque(name, x, axis=None, **k):
    if isinstance(x, (list, tuple)) and not any(isinstance(e, (Base, list, tuple)) for e in x): return from_conc(getattr(np, name)(np.array([strip(e) for e in x]), axis=axis))
    if not isinstance(x, (Base, list, tuple, np.ndarray, np.generic)):
        if isinstance(x, (int, float, bool)): return from_conc(getattr(np, name)(x))
        if name in ('any', 'all'): return from_conc(np.bool_(True))   # numpy wraps any other object in a 0-d array: always true
        raise Unsupported('%s of %s' % (name, type(x).__name__))
    x = lift(x)
    if x.isconst(): return from_conc(getattr(np, name)(x.conc(), axis=axis, **k))
    dt = {'any': np.dtype(bool), 'all': np.dtype(bool), 'argmax': np.dtype('i8')}.get(name, x.dt)
    if axis is not None or k or x.cplx and name in ('max', 'min'):
        if name.startswith('arg'): raise Unsupported(name + ' along an axis')
        return symcall(name, getattr(np, name), (x,), dict(k, axis=axis))
    ids = x.ids()
    if name == 'any' and any(T.isconst(i) and T.cval(i) for i in ids): return from_conc(np.bool_(True))
    if name == 'all' and any(T.isconst(i) and not T.cval(i) for i in ids): return from_conc(np.bool_(False))
    return Scal(np.array(float(T.fn(name, *ids))), dt)


def reduce_const(name, x, axis=None, **k):
    if isinstance(x, (list, tuple)): x = np_array(x)
    x = lift(x)
    if x.isconst(): return from_conc(getattr(np, name)(x.conc(), axis=axis, **k))
    return symcall(name, getattr(np, name), (x,), dict(k, axis=axis))


def np_cumsum(x, axis=None):
    x = lift(x)
    if x.isconst(): return from_conc(np.cumsum(x.conc(), axis=axis))
    if x.ndim != 1: raise Unsupported('cumsum')
    def run(a):
        s = T.ZERO; r = []
        for i in a: s = T.add(s, int(i)); r.append(s)
        return np.array(r, float)
    return mkres(run(part(x, 're')), run(part(x, 'im')) if x.cplx else None, x.dt, False)


def np_diff(x, n=1, axis=-1):
    x = lift(x)
    a = [slice(None)] * x.ndim; b = list(a)
    a[axis] = slice(1, None); b[axis] = slice(None, -1)
    return x[tuple(a)] - x[tuple(b)]


def np_where(c, *xy):
    c = lift(c)
    if not xy: return from_conc(np.where(decide(c) if c.dt.kind == 'b' and not c.isconst() else c.conc()))
    dt = opdt(np.add, *xy)
    if dt.kind == 'b': pass
    X, Y = lift(xy[0]), lift(xy[1])
    if X.cplx or Y.cplx:
        X, Y = cast(X, dt), cast(Y, dt)
    sel = lambda k, a, b: (a if T.cval(k) else b) if T.isconst(k) else a if a == b else T.fn('where', k, a, b)
    def one(pp):
        k, a, b = np.broadcast_arrays(c.a.real, part(X, pp), part(Y, pp))
        return np.array([sel(int(i), int(j), int(l)) for i, j, l in zip(k.ravel(), a.ravel(), b.ravel())], float).reshape(k.shape)
    return mkres(one('re'), one('im') if dt.kind == 'c' else None, dt, False)


def reim(x): return tuple(int(i) for i in part(x, 're').ravel()), tuple(int(i) for i in x.a.imag.ravel()) if x.cplx else ()


def np_convolve(x, y, mode='full'):
    """a bilinear map: kept as one term per output, interpreted when terms are compared"""
    X, Y = np_atleast_1d(lift(x)), np_atleast_1d(lift(y))
    if X.isconst() and Y.isconst(): return from_conc(np.convolve(X.conc(), Y.conc(), mode))
    if X.ndim != 1 or Y.ndim != 1: raise ValueError('object too deep for desired array')
    if not X.size or not Y.size: raise ValueError('v cannot be empty')
    dt = np.result_type(X.dt, Y.dt)
    n = {'full': X.size + Y.size - 1, 'same': max(X.size, Y.size), 'valid': abs(X.size - Y.size) + 1}[mode]
    a = reim(X) + reim(Y)
    re = np.array([T.UNINIT if T.has_uninit(a[0] + a[2]) else T.mkterm(('conv', mode, i, 're') + a) for i in range(n)], float)
    im = np.array([T.mkterm(('conv', mode, i, 'im') + a) for i in range(n)], float) if dt.kind == 'c' else None
    return mkres(re, im, dt, False)


def fft(name):
    def f(x, n=None, axis=-1, **k):
        if k: raise Unsupported('fft options')
        x = lift(x)
        if x.isconst(): return from_conc(getattr(np.fft, name)(x.conc(), n, axis))
        s = list(x.shape); s[axis] = int(n) if n is not None else s[axis]
        dt = np.dtype('D') if x.dt.char not in 'fFe' else np.dtype('F')
        v = np.moveaxis(x.a, axis, -1)
        re = np.zeros(v.shape[:-1] + (s[axis],)); im = re.copy()
        for idx in np.ndindex(*v.shape[:-1]):
            a = (tuple(int(i) for i in v[idx].real), tuple(int(i) for i in v[idx].imag) if x.cplx else (), s[axis])
            for o in range(s[axis]): re[idx][o] = T.mkterm(('fft', name, o, 're') + a); im[idx][o] = T.mkterm(('fft', name, o, 'im') + a)
        return mkres(np.moveaxis(re, -1, axis), np.moveaxis(im, -1, axis), dt, False)
    return f


def np_func1(name):
    uf = getattr(np, name)

    def f(x, *a, **k):
        if isinstance(x, (bool, int, float, complex)) and not a and not k: return from_conc(uf(strip(x)))
        if a or k: raise Unsupported(name + ' options')
        X = lift(x)
        if X.isconst():
            with np.errstate(all='ignore'): return from_conc(uf(X.conc()))
        with np.errstate(all='ignore'): dt = np.asarray(uf(np.ones((), X.dt))).dtype
        if X.cplx:
            pr = emap2(lambda a, b: T.fn('pair', a, b), X.a.real, X.a.imag)
            if dt.kind != 'c': return mkres(emap1(lambda i: T.fn(name, i), pr), None, dt, isinstance(X, Scal))
            return mkres(emap1(lambda i: T.fn(name + '.re', i), pr), emap1(lambda i: T.fn(name + '.im', i), pr), dt, isinstance(X, Scal))
        return type(X)(emap1(lambda i: T.fn(name, i), X.a), dt)
    return f


def func2(name, x, y):
    X, Y = lift(x), lift(y)
    if X.cplx or Y.cplx: raise TypeError("ufunc '%s' not supported for the input types" % name)
    dt = opdt(getattr(np, name), x, y)
    return mkres(emap2(lambda a, b: T.fn(name, a, b) if not (T.isconst(a) and T.isconst(b)) else T.const(float(getattr(np, name)(T.cval(a), T.cval(b)))), X.a, Y.a), None, dt, not (X.ndim or Y.ndim))


def np_binary(op):
    def f(x, y):
        return arith(op, x if not isinstance(x, (list, tuple)) else np_array(x), y if not isinstance(y, (list, tuple)) else np_array(y))
    return f


def np_result_type(*a):
    b = []
    for x in a:
        if isinstance(x, Arr): b.append(x.dt)
        elif isinstance(x, Scal): b.append(x.dt)
        elif isinstance(x, (list, tuple)): b.append(np_array(x).dt)
        else: b.append(strip(conv_dtype(x)))
    return np.result_type(*b)


def np_isscalar(x): return isinstance(x, Scal) or (not isinstance(x, Base) and np.isscalar(strip(x)))
def np_iscomplexobj(x):
    if isinstance(x, Base): return x.cplx
    if hasattr(x, 'dtype'): return np.dtype(x.dtype).kind == 'c'
    if isinstance(x, complex): return True
    return np_asarray(x).cplx if isinstance(x, (list, tuple)) else False
def np_real(x): return lift(x).real if not hasattr(x, 'real') or isinstance(x, (list, tuple)) else x.real
def np_imag(x): return lift(x).imag if not hasattr(x, 'imag') or isinstance(x, (list, tuple)) else x.imag
def np_ndim(x): return lift(x).ndim if not hasattr(x, 'ndim') else x.ndim
def np_size(x, axis=None): return (x if hasattr(x, 'size') else lift(x)).size if axis is None else lift(x).shape[axis]
def np_shape(x): return lift(x).shape if not hasattr(x, 'shape') else x.shape


def np_atleast_1d(x):
    x = np_asarray(x)
    return x if x.ndim else Arr(x.a.reshape(1), x.dt)


def np_linspace(a, b, num=50, endpoint=True, dtype=None, **k):
    if k: raise Unsupported('linspace options')
    g = lambda v: v.conc().reshape(-1)[0].item() if isinstance(v, Base) else v
    return const_arr(np.linspace(g(a), g(b), int(num), endpoint=bool(endpoint), dtype=conv_dtype(dtype)))


def np_arange(*a, **k):
    g = lambda v: v.conc().reshape(-1)[0] if isinstance(v, Base) else strip(v)
    return const_arr(np.arange(*[g(x) for x in a], **{n: conv_dtype(g(v)) if n == 'dtype' else g(v) for n, v in k.items()}))


def np_norm(x, *a, **k):
    x = lift(x)
    if x.isconst(): return from_conc(np.linalg.norm(x.conc(), *a, **k))
    if a or k: raise Unsupported('norm options')
    return Scal(np.array(float(T.fn('norm', *x.ids()))), x.realdt() if x.dt.kind in 'fc' else np.dtype(float))


def np_copyto(dst, src, casting='same_kind', where=True):
    if not isinstance(dst, Arr): raise TypeError('copyto() argument 1 must be numpy.ndarray')
    sd = lift(np_asarray(src) if isinstance(src, (list, tuple)) else src).dt
    if isinstance(src, Base) and not np.can_cast(sd, dst.dt, casting): raise TypeError('Cannot cast array data from %s to %s' % (sd, dst.dt))
    dst[...] = src if where is True else np_where(where, src, dst)


def np_putmask(x, mask, v):
    if not isinstance(x, Arr): raise TypeError('argument 1 must be numpy.ndarray')
    m = np_asarray(mask); v = lift(v)
    if m.shape != x.shape: raise ValueError('putmask: mask and data must be the same size')
    x[m] = v if v.size == 1 else np_resize(v, x.shape)[m]


def np_place(x, mask, v):
    if not isinstance(x, Arr): raise TypeError('argument 1 must be numpy.ndarray')
    m = np_asarray(mask); n = len(x[m])
    if n: x[m] = np_resize(lift(v), (n,))


def np_put(x, k, v, mode='raise'):
    if not isinstance(x, Arr): raise TypeError('argument 1 must be numpy.ndarray')
    k = np_asarray(k).conc().astype(np.intp).ravel(); n = x.size; v = lift(v)
    x.writable()
    for j, i in enumerate(k): x[np.unravel_index(i if i >= 0 else i + n, x.shape) if -n <= i < n else (n,) * x.ndim] = v.ravel()[j % v.size] if v.ndim else v


def np_resize(v, shape): return MODEL['resize'](v, shape)


def symcall(name, f, a, k):
    """a pure numpy function of symbolic data: its result's shape and type are those it has for two
    samples of the operands, its elements are terms that mean `that element of the function's result`"""
    ids = []

    def tpl(v):
        if isinstance(v, Base):
            if isinstance(v, Scal) and v.isconst(): return ('k', v.conc().reshape(-1)[0])
            if v.dt.kind not in 'bfc' and not v.isconst(): raise Unsupported('numpy.%s on symbolic integers' % name)
            re = [int(i) for i in part(v, 're').ravel()]; im = [int(i) for i in part(v, 'im').ravel()] if v.cplx else []
            if T.has_uninit(re + im): raise Unsupported('numpy.%s on uninitialised data' % name)
            ids.extend(re + im)
            return ('a', v.dt.str, v.shape, isinstance(v, Scal))
        if isinstance(v, (list, tuple)): return ('l' if isinstance(v, list) else 't',) + tuple(tpl(x) for x in v)
        if isinstance(v, np.ndarray): return tpl(const_arr(v))
        if isinstance(v, CTypeMark): return ('k', v.np)
        if v is None or isinstance(v, (bool, int, float, complex, str, np.dtype, type, slice, np.generic)): return ('k', strip(v))
        raise Unsupported('numpy.%s of %s' % (name, type(v).__name__))
    ta = tuple(tpl(x) for x in a); tk = tuple((n, tpl(v)) for n, v in sorted(k.items()))

    def call(vals, wide):
        it = iter(vals)

        def mk(q):
            if q[0] == 'k': return q[1]
            if q[0] in 'lt': return (list if q[0] == 'l' else tuple)(mk(z) for z in q[1:])
            dt = np.dtype(q[1]); n = int(np.prod(q[2], dtype=int))
            re = np.array([next(it) for _ in range(n)]).reshape(q[2])
            if dt.kind == 'c': re = re + 1j * np.array([next(it) for _ in range(n)]).reshape(q[2])
            if wide and dt.kind in 'fc': dt = np.dtype('D' if dt.kind == 'c' else 'd')
            return re.astype(dt)[()] if q[3] else re.astype(dt)
        args = [mk(q) for q in ta]; kw = {n: mk(q) for n, q in tk}
        with np.errstate(all='ignore'): r = f(*args, **kw)
        for x in args + list(kw.values()):
            for y in r if isinstance(r, (tuple, list)) else (r,):
                if isinstance(x, np.ndarray) and isinstance(y, np.ndarray) and np.shares_memory(x, y): raise Unsupported('numpy.%s lends its operand' % name)
        return r

    def shape(r):
        if isinstance(r, (tuple, list)): return (type(r).__name__,) + tuple(shape(x) for x in r)
        if not isinstance(r, (np.ndarray, np.generic, bool, int, float, complex)): raise Unsupported('numpy.%s gives %s' % (name, type(r).__name__))
        return (isinstance(r, np.ndarray), np.asarray(r).dtype.str, np.shape(r))
    import random
    s = [shape(call([random.Random(q * 7919 + i).uniform(-2, 2) if q < 2 else 0.0 for i in range(len(ids))], False)) for q in range(3)]
    if s[0] != s[1] or s[1] != s[2]: raise Unsupported('numpy.%s: the shape of the result depends on the data' % name)
    key = '%s %r %r' % (name, ta, tk); T.CALLS[key] = lambda vals: [np.asarray(x) for x in (lambda r: r if isinstance(r, (tuple, list)) else [r])(call(vals, True))]
    ids = tuple(ids)

    def wrap(q, pos):
        if q[0] in ('tuple', 'list'): return (tuple if q[0] == 'tuple' else list)(wrap(z, i) for i, z in enumerate(q[1:]))
        dt = np.dtype(q[1]); n = int(np.prod(q[2], dtype=int))
        if dt.kind not in 'biufc' or isinstance(q[0], str): raise Unsupported('numpy.%s gives nested results' % name)
        re = np.array([T.mkterm(('n', key, pos, 're', str(i), ids)) for i in range(n)], float).reshape(q[2])
        im = np.array([T.mkterm(('n', key, pos, 'im', str(i), ids)) for i in range(n)], float).reshape(q[2]) if dt.kind == 'c' else None
        return mkres(re, im, dt, not q[0])
    return wrap(s[0], '0')


def fallback(name, f):
    def g(*a, **k):
        if name.split('.')[-1] in PURE and any(isinstance(x, Base) and not x.isconst() for v in list(a) + list(k.values()) for x in (v if isinstance(v, (list, tuple)) else (v,))): return symcall(name, f, a, k)
        def conc(v):
            if isinstance(v, Base): return v.conc() if not isinstance(v, Scal) else v.conc().reshape(-1)[0]
            if isinstance(v, (list, tuple)): return type(v)(conc(x) for x in v)
            if isinstance(v, (int, float, complex, str, type(None), np.dtype, type, slice, np.ndarray, np.generic)): return strip(v)
            raise Unsupported('numpy.%s of %s' % (name, type(v).__name__))
        try: return from_conc(f(*[conc(x) for x in a], **{n: conc(v) for n, v in k.items()}))
        except Unsupported: raise Unsupported('numpy.%s on symbolic data' % name)
    return g


class NS:
    def __init__(self, name, d): self.__dict__.update(d); self.__name__ = name

    def __getattr__(self, n):
        f = getattr(getattr(np, self.__name__, None), n, None) if not n.startswith('__') else None
        if f is not None and n in PURE: return fallback(self.__name__ + '.' + n, f)
        if f is not None: raise Unsupported('numpy.%s.%s' % (self.__name__, n))
        raise AttributeError('module %r has no attribute %r' % (self.__name__, n))


# functions of their operands alone, evaluated as such wherever terms are compared
PURE = set('''arccos arcsin arctan arctan2 arctanh arccosh arcsinh acos asin atan atan2 acosh asinh atanh allclose isclose amax amin max min average block bmat concat correlate cov corrcoef cross cumprod
cumulative_sum cumulative_prod deg2rad degrees radians rad2deg diag diagflat digitize divmod ediff1d einsum fix float_power floor_divide fmax fmin fmod gradient heaviside hypot i0 interp iscomplex isreal isneginf
isposinf kron ldexp logaddexp logaddexp2 mean median mod modf nan_to_num nanmax nanmin nanmean nanmedian nanprod nanstd nansum nanvar nancumsum nextafter outer percentile poly polyadd polydiv polymul
polyder polyint polysub polyval pow power prod ptp quantile remainder round round_ around select sinc sort sort_complex spacing std tensordot trace trapezoid trapz tri tril triu unwrap vander var vdot vecdot
matvec vecmat count_nonzero inner angle rfft irfft fft2 ifft2 fftn ifftn hfft ihfft fftshift ifftshift cond det inv solve pinv matrix_power apply_over_axes frexp signbit rint trunc floor ceil sign piecewise
fft ifft norm sum cumsum any all convolve lstsq bartlett'''.split())


class FlatErr:
    def __enter__(self): return self
    def __exit__(self, *a): return False


MODEL = {}
for n_ in ('roll', 'moveaxis', 'swapaxes', 'transpose', 'reshape', 'ravel', 'squeeze', 'expand_dims', 'broadcast_to', 'flip', 'fliplr', 'flipud', 'repeat', 'tile', 'rollaxis', 'ascontiguousarray',
           'asfortranarray', 'take', 'atleast_2d', 'atleast_3d', 'array_split', 'split', 'hsplit', 'vsplit', 'dsplit', 'delete', 'copy', 'rot90', 'require', 'resize', 'take_along_axis', 'diagonal'):
    MODEL[n_] = mover(n_)
for n_ in ('hstack', 'vstack', 'dstack', 'column_stack'): MODEL[n_] = multi_mover(n_)


class Ufunc:
    """elementwise function with the options every ufunc takes"""
    def __init__(self, name, f): self.__name__ = name; self.f = f

    def __call__(self, *a, out=None, where=True, dtype=None, casting='same_kind', **k):
        if k: raise Unsupported('ufunc options')
        a = [np_array(x) if isinstance(x, (list, tuple)) else x for x in a]
        r = self.f(*a)
        if dtype is not None: r = cast(lift(r), np.dtype(conv_dtype(dtype)))
        if isinstance(out, tuple): out, = out
        if where is not True:
            if out is None: raise Unsupported('ufunc where= without out=')
            r = np_where(where, r, out)
        if out is None: return r
        if not isinstance(out, Arr): raise TypeError('return arrays must be of ArrayType')
        rd = lift(r).dt
        if not np.can_cast(rd, out.dt, casting): raise TypeError('Cannot cast ufunc output from %s to %s' % (rd, out.dt))
        out[...] = r
        return out

    def reduce(self, x, axis=0, initial=None, **k):
        if k: raise Unsupported('reduce options')
        x = np_asarray(x); v = [x[(slice(None),) * (axis % x.ndim) + (i,)] for i in range(x.shape[axis])] if axis is not None else list(x.ravel())
        if initial is not None: v.insert(0, initial)
        if not v: raise Unsupported('empty reduction')
        r = v[0]
        for e in v[1:]: r = self.f(r, e)
        return r

    def accumulate(self, x, **k):
        if self.__name__ == 'add' and not k: return np_cumsum(x)
        raise Unsupported('accumulate')

    def __getattr__(self, n):
        if hasattr(np.ufunc, n) and not n.startswith('__'): raise Unsupported('ufunc.' + n)
        raise AttributeError("'numpy.ufunc' object has no attribute %r" % n)

    def at(self, x, k, *y):
        """unbuffered in-place operation: one index after the other"""
        x = x
        idx = np_asarray(k)
        if not isinstance(x, Arr) or not isinstance(idx, Base) or idx.ndim > 1 or not idx.isconst(): raise Unsupported('ufunc.at')
        ys = [np_asarray(v) for v in y]
        for n, i in enumerate(idx.conc().reshape(-1).tolist()): x[i] = self.f(x[i], *[v[n] if v.ndim else v[()] for v in ys])

    def outer(self, x, y):
        x, y = np_asarray(x), np_asarray(y)
        return self.f(x.reshape(x.shape + (1,) * y.ndim), y)


for n_ in ('sqrt', 'exp', 'sin', 'cos', 'log2', 'log', 'sign', 'floor', 'ceil', 'isnan', 'isfinite', 'isinf', 'angle', 'sinh', 'cosh', 'tan', 'tanh', 'log10', 'exp2', 'cbrt', 'rint', 'trunc', 'log1p', 'expm1', 'signbit', 'fabs'): MODEL[n_] = Ufunc(n_, np_func1(n_))
MODEL.update(negative=Ufunc('negative', lambda x: -lift(x) if isinstance(x, Base) else -x), positive=Ufunc('positive', lambda x: lift(x).copy()), square=Ufunc('square', lambda x: arith('mul', x, x)), reciprocal=Ufunc('reciprocal', lambda x: arith('truediv', 1, x)),
             invert=Ufunc('invert', lambda x: ~lift(x)), bitwise_not=Ufunc('invert', lambda x: ~lift(x)), copysign=Ufunc('copysign', lambda x, y: func2('copysign', x, y)), hypot=Ufunc('hypot', lambda x, y: func2('hypot', x, y)))
for n_, o_ in (('add', 'add'), ('subtract', 'sub'), ('multiply', 'mul'), ('divide', 'truediv'), ('true_divide', 'truediv'), ('maximum', 'maximum'), ('minimum', 'minimum'), ('less', 'lt'),
               ('greater', 'gt'), ('less_equal', 'le'), ('greater_equal', 'ge'), ('equal', 'eq'), ('not_equal', 'ne'), ('power', 'pow')):
    MODEL[n_] = Ufunc(n_, np_binary(o_))
MODEL.update(asarray=np_asarray, array=np_array, asanyarray=np_asarray, zeros=alloc(T.ZERO), empty=alloc(T.UNINIT), ones=lambda s, dtype=float, **k: np_full(s, 1, dtype if dtype is not None else float),
             zeros_like=alloc_like(T.ZERO), empty_like=alloc_like(T.UNINIT), ones_like=lambda x, dtype=None: np_full(lift(x).shape, 1, dtype or lift(x).dt), full=np_full,
             full_like=lambda x, v, dtype=None: np_full(lift(x).shape, v, dtype or lift(x).dt),
             concatenate=np_concatenate, mean=np_mean, stack=np_stack, pad=np_pad, sum=np_sum, cumsum=np_cumsum, diff=np_diff, where=np_where, convolve=np_convolve,
             abs=Ufunc('abs', np_abs), absolute=Ufunc('abs', np_abs), conj=Ufunc('conj', conj), conjugate=Ufunc('conj', conj), real=np_real, imag=np_imag, result_type=np_result_type, isscalar=np_isscalar, iscomplexobj=np_iscomplexobj,
             isrealobj=lambda x: not np_iscomplexobj(x), ndim=np_ndim, size=np_size, shape=np_shape, atleast_1d=np_atleast_1d, linspace=np_linspace, arange=np_arange,
             any=lambda x, axis=None, **k: reduce_opaque('any', x, axis, **k), all=lambda x, axis=None, **k: reduce_opaque('all', x, axis, **k),
             max=lambda x, axis=None, **k: reduce_opaque('max', x, axis, **k), min=lambda x, axis=None, **k: reduce_opaque('min', x, axis, **k), amax=lambda x, axis=None, **k: reduce_opaque('max', x, axis, **k),
             prod=lambda x, axis=None, **k: reduce_const('prod', x, axis), argmax=lambda x, axis=None: reduce_opaque('argmax', x, axis),
             dtype=lambda d, *a, **k: np.dtype(conv_dtype(d), *a, **k), errstate=lambda **k: FlatErr(), copyto=np_copyto,
             ndarray=Arr, linalg=NS('linalg', {'norm': np_norm}), fft=NS('fft', {n: fft(n) for n in ('fft', 'ifft')}),
             lib=NS('lib', {'NumpyVersion': np.lib.NumpyVersion}), exceptions=np.exceptions, __version__=np.__version__, pi=np.pi, inf=np.inf, nan=np.nan, newaxis=None, e=np.e,
             import_array=lambda: None, generic=Scal, number=Scal, inexact=Scal, array_equal=lambda a, b, **k: _array_equal(a, b), shares_memory=lambda a, b: np.shares_memory(a.a, b.a),
             may_share_memory=lambda a, b: np.may_share_memory(a.a, b.a), AxisError=np.exceptions.AxisError, round=lambda x, n=0: lift(x).round(n) if not lift(x).isconst() else from_conc(np.round(lift(x).conc(), n)),
             ndindex=lambda *s: np.ndindex(*(shp(s[0]) if len(s) == 1 and not isinstance(s[0], int) else shp(s))), s_=np.s_, index_exp=np.index_exp,
             clip=lambda x, lo, hi, out=None: lift(x).clip(lo, hi, out), logical_not=Ufunc('logical_not', lambda x: arith('eq', x, 0) if not (isinstance(x, Base) and x.dt.kind == 'b') else ~x),
             logical_and=Ufunc('logical_and', np_binary('and_')), logical_or=Ufunc('logical_or', np_binary('or_')), bitwise_and=Ufunc('and', np_binary('and_')), bitwise_or=Ufunc('or', np_binary('or_')), logical_xor=Ufunc('xor', np_binary('xor')), unravel_index=fallback('unravel_index', np.unravel_index))
for n_ in ('float64', 'float32', 'complex64', 'complex128', 'float16', 'half', 'int64', 'int32', 'int8', 'int16', 'uint8', 'uint16', 'uint32', 'uint64', 'intp', 'longdouble', 'clongdouble', 'complex256', 'float128',
           'bool_', 'double', 'single', 'integer', 'floating', 'complexfloating', 'signedinteger', 'cdouble', 'csingle'):
    if hasattr(np, n_): MODEL[n_] = getattr(np, n_)
for n_ in ('float64', 'float32', 'complex64', 'complex128', 'intp', 'int32', 'int64'): MODEL[n_ + '_t'] = CTypeMark(n_)
MODEL.update(putmask=np_putmask, place=np_place, put=np_put)
MODEL.update(concat=np_concatenate, permute_dims=MODEL['transpose'], pow=MODEL['power'], row_stack=MODEL['vstack'])
MODEL['npy_intp'] = CTypeMark('intp')
NONSYM = ('unique', 'floor_divide', 'isin', 'argsort', 'searchsorted', 'extract', 'nonzero', 'cumprod', 'issubdtype', 'can_cast', 'promote_types', 'iinfo', 'finfo', 'issctype', 'min_scalar_type', 'sort', 'allclose', 'isclose', 'count_nonzero', 'mod', 'broadcast_shapes', 'ediff1d', 'argmin', 'isreal', 'iscomplex', 'ix_', 'triu', 'outer', 'meshgrid', 'mean', 'std', 'median')


def _array_equal(a, b):
    a, b = np_asarray(a), np_asarray(b)
    if a.shape != b.shape: return False
    return bool((a == b).all())


def np_compress(cond, x, axis=None):
    x = np_asarray(x); c = np_asarray(cond).conc()
    return Arr(np.compress(c, x.a, axis=axis), x.dt)


def np_append(x, y, axis=None):
    x, y = np_asarray(x), np_asarray(y)
    if axis is None: x, y, axis = x.ravel(), y.ravel(), 0
    return np_concatenate([x, y], axis=axis)


def np_insert(x, k, v, axis=None):
    (x, v), dt = common([np_asarray(x), np_asarray(v)])
    return Arr(np.insert(x.a, k if not isinstance(k, Base) else k.conc(), v.a, axis=axis), dt)


def np_dot(x, y):
    x, y = np_asarray(x), np_asarray(y)
    if x.ndim == 0 or y.ndim == 0: return arith('mul', x, y)
    if x.ndim > 2 or y.ndim > 2: raise Unsupported('dot')
    a = x if x.ndim == 2 else x.reshape((1, -1)); b = y if y.ndim == 2 else y.reshape((-1, 1))
    if a.shape[1] != b.shape[0]: raise ValueError('shapes %s and %s not aligned' % (x.shape, y.shape))
    r = None
    for k in range(a.shape[1]):
        t = a[:, k:k + 1] * b[k:k + 1, :]
        r = t if r is None else r + t
    if r is None: raise Unsupported('empty dot')
    return r[0, 0] if x.ndim == y.ndim == 1 else r[0] if x.ndim == 1 else r[:, 0] if y.ndim == 1 else r


def np_apply_along_axis(f, axis, x, *a, **k):
    x = np_asarray(x); m = np.moveaxis(x.a, axis, -1)
    out = None; sh = m.shape[:-1]
    rows = []
    for i in np.ndindex(*sh): rows.append(np_asarray(f(Arr(m[i].copy(), x.dt), *a, **k)))
    if not rows: raise ValueError('Cannot apply_along_axis when any iteration dimensions are 0')
    r = np_stack(rows)
    if r.ndim == 1: return r.reshape(sh)
    if r.ndim != 2: raise Unsupported('apply_along_axis')
    return Arr(np.moveaxis(r.a.reshape(sh + r.a.shape[1:]), -1, axis), r.dt)


def np_ndenumerate(x):
    x = np_asarray(x)
    return iter([(i, x[i]) for i in np.ndindex(*x.shape)])


def np_broadcast_arrays(*xs):
    xs = [np_asarray(x) for x in xs]
    return tuple(Arr(b, x.dt) for b, x in zip(np.broadcast_arrays(*[x.a for x in xs]), xs))


class Cat:
    """np.r_ of one-dimensional pieces"""
    def __getitem__(self, k):
        out = []
        for v in k if isinstance(k, tuple) else (k,):
            if isinstance(v, str) or isinstance(v, slice) and isinstance(v.step, complex): raise Unsupported('r_ directive')
            if isinstance(v, slice): v = np_arange(v.start or 0, v.stop, v.step or 1)
            v = np_asarray(v)
            if v.ndim > 1: raise Unsupported('r_ of matrices')
            out.append(v.reshape(-1))
        return np_concatenate(out)


class NpVectorize:
    def __init__(self, f, otypes=None, **k):
        if k: raise Unsupported('vectorize options')
        self.f = f; self.otypes = otypes

    def __call__(self, *xs):
        xs = np_broadcast_arrays(*xs)
        sh = xs[0].shape
        vals = [np_asarray(self.f(*[x[i] for x in xs])) for i in np.ndindex(*sh)]
        if not vals: raise Unsupported('vectorize of nothing')
        r = np_stack(vals).reshape(sh)
        if self.otypes is not None: r = cast(r, np.dtype(conv_dtype(self.otypes[0])), 'vectorize')
        return r if sh else r[()]


def np_fromiter(it, dtype, count=-1):
    v = list(it)
    if count >= 0: v = v[:count]
    return np_array(v, dtype=dtype)


MODEL.update(compress=np_compress, append=np_append, insert=np_insert, dot=np_dot, matmul=np_dot, inner=lambda x, y: np_dot(x, y) if np_asarray(x).ndim == 1 else np_dot(x, np_asarray(y).T),
             apply_along_axis=np_apply_along_axis, ndenumerate=np_ndenumerate, broadcast_arrays=np_broadcast_arrays, r_=Cat(), vectorize=NpVectorize, fromiter=np_fromiter,
             around=lambda x, n=0: MODEL['round'](x, n), amin=MODEL['min'], array_equiv=lambda a, b: _array_equal(a, b))
for n_ in ('eye', 'identity', 'flatnonzero', 'argwhere', 'ravel_multi_index', 'remainder', 'fmod', 'divmod', 'bincount', 'left_shift', 'right_shift', 'tril', 'common_type', 'logspace', 'fix', 'polyval', 'interp', 'var', 'nanmean', 'ptp', 'trace', 'linalg', 'percentile', 'quantile', 'average', 'histogram', 'clip_', 'floor_divide', 'digitize', 'cross', 'vander', 'sinc', 'unwrap'):
    if n_ in MODEL or n_ == 'linalg': continue
    if hasattr(np, n_): MODEL[n_] = fallback(n_, getattr(np, n_))


class NumpyModel:
    """the name `np` in the analysed program"""
    __name__ = 'numpy'

    def __getattr__(self, n):
        if n in MODEL: return MODEL[n]
        if n in NONSYM and hasattr(np, n): return fallback(n, getattr(np, n))
        if n in PURE and hasattr(np, n):
            f = fallback(n, getattr(np, n))
            return Ufunc(n, f) if isinstance(getattr(np, n), np.ufunc) else f
        if hasattr(np, n): raise Unsupported('numpy.' + n)
        raise AttributeError("module 'numpy' has no attribute %r" % n)


NPM = NumpyModel()
