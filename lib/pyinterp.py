"""Abstract interpreter for the Python and Cython layers.

Program objects (lists, dicts, classes, exceptions) are ordinary Python objects;
arrays are npmodel arrays whose elements are value numbers; C integers, memory
views, structs and raw pointers follow Cython's rules.  Native transforms are
not entered: `sinks` replaces each by its documented input/output relation and
checks what it is given."""
import ast, linecache, builtins, collections, copy as _copy, functools, inspect, itertools, math, numbers, operator, os, re, struct, types, weakref
import numpy as np
import npmodel as M
import terms as T
from npmodel import Arr, Scal, Base, Found, Unsupported, MODEL, NPM, CTypeMark
import pyx
from pyx import CType

BRK, CNT = ('brk',), ('cnt',)
STEPLIMIT = 3_000_000


def mark(e):
    try: e._prog = True
    except Exception: pass
    return e


def host(f, *a, **k):
    """an operation of the analysed program performed by the host: its exceptions belong to the program"""
    try: return f(*a, **k)
    except RecursionError: raise Unsupported('recursion too deep')
    except (TypeError, AttributeError, KeyError, NameError, AssertionError) as e:
        w = model_gap(f, e)
        if w: raise Unsupported(w)
        if isinstance(e, (TypeError, AttributeError)) and not getattr(e, '_prog', False) and any(isinstance(x, CPTR + (CStructVal,)) for x in a): raise Unsupported('operation on a C pointer')
        raise mark(e)
    except Exception as e: raise mark(e)


PYCALL = (types.FunctionType, types.MethodType)


def model_gap(f, e):
    """an exception that says the numpy model lacks something, rather than that the program is wrong"""
    if getattr(e, '_prog', False): return None
    tb = e.__traceback__.tb_next
    if tb is None:
        if isinstance(e, TypeError) and (isinstance(f, PYCALL) or isinstance(f, M.Ufunc)) and getattr(f, '__module__', None) in ('npmodel', 'terms', __name__): return 'arguments of %s' % getattr(f, '__name__', f)
        return None
    while tb.tb_next is not None: tb = tb.tb_next
    fr = tb.tb_frame.f_code
    if not fr.co_filename.endswith(('npmodel.py', 'terms.py')): return None
    line = linecache.getline(fr.co_filename, tb.tb_lineno)
    if 'raise ' in line: return None
    if isinstance(e, TypeError) and ('index(' in line or 'int(' in line or 'float(' in line or 'complex(' in line or 'iter(' in line or 'len(' in line or 'np.dtype(' in line or 'np.array(' in line or 'np.asarray(' in line): return None
    return 'model: %s (%s:%d)' % (e, os.path.basename(fr.co_filename), tb.tb_lineno)


def perr(cls, msg): raise mark(cls(msg))


# ---------------------------------------------------------------- C values
INTT = {'int': (32, True), 'unsigned int': (32, False), 'long': (64, True), 'unsigned long': (64, False), 'size_t': (64, False), 'unsigned size_t': (64, False),
        'Py_ssize_t': (64, True), 'pywt_index_t': (64, True), 'short': (16, True), 'unsigned char': (8, False), 'char': (8, True),
        'long long': (64, True), 'np.npy_intp': (64, True), 'np.intp_t': (64, True), 'unsigned long long': (64, False), 'ssize_t': (64, True), 'bint': (32, True),
        'signed int': (32, True), 'unsigned': (32, False), 'np.int64_t': (64, True), 'np.int32_t': (32, True), 'np.uint32_t': (32, False), 'np.uint64_t': (64, False)}
FLOATT = {'double': 8, 'float': 4, 'np.float64_t': 8, 'np.float32_t': 4}


class CInt(int):


    def __new__(cls, v, ct=(32, True)):
        b, s = ct
        v = int(v) & ((1 << b) - 1)
        if s and v >> (b - 1): v -= 1 << b
        o = int.__new__(cls, v); o.ct = ct
        return o

    def __reduce__(self): return (int, (int(self),))


def plain(v):
    if type(v) is CInt: return int(v)
    return v


def usual(a, b):
    """usual arithmetic conversions"""
    a = a if a[0] >= 32 else (32, True); b = b if b[0] >= 32 else (32, True)
    if a[0] == b[0]: return (a[0], a[1] and b[1])
    return a if a[0] > b[0] else b


def cbin(op, x, y):
    ct = usual(x.ct, y.ct)
    a, b = int(CInt(x, ct)), int(CInt(y, ct))
    if op in ('lshift', 'rshift'): ct = usual(x.ct, (32, True)); a = int(CInt(x, ct)); b = int(y)
    if op in ('truediv',):
        if b == 0: perr(ZeroDivisionError, 'float division')
        return a / b
    if op in ('floordiv', 'mod') and b == 0: perr(ZeroDivisionError, 'integer division or modulo by zero')
    r = getattr(operator, {'and': 'and_', 'or': 'or_'}.get(op, op))(a, b) if op != 'pow' else a ** b
    if op == 'pow' and isinstance(r, float): return r
    z = CInt(r, ct)
    if ct[1] and int(z) != r: M.C.event('integer-overflow', 'signed overflow in %s %s %s' % (a, op, b))
    return z


class CStructDef:
    def __init__(self, name, fields): self.name = name; self.fields = dict(fields)


class CStructVal:
    """a C struct object"""
    def __init__(self, d, world):
        object.__setattr__(self, 'd', d); object.__setattr__(self, 'v', {}); object.__setattr__(self, 'world', world)
        object.__setattr__(self, 'freed', False)

    def get(self, n):
        if self.freed: raise Found('use-after-release', 'field %s of a released %s' % (n, self.d.name))
        if n not in self.d.fields: raise Unsupported('struct field ' + n)
        if n not in self.v: raise Found('uninitialised-use', 'field %s of %s is read before it is set' % (n, self.d.name))
        return self.v[n]

    def set(self, n, val):
        if self.freed: raise Found('use-after-release', 'field %s of a released %s' % (n, self.d.name))
        if n not in self.d.fields: raise Unsupported('struct field ' + n)
        self.v[n] = coerce(val, self.d.fields[n], self.world, None)


class StructPtr:
    def __init__(self, s): self.s = s
    def __eq__(self, o): return isinstance(o, StructPtr) and o.s is self.s
    def __hash__(self): return id(self.s)


class Null:
    def __repr__(self): return 'NULL'
    def __eq__(self, o): return isinstance(o, Null)
    def __hash__(self): return 0
    def __bool__(self): return False


NULL = Null()


class MetaPtr:
    """ndarray.shape / ndarray.strides as C pointers"""
    def __init__(self, arr, what): self.arr = weakref.ref(arr); self.what = what; self.desc = 'x'; self.snap = (arr.ndim,)

    def values(self):
        a = self.arr()
        if a is None: raise Found('metadata-lifetime', 'the %s of an array is used after the array was released' % self.what)
        return a.shape if self.what == 'shape' else a.strides

    def getitem(self, i):
        v = self.values(); i = int(i)
        if not 0 <= i < len(v): raise Found('axis-unchecked', '%s[%d] of an array with %d dimensions is read' % (self.what, i, len(v)))
        return CInt(v[i], (64, True))


class MetaView:
    """typed memory view of integers: over array metadata (weak) or its own copy"""
    def __init__(self, ct, vals=None, ptr=None, n=None): self.ct = ct; self.vals = vals; self.ptr = ptr; self.n = n

    def shape_values(self):
        if self.vals is not None: return list(self.vals)
        v = list(self.ptr.values())
        if self.n > len(v): raise Found('metadata-bounds', 'view of %d entries over %d' % (self.n, len(v)))
        return v[:self.n]

    def __len__(self): return len(self.shape_values())

    def getitem(self, i):
        v = self.shape_values(); i = int(i)
        if not 0 <= i < len(v): raise Found('axis-unchecked', 'entry %d of a %d-entry shape is read' % (i, len(v)))
        return CInt(v[i], self.ct)

    def setitem(self, i, x):
        i = int(i)
        if self.vals is None:
            if not 0 <= i < self.n: raise Found('axis-unchecked', 'entry %d of a %d-entry shape is written' % (i, self.n))
            raise Found('metadata-modified', "an array's own %s is overwritten" % self.ptr.what)
        if not 0 <= i < len(self.vals): raise Found('axis-unchecked', 'entry %d of a %d-entry shape is written' % (i, len(self.vals)))
        self.vals[i] = int(CInt(x, self.ct))

    def copy(self): return MetaView(self.ct, list(self.shape_values()))
    def __iter__(self): return iter(self.shape_values())


class ElemPtr:
    """&view[i] for a metadata view"""
    def __init__(self, view, i): self.view = weakref.ref(view); self.i = int(i)

    def values(self):
        v = self.view()
        if v is None: raise Found('metadata-lifetime', 'a shape or strides copy is used after it was released')
        return v.shape_values()[self.i:]

    def getitem(self, i): return CInt(self.values()[int(i)], (64, True))


class DataPtr:
    """array data as a C pointer"""
    def __init__(self, arr, elem=None, off=0): self.arr = arr if isinstance(arr, weakref.ref) else weakref.ref(arr); self.elem = elem; self.off = off

    def shift(self, k):
        if self.elem is None: raise Unsupported('arithmetic on an untyped pointer')
        p = DataPtr(self.arr, self.elem, self.off + k); p.__dict__.update({n: v for n, v in self.__dict__.items() if n in ('keep', 'strong')})
        return p
    def pos(self): return id(self.get()), self.off

    def get(self):
        a = self.arr()
        if a is None: raise Found('metadata-lifetime', 'the data of an array is used after the array was released')
        return a


class FilterPtr:
    """double * / float * inside a wavelet struct"""
    def __init__(self, n, es, cells=None, off=0): self.cells = [None] * n if cells is None else cells; self.es = es; self.off = off

    def getitem(self, i):
        if isinstance(i, slice):
            i = plain_slice(i)
            if i.stop is None: raise Unsupported('open slice of a pointer')
            return [self.getitem(k) for k in range(i.start or 0, i.stop, i.step or 1)]
        i = int(i) + self.off
        if not 0 <= i < len(self.cells): raise Found('filter-bounds', 'filter element %d of %d is read' % (i, len(self.cells)))
        if self.cells[i] is None: raise Found('uninitialised-use', 'filter element %d is read before it is set' % i)
        return self.cells[i]

    def setitem(self, i, v):
        i = int(i) + self.off
        if not 0 <= i < len(self.cells): raise Found('filter-bounds', 'filter element %d of %d is written' % (i, len(self.cells)))
        v = tofloat(v)
        self.cells[i] = f32(v) if self.es == 4 else v

    def shift(self, k): return FilterPtr(0, self.es, self.cells, self.off + k)
    def pos(self): return id(self.cells), self.off


class CArr:
    """a C array of fixed size (or a pointer into it)"""
    def __init__(self, n, ct, W, env, cells=None, off=0):
        self.n = n; self.ct = ct; self.W = W; self.env = env; self.off = off
        if cells is None:
            cells = [None] * n
            if ct.dims: raise Unsupported('array of arrays')
            if not ct.ptr and not ct.mv:
                t = W.resolve_type(ct.name, env.module)
                if isinstance(t, CStructDef): cells = [CStructVal(t, W) for _ in range(n)]
        self.cells = cells

    def at(self, i, what):
        j = int(i) + self.off
        if not 0 <= j < len(self.cells): raise Found('c-array-bounds', 'element %d of a C array of %d is %s' % (j, len(self.cells), what))
        return j

    def getitem(self, i):
        if isinstance(i, slice): return [self.getitem(k) for k in range(*plain_slice(i).indices(len(self.cells) - self.off))]
        v = self.cells[self.at(i, 'read')]
        if v is None: raise Found('uninitialised-use', 'element %d of a C array is read before it is set' % int(i))
        return v

    def shift(self, k): return CArr(self.n, self.ct, self.W, self.env, self.cells, self.off + k)
    def pos(self): return id(self.cells), self.off

    def setitem(self, i, v):
        if isinstance(i, slice):
            ks = range(*plain_slice(i).indices(len(self.cells) - self.off)); vs = list(v)
            if len(ks) != len(vs): perr(ValueError, 'wrong number of values for a C array slice')
            for k, x in zip(ks, vs): self.setitem(k, x)
            return
        j = self.at(i, 'written')
        self.cells[j] = coerce(v, self.ct, self.W, self.env)

    def values(self): return [int(self.getitem(k)) for k in range(len(self.cells) - self.off)]
    def __iter__(self): return iter([self.getitem(k) for k in range(len(self.cells) - self.off)])
    def __len__(self): return len(self.cells)
    def __eq__(self, o): return isinstance(o, CArr) and o.cells is self.cells and o.off == self.off
    def __hash__(self): return id(self.cells)
    def address(self, i):
        v = self.cells[self.at(i, 'addressed')]
        if isinstance(v, CStructVal): return StructPtr(v)
        return CArr(self.n, self.ct, self.W, self.env, self.cells, self.off + int(i))


def plain_slice(k): return slice(plain(k.start), plain(k.stop), plain(k.step))


class CellPtr:
    """&local"""
    def __init__(self, env, name): self.env = env; self.name = name


CPTR = (FilterPtr, DataPtr, CArr, StructPtr, MetaPtr, ElemPtr, CellPtr, Null)


class MemView:
    """typed memory view of element data, one dimension"""
    def __init__(self, arr, contig=True, cell=None): self.arr = arr; self.cell = cell

    def base(self):
        if self.cell is not None:
            v = self.cell.env.vars.get(self.cell.name)
            if v is None: raise Found('uninitialised-use', 'local %s is read through a view before it is set' % self.cell.name)
            return M.const_arr(np.array([float(v)]))
        return self.arr

    def __abs_array__(self): return self.base()
    @property
    def dtype(self): perr(AttributeError, "'_memoryviewslice' object has no attribute 'dtype'")
    @property
    def size(self): return CInt(self.base().size, (64, True))
    @property
    def shape(self): return self.base().shape
    @property
    def strides(self): return self.base().strides
    @property
    def ndim(self): return self.base().ndim
    @property
    def base_(self): return self.arr
    def copy(self): return MemView(Arr(self.base().a.copy(), self.base().dt))
    def __len__(self): return self.base().shape[0]
    def __iter__(self): return iter(self.base())

    def getitem(self, k):
        b = self.base()
        if isinstance(k, slice):
            g = lambda v: None if v is None else int(CInt(v, (64, True)))
            return MemView(Arr(b.a[slice(g(k.start), g(k.stop), g(k.step))], b.dt))
        i = int(k)
        if not 0 <= i < b.size: raise Found('view-bounds', 'element %d of a %d-element buffer is read' % (i, b.size))
        r = b[i]
        return r.conc().item() if r.isconst() else r

    def setitem(self, k, v):
        b = self.base()
        if isinstance(k, slice): b[k] = v; return
        i = int(k)
        if not 0 <= i < b.size: raise Found('view-bounds', 'element %d of a %d-element buffer is written' % (i, b.size))
        b[i] = v

    __getitem__ = getitem
    __setitem__ = setitem


numbers_only = (int, float)


def f32(x): return struct.unpack('f', struct.pack('f', x))[0] if abs(x) < 3.5e38 else x


def tofloat(v):
    if isinstance(v, Base): return float(v)
    if isinstance(v, (int, float)): return float(v)
    if isinstance(v, (str, bytes, list, tuple, dict)) or v is None: perr(TypeError, 'must be real number, not ' + type(v).__name__)
    if isinstance(v, complex): perr(TypeError, 'must be real number, not complex')
    return host(float, v)


ELEM = {'double': np.dtype('f8'), 'float': np.dtype('f4'), 'double complex': np.dtype('D'), 'float complex': np.dtype('F')}
MARKS = {'np.float64_t': 'f8', 'np.float32_t': 'f4', 'np.complex64_t': 'F', 'np.complex128_t': 'D'}


def coerce(v, ct, W, env, argname=None, not_none=False):
    """assignment to a C-typed place"""
    if ct is None: return plain(v)
    n = ct.name
    mod = env.module if env is not None else None
    if ct.mv: return coerce_mv(v, ct, W, env)
    if ct.ptr: return v
    n = W.resolve_type(n, mod)
    if isinstance(n, str):
        if n in INTT or n == 'enum':
            bits = INTT.get(n, (32, True))
            if n == 'bint' and not type(v) is CInt: return CInt(1 if host(bool, v) else 0)
            if type(v) is CInt: return CInt(v, bits)
            if isinstance(v, float): perr(TypeError, 'an integer is required') if not isinstance(v, CFloat) else None
            if isinstance(v, (str, bytes, type(None), list, tuple, dict)): perr(TypeError, 'an integer is required')
            if isinstance(v, Arr) and v.ndim or isinstance(v, Scal) and v.dt.kind in 'fc': perr(TypeError, 'only integer scalar arrays can be converted to a scalar index')
            x = host(operator.index, v)
            b, s = bits
            lo, hi = (-(1 << b - 1), (1 << b - 1) - 1) if s else (0, (1 << b) - 1)
            if not lo <= x <= hi: perr(OverflowError, "value too large to convert" if x > hi else "can't convert negative value to " + n)
            return CInt(x, bits)
        if n in FLOATT:
            x = tofloat(v)
            return CFloat(f32(x) if FLOATT[n] == 4 else x)
        if n in ('object', 'void', 'fused'): return plain(v)
        if n in ('list', 'dict', 'tuple', 'str', 'bytes', 'set'):
            if v is not None and type(v) is not getattr(builtins, n): perr(TypeError, 'Expected %s, got %s' % (n, type(v).__name__))
            return v
        if n == 'np.ndarray':
            if v is not None and not isinstance(v, Arr):
                if isinstance(v, M.ObjArr): return v
                perr(TypeError, "Argument '%s' has incorrect type (expected numpy.ndarray, got %s)" % (argname or '', type(v).__name__))
            return v
        if n == 'np.dtype':
            if v is not None and not isinstance(v, np.dtype): perr(TypeError, 'Cannot convert %s to numpy.dtype' % type(v).__name__)
            return v
        raise Unsupported('C type ' + n)
    if n is bool or isinstance(n, type):
        if n is bool:
            if v is not None and type(v) is not bool: perr(TypeError, "Argument '%s' has incorrect type (expected bool, got %s)" % (argname or '', type(v).__name__))
            return v
        if v is None:
            if not_none: perr(TypeError, "Argument '%s' must not be None" % (argname or ''))
            return v
        if not isinstance(v, n): perr(TypeError, "Argument '%s' has incorrect type (expected %s, got %s)" % (argname or '', n.__name__, type(v).__name__))
        return v
    if isinstance(n, CStructDef):
        if isinstance(v, CStructVal):
            r = CStructVal(n, W); r.v.update(v.v); return r
        raise Unsupported('struct assignment')
    if isinstance(n, FusedType):
        return coerce(v, CType(env.fused[n.name]), W, env)
    raise Unsupported('C type %r' % (ct,))


class CFloat(float):
    """a C double: conversions to integers truncate"""
    __slots__ = ()


def coerce_mv(v, ct, W, env):
    inner = W.resolve_type(ct.inner.name, env.module)
    if isinstance(inner, FusedType): inner = env.fused[inner.name]
    if v is None: return None
    if isinstance(inner, str) and inner in INTT:
        if isinstance(v, MetaView):
            if v.ct[0] != INTT[inner][0]: perr(ValueError, 'Buffer dtype mismatch')
            return v
        if isinstance(v, Arr):
            if v.dt.kind not in 'iu' or v.dt.itemsize * 8 != INTT[inner][0]: perr(ValueError, 'Buffer dtype mismatch')
            return MetaView(INTT[inner], [int(x) for x in v.conc()])
        perr(TypeError, "a bytes-like object is required, not '%s'" % type(v).__name__)
    want = np.dtype(MARKS.get(inner, {'double': 'f8', 'float': 'f4'}.get(inner)))
    if isinstance(v, MemView):
        if v.cell is not None: return v
        b = v.base()
        if b.dt != want: perr(ValueError, 'Buffer dtype mismatch')
        if 'c' in ct.mv[2:] and not b.a.flags.c_contiguous: perr(ValueError, 'ndarray is not C-contiguous')
        return v
    if not isinstance(v, Arr): perr(TypeError, "a bytes-like object is required, not '%s'" % type(v).__name__)
    if v.dt != want or not v.dt.isnative: perr(ValueError, "Buffer dtype mismatch, expected '%s' but got '%s'" % (want, v.dt))
    if v.ndim != int(ct.mv[2]): perr(ValueError, 'Buffer has wrong number of dimensions (expected %s, got %d)' % (ct.mv[2], v.ndim))
    if ct.mv.endswith('c') and not v.a.flags.c_contiguous: perr(ValueError, 'ndarray is not C-contiguous')
    if not v.a.flags.writeable and not owned(v): perr(ValueError, 'buffer source array is read-only')
    return MemView(v)


def owned(v):
    b = v.a
    while b is not None:
        if id(b) in M.C.owned: return True
        b = b.base
    return False


class FusedType:
    def __init__(self, name, types): self.name = name; self.types = types


class Lazy:
    def __init__(self, mod, name): self.mod = mod; self.name = name


class NativeNS:
    """functions declared `extern` in a pxd"""
    def __init__(self, name, d): self.__dict__['name'] = name; self.__dict__['d'] = d


class NativeFn:
    def __init__(self, ns, name, cargs, cret): self.ns = ns; self.name = name; self.cargs = cargs; self.cret = cret


class EnumType:
    def __init__(self, name, vals): self.name = name; self.vals = vals


# ---------------------------------------------------------------- environments
class Env:
    __slots__ = ('vars', 'parent', 'module', 'locals', 'globals', 'nonlocals', 'ctypes', 'fused', 'func', 'cls', '__weakref__')

    def __init__(self, module, parent=None, locals_=None, ctypes=None, func=None):
        self.vars = {}; self.parent = parent; self.module = module; self.locals = locals_; self.globals = (); self.nonlocals = ()
        self.ctypes = ctypes or {}; self.fused = parent.fused if parent is not None else {}; self.func = func; self.cls = None


class Module:
    def __init__(self, name, path, cy): self.name = name; self.path = path; self.cy = cy; self.d = {'__name__': name, '__doc__': None, '__file__': path}; self.types = {}; self.loading = True

    def __getattr__(self, n):
        d = self.__dict__['d']
        if n in d: return d[n]
        raise AttributeError("module '%s' has no attribute '%s'" % (self.name, n))


def bound_names(body, args=None):
    names = set(); gl = set(); nl = set()
    if args is not None:
        for a in args.posonlyargs + args.args + args.kwonlyargs: names.add(a.arg)
        for a in (args.vararg, args.kwarg):
            if a is not None: names.add(a.arg)

    def tgt(t):
        if isinstance(t, ast.Name): names.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts: tgt(e)
        elif isinstance(t, ast.Starred): tgt(t.value)

    def walrus(e):
        for n in ast.walk(e):
            if isinstance(n, ast.NamedExpr): tgt(n.target)

    def blk(b):
        for s in b:
            k = type(s)
            if k in (ast.FunctionDef, ast.ClassDef, pyx.CClass): names.add(s.name); continue
            if k is ast.Assign:
                for t in s.targets: tgt(t)
            elif k in (ast.AugAssign, ast.AnnAssign): tgt(s.target)
            elif k is ast.For: tgt(s.target)
            elif k is ast.Import:
                for a in s.names: names.add((a.asname or a.name).split('.')[0])
            elif k is ast.ImportFrom:
                for a in s.names: names.add(a.asname or a.name)
            elif k is ast.Global: gl.update(s.names)
            elif k is ast.Nonlocal: nl.update(s.names)
            elif k is ast.With:
                for i in s.items:
                    if i.optional_vars is not None: tgt(i.optional_vars)
            elif k is pyx.CVar: names.add(s.name)
            elif k is ast.Delete:
                for t in s.targets: tgt(t)
            for f in ('body', 'orelse', 'finalbody'):
                if isinstance(getattr(s, f, None), list): blk(getattr(s, f))
            for h in getattr(s, 'handlers', ()):
                if h.name: names.add(h.name)
                blk(h.body)
            if k is ast.Match:
                for c in s.cases:
                    for n in ast.walk(c.pattern):
                        b = getattr(n, 'name', None) or getattr(n, 'rest', None)
                        if isinstance(b, str): names.add(b)
                    if c.guard is not None: walrus(c.guard)
                    blk(c.body)
            if isinstance(s, ast.stmt):
                for f, v in ast.iter_fields(s):
                    for x in (v if isinstance(v, list) else [v]):
                        if isinstance(x, ast.expr): walrus(x)
                        elif isinstance(x, ast.withitem): walrus(x.context_expr)
    blk(body)
    return names - gl - nl, gl, nl


def yields(x):
    """does this statement or expression suspend the generator it stands in"""
    y = getattr(x, '_yields', None)
    if y is None:
        y = isinstance(x, (ast.Yield, ast.YieldFrom)) or not isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) and any(yields(c) for c in ast.iter_child_nodes(x))
        x._yields = y
    return y


class SingleDispatch:
    def __init__(self, f): self.f = f; self.reg = {object: f}; self.__name__ = f.__name__

    def register(self, cls, f=None):
        if isinstance(cls, Func):
            f = cls; a = [x.annotation for x in f.node.args.posonlyargs + f.node.args.args]
            if not a or a[0] is None: perr(TypeError, 'Invalid first argument to `register()`')
            cls = f.W.ev(a[0], f.env or f.W.modenv(f.module))
            self.reg[cls] = f; return f
        if f is None: return lambda g: self.register(cls, g)
        self.reg[cls] = f; return f

    def __call__(self, *a, **k):
        hits = [c for c in self.reg if b_isinstance(a[0], c)]
        best = [c for c in hits if all(c is d or issubclass(c, d) for d in hits)]
        if len(best) != 1: raise Unsupported('singledispatch')
        return CURRENT.call(self.reg[best[0]], list(a), k)


class FunctoolsNS:
    """the parts of functools that treat functions as values only"""
    def __getattr__(self, n):
        if n in ('partial', 'reduce', 'lru_cache', 'cache', 'cmp_to_key', 'partialmethod', 'total_ordering', 'update_wrapper'): return getattr(functools, n)
        if n == 'wraps': return lambda f, *a, **k: (lambda g: g)
        if n == 'singledispatch': return SingleDispatch
        if n == 'cached_property': return functools.cached_property
        if hasattr(functools, n): raise Unsupported('functools.' + n)
        raise AttributeError("module 'functools' has no attribute %r" % n)


class Func:
    """a function of the analysed program"""
    def __init__(self, node, module, env, W, qual, defaults, kwdefaults, is_lambda=False):
        self.node = node; self.module = module; self.env = env; self.W = W; self.__name__ = getattr(node, 'name', '<lambda>'); self.__qualname__ = qual
        self.defaults = defaults; self.kwdefaults = kwdefaults; self.is_lambda = is_lambda
        self.__doc__ = None; self.__module__ = module.name
        cache = getattr(node, '_bound', None)
        if cache is None:
            body = [ast.Return(node.body)] if is_lambda else node.body
            cache = node._bound = bound_names(body, node.args)
            gen = False
            if not is_lambda:
                st = list(node.body)
                while st:
                    x = st.pop()
                    if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): continue
                    if isinstance(x, (ast.Yield, ast.YieldFrom)): gen = True
                    st.extend(ast.iter_child_nodes(x))
            node._gen = gen
        self.cls = None

    def __repr__(self): return '<function %s>' % self.__qualname__
    def __get__(self, obj, owner=None): return self if obj is None else types.MethodType(self, obj)
    def __call__(self, *a, **k): return self.W.call_func(self, a, k)
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self

    @property
    def __signature__(self):
        P = inspect.Parameter; ps = []
        A = self.node.args
        n = len(A.args)
        for i, a in enumerate(A.args):
            d = self.defaults[i - (n - len(self.defaults))] if i >= n - len(self.defaults) else P.empty
            ps.append(P(a.arg, P.POSITIONAL_OR_KEYWORD, default=d))
        if A.vararg: ps.append(P(A.vararg.arg, P.VAR_POSITIONAL))
        for a in A.kwonlyargs: ps.append(P(a.arg, P.KEYWORD_ONLY, default=self.kwdefaults.get(a.arg, P.empty)))
        if A.kwarg: ps.append(P(A.kwarg.arg, P.VAR_KEYWORD))
        return inspect.Signature(ps)


# ---------------------------------------------------------------- builtins of the analysed program
def scal_type(x):
    return x.dt.type


def b_isinstance(x, t):
    if isinstance(t, tuple): return any(b_isinstance(x, u) for u in t)
    if isinstance(t, types.UnionType): return any(b_isinstance(x, u) for u in t.__args__)
    if t is int and type(x) is CInt: return True
    if isinstance(x, Scal):
        if t is Scal: return True
        if isinstance(t, type):
            if t is object: return True
            return issubclass(scal_type(x), t)
    if isinstance(x, Arr):
        if t is Arr: return True
        if t in (collections.abc.Iterable, collections.abc.Sized, collections.abc.Container, object): return True
        return t is numbers.Number and False
    if isinstance(t, CTypeMark): raise Unsupported('isinstance ctype')
    return host(isinstance, x, t)


def b_type(*a):
    if len(a) != 1: raise Unsupported('type()')
    x = a[0]
    if isinstance(x, Scal): return scal_type(x)
    if type(x) in (CInt,): return int
    if type(x) is CFloat: return float
    return type(x)


def b_int(*a, **k):
    if a and type(a[0]) is CInt: return int(a[0])
    if a and isinstance(a[0], Base): return int(a[0])
    return int(*a, **k)


def b_range(*a): return range(*[operator.index(x) if not isinstance(x, CInt) else int(x) for x in a])


def b_abs(x): return M.np_abs(x) if isinstance(x, Base) else abs(x)


def b_hasattr(o, n):
    try: CURRENT.getattr(o, n)
    except AttributeError: return False
    return True


def b_getattr(o, n, *d):
    try: return CURRENT.getattr(o, n)
    except AttributeError:
        if d: return d[0]
        raise


def b_setattr(o, n, v): CURRENT.setattr(o, n, v)


def b_print(*a, **k): M.C.warned.append(('print',))


def b_issubclass(a, b): return issubclass(a, b)


def b_id(x): return id(x)


CURRENT = None
BUILTINS = {n: getattr(builtins, n) for n in (
    'len enumerate zip map filter sorted reversed sum min max all any tuple list dict set frozenset str repr float complex bool callable iter next slice object round ord chr '
    'property staticmethod classmethod divmod pow NotImplemented Ellipsis super hash bytes bytearray format vars dir delattr bin hex '
    'Exception BaseException ValueError TypeError KeyError IndexError AttributeError RuntimeError NotImplementedError ImportError OverflowError ZeroDivisionError ArithmeticError '
    'StopIteration LookupError MemoryError AssertionError DeprecationWarning UserWarning RuntimeWarning FutureWarning Warning NameError UnboundLocalError BufferError OSError PendingDeprecationWarning VisibleDeprecationWarning').split() if hasattr(builtins, n)}
BUILTINS.update(isinstance=b_isinstance, type=b_type, int=int, range=b_range, abs=b_abs, hasattr=b_hasattr, getattr=b_getattr, setattr=b_setattr, print=b_print, issubclass=b_issubclass, id=b_id)


class WarnNS:
    """the warnings module: recorded, no effect"""
    def warn(self, msg, cat=UserWarning, *a, **k): M.C.warned.append((cat, str(msg)))
    def simplefilter(self, *a, **k): pass
    def filterwarnings(self, *a, **k): pass
    def catch_warnings(self, *a, **k): return M.FlatErr()


STDLIB = {'itertools': itertools, 'functools': FunctoolsNS(), 'collections': collections, 'collections.abc': collections.abc, 'numbers': numbers, 're': re, 'math': math, 'inspect': inspect,
          'copy': _copy, 'operator': operator, 'warnings': WarnNS(), 'numpy': NPM, 'numpy.fft': MODEL['fft'], 'numpy.linalg': MODEL['linalg'], 'typing': __import__('typing'), 'string': __import__('string'),
          'numpy.exceptions': np.exceptions, 'types': types, 'enum': __import__('enum'), 'abc': __import__('abc'), 'contextlib': __import__('contextlib'), 'fractions': __import__('fractions'), 'dataclasses': __import__('dataclasses'), 'bisect': __import__('bisect'), 'heapq': __import__('heapq')}


def scalar_math(f):
    def g(*a): return f(*[float(x) if isinstance(x, (int, float, Base)) else x for x in a])
    return g


class MathNS:
    def __getattr__(self, n):
        v = getattr(math, n)
        if not callable(v): return v
        def g(*a):
            b = []
            for x in a:
                if isinstance(x, Base): x = x.conc().reshape(-1)[0].item() if x.size == 1 else M._only()
                b.append(plain(x))
            return v(*b)
        return g


STDLIB['math'] = MathNS()
STDLIB['__future__'] = types.SimpleNamespace(annotations=None)


class ResPath:
    """a path of the source tree, as importlib.resources and pathlib hand it out"""
    def __init__(self, p): self.p = p
    def joinpath(self, *q): return ResPath(os.path.join(self.p, *[getattr(x, 'p', x) for x in q]))
    __truediv__ = joinpath
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def __fspath__(self): return self.p
    def __str__(self): return self.p
    def open(self, mode='r', *a): return self
    @property
    def parent(self): return ResPath(os.path.dirname(self.p))
    @property
    def name(self): return os.path.basename(self.p)
    def resolve(self): return self


class Npz:
    """the arrays of a data file, as constants"""
    def __init__(self, p):
        with np.load(p) as d: self.d = {k: d[k] for k in d.files}
        self.files = list(self.d)
    def __getitem__(self, k): return M.from_conc(self.d[k])
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def close(self): pass
    def keys(self): return list(self.d)
    def __contains__(self, k): return k in self.d


def np_load(f, *a, **k):
    p = f.p if isinstance(f, ResPath) else f
    if not isinstance(p, str) or not p.startswith(REPOROOT[0] + os.sep): raise Unsupported('numpy.load of %s' % type(f).__name__)
    if not os.path.exists(p): raise mark(FileNotFoundError('no file ' + os.path.relpath(p, REPOROOT[0])))
    return Npz(p)


MODEL['load'] = np_load
REPOROOT = ['']


def res_files(pkg): return ResPath(os.path.join(REPOROOT[0], *(getattr(pkg, 'name', pkg)).split('.')))


PATHNS = types.SimpleNamespace(**{n: (lambda f: lambda *a: f(*[getattr(x, 'p', x) for x in a]))(getattr(os.path, n)) for n in ('join', 'dirname', 'abspath', 'realpath', 'basename', 'normpath', 'splitext')}, sep=os.sep)
RESNS = types.SimpleNamespace(files=res_files, as_file=lambda p: p, path=lambda pkg, f: res_files(pkg).joinpath(f))
STDLIB.update({'os': types.SimpleNamespace(path=PATHNS, sep=os.sep, fspath=lambda p: getattr(p, 'p', p)), 'os.path': PATHNS, 'importlib.resources': RESNS, 'importlib': types.SimpleNamespace(resources=RESNS),
               'pathlib': types.SimpleNamespace(Path=lambda *a: ResPath(os.path.join(*[getattr(x, 'p', x) for x in a])))})

BINOPS = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv', ast.FloorDiv: 'floordiv', ast.Mod: 'mod', ast.Pow: 'pow', ast.LShift: 'lshift', ast.RShift: 'rshift',
          ast.BitOr: 'or', ast.BitAnd: 'and', ast.BitXor: 'xor', ast.MatMult: 'matmul'}
OPF = {n: getattr(operator, {'and': 'and_', 'or': 'or_'}.get(n, n)) for n in BINOPS.values()}
IOPF = {n: getattr(operator, 'i' + n) for n in BINOPS.values()}
CMPF = {ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}
CMPN = {ast.Eq: 'eq', ast.NotEq: 'ne', ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge'}


class World:
    """the analysed package"""
    def __init__(self, repo, sinks, cache=None, c99=1):
        self.c99 = c99; self.repo = repo; REPOROOT[0] = repo; self.sinks = sinks; self.mods = {}; self.asts = cache if cache is not None else {}
        self.enums = None
        self.functions = set(); self.callsites = set()
        global CURRENT
        CURRENT = self
        self.build = {}

    # -- modules
    def parse(self, path):
        key = path if path.endswith('.py') else (path, self.c99)
        if key not in self.asts:
            if path.endswith('.py'):
                try: src = open(path, encoding='utf-8').read()
                except OSError: raise pyx.FrontError('anchor vanished: ' + path)
                self.asts[key] = ast.parse(src, path).body
            else: self.asts[key] = pyx.parse(path, self.c99)
        return self.asts[key]

    def load(self, name):
        if name in self.mods: return self.mods[name]
        rel = name.split('.')[1:]
        if name == 'pywt._c99_config':
            m = Module(name, None, False); m.d['_have_c99_complex'] = self.c99; m.loading = False; self.mods[name] = m; return m
        p = os.path.join(self.repo, 'pywt', *rel)
        if os.path.isdir(p):
            m = Module(name, p, False); m.ispkg = True; m.loading = False; self.mods[name] = m; return m
        if os.path.exists(p + '.py'): path, cy = p + '.py', False
        elif os.path.exists(p + '.pyx'): path, cy = p + '.pyx', True
        elif os.path.exists(p + '.pxd'): path, cy = p + '.pxd', True
        else: raise Unsupported('module ' + name)
        m = self.mods[name] = Module(name, path, cy)
        env = Env(m); env.vars = m.d; env.locals = None
        M.C.loc.append([name, '<module>', 0])
        try:
            if path.endswith('.pyx') and os.path.exists(p + '.pxd'): self.block(self.parse(p + '.pxd'), env)
            self.block(self.parse(path), env)
        finally: M.C.loc.pop()
        m.loading = False
        return m

    def modenv(self, m):
        env = Env(m); env.vars = m.d; env.locals = None
        return env

    def api(self):
        """what `import pywt` offers: the star and named imports of pywt/__init__.py in order"""
        if getattr(self, '_api', None) is not None: return self._api
        d = {}
        for s in self.parse(os.path.join(self.repo, 'pywt', '__init__.py')):
            if not (isinstance(s, ast.ImportFrom) and s.level == 1 and s.module): continue
            if s.module == 'data' or s.module.startswith('data.') or s.module == '_pytesttester': continue
            m = self.load('pywt.' + s.module)
            for a in s.names:
                if a.name == '*':
                    names = m.d.get('__all__')
                    if names is None: names = [n for n in m.d if not n.startswith('_') and not n.startswith('%')]
                    for n in names:
                        if n not in m.d: raise mark(AttributeError("module '%s' has no attribute '%s'" % (m.name, n)))
                        d[n] = self.deref(m.d[n])
                else: d[a.asname or a.name] = self.deref(m.d[a.name])
        self._api = d
        return d

    def get(self, name, attr): return self.deref(self.load(name).d[attr])

    def deref(self, v):
        while isinstance(v, Lazy):
            m = self.load(v.mod)
            if v.name is None: return m
            if v.name not in m.d: raise Unsupported('%s has no %s' % (v.mod, v.name))
            v = m.d[v.name]
        return v

    def relname(self, module, level, name):
        parts = module.name.split('.')
        if not (module.path and os.path.isdir(module.path)): parts = parts[:-1]
        if level > 1: parts = parts[:-(level - 1)]
        return '.'.join(parts + ([name] if name else []))

    def resolve_type(self, n, module):
        """C type name -> builtin name, class, struct, fused..."""
        if n in INTT or n in FLOATT or n in ('object', 'void'): return n
        if n in ('np.ndarray', 'np.dtype') or n in MARKS or n in ('list', 'dict', 'tuple', 'str', 'bytes', 'set', 'fused'): return n
        if n == 'np.npy_intp': return n
        if module is None: raise Unsupported('C type ' + n)
        v = module
        for part in n.split('.'):
            d = v.d
            if part in getattr(v, 'types', {}): v = v.types[part]
            elif part in d: v = self.deref(d[part])
            else: raise Unsupported('C type %s in %s' % (n, module.name))
        if isinstance(v, CType): return self.resolve_type(v.name, module)
        if isinstance(v, EnumType): return 'int'
        if v is bool: return bool
        return v

    # -- calls
    def call_func(self, f, a, k):
        C = M.C
        if len(C.loc) > 180: raise Unsupported('recursion too deep')
        node = f.node
        env = Env(f.module, f.env, node._bound[0], func=f)
        env.globals, env.nonlocals = node._bound[1], node._bound[2]
        env.cls = f.cls
        self.functions.add((f.module.name, f.__qualname__))
        try:
            self.bind(f, env, a, k)
        except Exception as e:
            raise
        C.loc.append([f.module.name, f.__qualname__, getattr(node, 'lineno', 0)])
        try:
            if f.is_lambda: return self.ev(node.body, env)
            if node._gen:
                return self.generator(f, node, env)
            r = self.block(node.body, env)
            v = r[1] if r is not None else None
            rc = getattr(node, 'ret_ctype', None)
            if rc is not None and getattr(node, 'ckind', 'def') != 'def' and rc.name not in ('object', 'void') : v = coerce(v, rc, self, env)
            return v
        finally: C.loc.pop()

    def generator(self, f, node, env):
        C = M.C
        def top():
            r = yield from self.gblock(node.body, env)
            return r[1] if r is not None else None
        g = top()
        def run():
            loc = [f.module.name, f.__qualname__, getattr(node, 'lineno', 0)]
            step = lambda: next(g)
            while True:
                C.loc.append(loc)
                try: v = step()
                except StopIteration as e: return e.value
                finally: C.loc.pop()
                try: w = yield v
                except GeneratorExit: g.close(); raise
                except BaseException as e: step = lambda e=e: g.throw(e)
                else: step = lambda w=w: g.send(w)
        return run()

    def gev(self, e, env):
        """the value of an expression that may suspend (only where the suspension is the whole expression)"""
        if isinstance(e, ast.Yield): return plain((yield plain(self.ev(e.value, env)) if e.value is not None else None))
        if isinstance(e, ast.YieldFrom):
            src = self.ev(e.value, env)
            if isinstance(src, types.GeneratorType): return (yield from src)
            for x in self.iterate(src): yield plain(x)
            return None
        if yields(e): raise Unsupported('yield inside an expression')
        return self.ev(e, env)

    def gblock(self, body, env):
        """statements of a generator"""
        C = M.C
        for s in body:
            if not yields(s):
                r = self.block([s], env)
                if r is not None: return r
                continue
            ln = getattr(s, 'lineno', None)
            if ln and C.loc: C.loc[-1][2] = ln
            r = None
            if isinstance(s, ast.Expr): yield from self.gev(s.value, env)
            elif isinstance(s, ast.Assign):
                v = yield from self.gev(s.value, env)
                for t in s.targets: self.assign(t, v, env)
            elif isinstance(s, ast.Return): return ('ret', (yield from self.gev(s.value, env)))
            elif isinstance(s, ast.If) and not yields(s.test): r = yield from self.gblock(s.body if self.truth(self.ev(s.test, env)) else s.orelse, env)
            elif isinstance(s, ast.While) and not yields(s.test):
                n = 0
                while self.truth(self.ev(s.test, env)):
                    n += 1
                    if n > 200000: raise Found('no-progress', 'loop does not leave')
                    r = yield from self.gblock(s.body, env)
                    if r is BRK: break
                    if r is not None and r is not CNT: return r
                else: r = yield from self.gblock(s.orelse, env)
                if r is BRK or r is CNT: r = None
            elif isinstance(s, ast.For) and not yields(s.iter):
                for x in self.iterate(self.ev(s.iter, env)):
                    self.assign(s.target, x, env)
                    r = yield from self.gblock(s.body, env)
                    if r is BRK: break
                    if r is not None and r is not CNT: return r
                else: r = yield from self.gblock(s.orelse, env)
                if r is BRK or r is CNT: r = None
            elif isinstance(s, ast.With):
                ms = self.enter(s, env)
                try: r = yield from self.gblock(s.body, env)
                except Exception as e:
                    if not self.leave(ms, e): raise
                else: self.leave(ms, None)
            elif isinstance(s, ast.Try):
                try:
                    try: r = yield from self.gblock(s.body, env)
                    except Exception as e:
                        if not getattr(e, '_prog', False): raise
                        for h in s.handlers:
                            t = self.ev(h.type, env) if h.type is not None else BaseException
                            if isinstance(e, t):
                                if h.name: self.store(h.name, e, env)
                                old = env.vars.get('%exc'); env.vars['%exc'] = e
                                try: r = yield from self.gblock(h.body, env)
                                finally:
                                    if old is None: env.vars.pop('%exc', None)
                                    else: env.vars['%exc'] = old
                                break
                        else: raise
                    else:
                        if r is None: r = yield from self.gblock(s.orelse, env)
                except (Found, Unsupported, GeneratorExit): raise
                except BaseException:
                    q = yield from self.gblock(s.finalbody, env)
                    if q is not None: return q
                    raise
                q = yield from self.gblock(s.finalbody, env)
                r = q if q is not None else r
            elif isinstance(s, ast.Match):
                r = None
                subj = self.ev(s.subject, env)
                for c in s.cases:
                    if self.pmatch(c.pattern, subj, env) and (c.guard is None or self.truth(self.ev(c.guard, env))):
                        r = yield from self.gblock(c.body, env); break
            else: raise Unsupported('yield in ' + type(s).__name__)
            if r is not None: return r
        return None

    def bind(self, f, env, a, k):
        A = f.node.args
        ps = A.posonlyargs + A.args
        name = f.__name__
        vals = {}
        a = list(a)
        if len(a) > len(ps) and A.vararg is None:
            perr(TypeError, '%s() takes %d positional arguments but %d were given' % (name, len(ps), len(a)))
        for p, v in zip(ps, a): vals[p.arg] = v
        rest = tuple(a[len(ps):])
        kw = dict(k); extra = {}
        names = {p.arg for p in ps} | {p.arg for p in A.kwonlyargs}
        for n, v in kw.items():
            if n in names:
                if n in vals: perr(TypeError, "%s() got multiple values for argument '%s'" % (name, n))
                vals[n] = v
            elif A.kwarg is not None: extra[n] = v
            else: perr(TypeError, "%s() got an unexpected keyword argument '%s'" % (name, n))
        nd = len(ps) - len(f.defaults)
        for i, p in enumerate(ps):
            if p.arg not in vals:
                if i >= nd: vals[p.arg] = f.defaults[i - nd]
                else: perr(TypeError, "%s() missing required argument '%s'" % (name, p.arg))
        for p in A.kwonlyargs:
            if p.arg not in vals:
                if p.arg in f.kwdefaults: vals[p.arg] = f.kwdefaults[p.arg]
                else: perr(TypeError, "%s() missing required keyword-only argument '%s'" % (name, p.arg))
        if f.module.cy:
            self.specialise(f, env, ps, vals)
            for p in ps + A.kwonlyargs:
                ct = getattr(p, 'ctype', None)
                v = vals[p.arg]
                if ct is not None:
                    vals[p.arg] = coerce(v, ct, self, env, p.arg, getattr(p, 'not_none', False)); env.ctypes[p.arg] = ct
                else: vals[p.arg] = plain(v)
        env.vars.update(vals)
        if A.vararg is not None: env.vars[A.vararg.arg] = rest
        if A.kwarg is not None: env.vars[A.kwarg.arg] = extra

    def specialise(self, f, env, ps, vals):
        """fused types: chosen by the buffers passed"""
        env.fused = {}
        for p in ps:
            ct = getattr(p, 'ctype', None)
            if ct is None: continue
            base = ct.inner.name if ct.mv else ct.name
            try: t = self.resolve_type(base, f.module)
            except Unsupported: continue
            if not isinstance(t, FusedType): continue
            v = vals[p.arg]
            if isinstance(v, MemView): d = v.base().dt
            elif isinstance(v, Arr): d = v.dt
            elif v is None: perr(TypeError, 'No matching signature found')
            else: perr(TypeError, 'No matching signature found')
            if ct.mv and isinstance(v, Arr) and v.ndim != int(ct.mv[2]): perr(ValueError, 'Buffer has wrong number of dimensions')
            hit = None
            for n in t.types:
                if np.dtype(MARKS[n]) == d and d.isnative: hit = n
            if hit is None: perr(TypeError, 'No matching signature found')
            env.fused[t.name] = hit

    def call(self, f, a, k):
        if isinstance(f, NativeFn): return self.sinks.call(self, f, [x for x in a])
        if isinstance(f, Func): return self.call_func(f, a, k)
        if isinstance(f, types.MethodType) and isinstance(f.__func__, Func): return self.call_func(f.__func__, (f.__self__,) + tuple(a), k)
        if f is copy_like or f in COPYFN: pass
        a = [plain(x) for x in a]; k = {n: plain(v) for n, v in k.items()}
        if f is int: return host(b_int, *a, **k)
        if not callable(f): perr(TypeError, "'%s' object is not callable" % type(f).__name__)
        return host(f, *a, **k)

    # -- statements
    def block(self, body, env):
        C = M.C
        for s in body:
            C.steps += 1
            if C.steps > STEPLIMIT: raise Unsupported('step limit')
            ln = getattr(s, 'lineno', None)
            if ln and C.loc: C.loc[-1][2] = ln
            m = STMT.get(type(s))
            if m is None: raise Unsupported('statement ' + type(s).__name__)
            r = m(self, s, env)
            if r is not None: return r
        return None

    def s_expr(self, s, env): self.ev(s.value, env)
    def s_pass(self, s, env): pass
    def s_break(self, s, env): return BRK
    def s_continue(self, s, env): return CNT
    def s_return(self, s, env): return ('ret', self.ev(s.value, env) if s.value is not None else None)
    def s_global(self, s, env):
        env.globals = set(env.globals) | set(s.names)
        env.locals = env.locals - set(s.names) if env.locals is not None else None
    def s_nonlocal(self, s, env): pass

    def s_assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets: self.assign(t, v, env)

    def s_annassign(self, s, env):
        if env.cls and env.locals is None and isinstance(s.target, ast.Name): env.vars.setdefault('__annotations__', {})[s.target.id] = self.annotation(s.annotation, env)
        if s.value is not None: self.assign(s.target, self.ev(s.value, env), env)

    def annotation(self, a, env):
        try: return self.ev(a, env)
        except Unsupported: return 'object'

    def s_augassign(self, s, env):
        op = BINOPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, env)
            v = self.ev(s.value, env)
            self.store(t.id, self.inplace(op, cur, v, env, s), env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            cur = self.getattr(o, t.attr, env)
            v = self.ev(s.value, env)
            self.setattr(o, t.attr, self.inplace(op, cur, v, env, s), env)
        else:
            o = self.ev(t.value, env); k = self.ev(t.slice, env)
            cur = self.getitem(o, k)
            v = self.ev(s.value, env)
            self.setitem(o, k, self.inplace(op, cur, v, env, s))

    def inplace(self, op, cur, v, env, s):
        if type(cur) in CPTR: return self.ptrop(op, cur, v)
        if type(cur) is CInt or type(v) is CInt: return self.binop(op, cur, v, env, None, s.value)
        return host(IOPF[op], cur, v)

    def s_if(self, s, env):
        return self.block(s.body if self.truth(self.ev(s.test, env)) else s.orelse, env)

    def s_while(self, s, env):
        n = 0
        while self.truth(self.ev(s.test, env)):
            n += 1
            if n > 200000: raise Found('no-progress', 'loop does not leave')
            r = self.block(s.body, env)
            if r is BRK: return None
            if r is not None and r is not CNT: return r
        return self.block(s.orelse, env)

    def iterate(self, v):
        if isinstance(v, (MetaView,)): return [CInt(x, v.ct) for x in v.shape_values()]
        it = host(iter, v)
        def g():
            n = 0
            while True:
                try: x = next(it)
                except StopIteration: return
                except Exception as e: raise mark(e)
                n += 1
                if n > 500000: raise Unsupported('loop too long')
                yield x
        return g()

    def s_for(self, s, env):
        for x in self.iterate(self.ev(s.iter, env)):
            self.assign(s.target, x, env)
            r = self.block(s.body, env)
            if r is BRK: return None
            if r is not None and r is not CNT: return r
        return self.block(s.orelse, env)

    def s_with(self, s, env):
        ms = self.enter(s, env)
        try: r = self.block(s.body, env)
        except Exception as e:
            if not self.leave(ms, e): raise
            return None
        self.leave(ms, None)
        return r

    def enter(self, s, env):
        ms = []
        for i in s.items:
            m = self.ev(i.context_expr, env)
            v = host(m.__enter__)
            ms.append(m)
            if i.optional_vars is not None: self.assign(i.optional_vars, v, env)
        return ms

    def leave(self, ms, e):
        """run the exits; true if one of them swallows the exception"""
        if e is not None and not getattr(e, '_prog', False): return False
        for m in reversed(ms):
            if host(m.__exit__, *((type(e), e, None) if e is not None else (None, None, None))): e = None
        return e is None

    def s_match(self, s, env):
        subj = self.ev(s.subject, env)
        for c in s.cases:
            if self.pmatch(c.pattern, subj, env) and (c.guard is None or self.truth(self.ev(c.guard, env))): return self.block(c.body, env)
        return None

    def pmatch(self, p, v, env):
        if isinstance(p, ast.MatchValue): return self.truth(self.compare(ast.Eq, v, self.ev(p.value, env), env))
        if isinstance(p, ast.MatchSingleton): return v is p.value
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.pmatch(p.pattern, v, env): return False
            if p.name is not None: self.store(p.name, v, env)
            return True
        if isinstance(p, ast.MatchOr): return any(self.pmatch(q, v, env) for q in p.patterns)
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, collections.abc.Sequence) or isinstance(v, (str, bytes, bytearray)): return False
            v = list(self.iterate(v))
            st = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if not st: return len(v) == len(p.patterns) and all(self.pmatch(q, x, env) for q, x in zip(p.patterns, v))
            i = st[0]; after = len(p.patterns) - i - 1
            if len(v) < i + after: return False
            if not all(self.pmatch(q, x, env) for q, x in zip(p.patterns[:i], v)): return False
            if not all(self.pmatch(q, x, env) for q, x in zip(p.patterns[i + 1:], v[len(v) - after:])): return False
            if p.patterns[i].name is not None: self.store(p.patterns[i].name, v[i:len(v) - after], env)
            return True
        if isinstance(p, ast.MatchMapping):
            if not isinstance(v, collections.abc.Mapping): return False
            ks = [self.ev(k, env) for k in p.keys]
            for k, q in zip(ks, p.patterns):
                if k not in v or not self.pmatch(q, v[k], env): return False
            if p.rest is not None: self.store(p.rest, {k: x for k, x in v.items() if k not in ks}, env)
            return True
        if isinstance(p, ast.MatchClass):
            cls = self.ev(p.cls, env)
            if not b_isinstance(v, cls): return False
            if p.patterns:
                if cls in (bool, bytearray, bytes, dict, float, frozenset, int, list, set, str, tuple):
                    if len(p.patterns) != 1: perr(TypeError, '%s() accepts 1 positional sub-pattern' % cls.__name__)
                    if not self.pmatch(p.patterns[0], v, env): return False
                else:
                    names = self.getattr(cls, '__match_args__', env)
                    for n, q in zip(names, p.patterns):
                        if not self.pmatch(ast.MatchClass(ast.Constant(object), [], [n], [q]), v, env): return False
            for n, q in zip(p.kwd_attrs, p.kwd_patterns):
                try: x = self.getattr(v, n, env)
                except AttributeError: return False
                if not self.pmatch(q, x, env): return False
            return True
        raise Unsupported('pattern ' + type(p).__name__)

    def s_raise(self, s, env):
        if s.exc is None:
            e = getattr(env, 'vars', {}).get('%exc')
            p = env
            while e is None and p is not None: e = p.vars.get('%exc'); p = p.parent
            if e is None: perr(RuntimeError, 'No active exception to reraise')
            raise e
        e = self.ev(s.exc, env)
        if isinstance(e, type): e = host(e)
        if not isinstance(e, BaseException): perr(TypeError, 'exceptions must derive from BaseException')
        raise mark(e)

    def s_try(self, s, env):
        try:
            try: r = self.block(s.body, env)
            except Exception as e:
                if not getattr(e, '_prog', False): raise
                for h in s.handlers:
                    t = self.ev(h.type, env) if h.type is not None else BaseException
                    if isinstance(e, t):
                        if h.name: self.store(h.name, e, env)
                        old = env.vars.get('%exc'); env.vars['%exc'] = e
                        try: r = self.block(h.body, env)
                        finally:
                            if old is None: env.vars.pop('%exc', None)
                            else: env.vars['%exc'] = old
                        break
                else: raise
            else:
                if r is None: r = self.block(s.orelse, env)
        except (Found, Unsupported): raise
        except BaseException:
            f = self.block(s.finalbody, env)
            if f is not None: return f
            raise
        f = self.block(s.finalbody, env)
        return f if f is not None else r

    def s_assert(self, s, env):
        if not self.truth(self.ev(s.test, env)): perr(AssertionError, '')

    def s_delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                if t.id not in env.vars: perr(NameError, t.id)
                del env.vars[t.id]
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env); k = self.ev(t.slice, env)
                host(operator.delitem, o, k)
            elif isinstance(t, ast.Attribute): host(delattr, self.ev(t.value, env), t.attr)
            else: raise Unsupported('del')

    def s_import(self, s, env):
        for a in s.names:
            n = a.name
            if n.startswith('pywt'): v = self.load(n)
            elif n in STDLIB: v = STDLIB[n] if a.asname or '.' not in n else STDLIB[n.split('.')[0]]
            else: v = Lazy_unknown(n)
            self.store((a.asname or n).split('.')[0] if not a.asname else a.asname, v, env)

    def s_importfrom(self, s, env):
        if s.level: name = self.relname(env.module, s.level, s.module)
        else: name = s.module
        if name.startswith('pywt'):
            m = self.load(name)
            for a in s.names:
                if a.name == '*':
                    for n in m.d.get('__all__', [x for x in m.d if not x.startswith('_')]): self.store(n, m.d[n], env)
                    continue
                if a.name in m.d: v = m.d[a.name]
                elif os.path.exists(os.path.join(self.repo, *name.split('.'), a.name + '.py')) or os.path.exists(os.path.join(self.repo, *name.split('.'), a.name + '.pyx')):
                    v = self.load(name + '.' + a.name)
                elif m.loading: v = Lazy(name, a.name)
                else: perr(ImportError, 'cannot import name %r from %r' % (a.name, name))
                self.store(a.asname or a.name, v, env)
        else:
            m = STDLIB.get(name)
            for a in s.names:
                if m is None: v = Lazy_unknown(name + '.' + a.name)
                else:
                    try: v = getattr(m, a.name)
                    except AttributeError: raise Unsupported('%s.%s' % (name, a.name))
                self.store(a.asname or a.name, v, env)

    def s_functiondef(self, s, env):
        qual = s.name if env.func is None else env.func.__qualname__ + '.' + s.name
        if env.cls and env.func is None: qual = env.cls + '.' + s.name
        f = self.mkfunc(s, env, qual)
        v = f
        for d in reversed(s.decorator_list): v = self.call(self.ev(d, env), [v], {})
        self.store(s.name, v, env)

    def mkfunc(self, s, env, qual, is_lambda=False):
        A = s.args
        dv = [plain(self.ev(d, env)) for d in A.defaults]
        kd = {a.arg: plain(self.ev(d, env)) for a, d in zip(A.kwonlyargs, A.kw_defaults) if d is not None}
        e = env
        if env.cls and env.func is None and not is_lambda: e = env.parent     # class body scope is not visible to methods
        if e is not None and e.vars is e.module.d: e = None
        f = Func(s, env.module, e, self, qual, dv, kd, is_lambda)
        f.cls = env.cls if isinstance(env.cls, str) else None
        return f

    def s_classdef(self, s, env):
        decs = [self.ev(d, env) for d in s.decorator_list]
        bases = [self.ev(b, env) for b in s.bases]
        kw = {k.arg: self.ev(k.value, env) for k in s.keywords if k.arg}
        cls = self.mkclass(s.name, bases, s.body, env, kw=kw)
        for d in reversed(decs): cls = self.call(d, [cls], {})
        self.store(s.name, cls, env)

    def mkclass(self, name, bases, body, env, cdef=None, kw=None):
        ce = Env(env.module, env if env.vars is not env.module.d else None, set()); ce.locals = None
        ce.cls = name
        ns = ce.vars
        ns['__module__'] = env.module.name; ns['__qualname__'] = name
        self.block(body, ce)
        ns.pop('%exc', None)
        props = [k for k in ns if k.startswith('%p:')]
        for k in props: ns[k[3:]] = ns.pop(k)
        if cdef is not None: cdef(ns)
        real = host(types.resolve_bases, tuple(bases))
        meta, prep, kw = host(types.prepare_class, name, real, dict(kw or {}))
        for k, v in ns.items():
            if type(k) is str and not k.startswith('%') or type(prep) is dict: host(operator.setitem, prep, k, v)
        if real != tuple(bases): prep['__orig_bases__'] = tuple(bases)
        cls = host(meta, name, real, prep, **kw)
        for v in ns.values():
            for f in ([v] if isinstance(v, Func) else [v.fget, v.fset, v.fdel] if isinstance(v, property) else [v.__func__] if isinstance(v, (staticmethod, classmethod)) else []):
                if isinstance(f, Func): f.cls = cls
        if env.vars.get('%classes') is None: env.vars['%classes'] = []
        return cls

    # -- Cython declarations
    def s_cvar(self, s, env):
        if s.ctype.name == 'cfunc':
            if s.name not in env.vars or isinstance(env.vars.get(s.name), Lazy):
                env.vars.setdefault(s.name, NativeFn(env.module.name, s.name, s.cargs, s.cret))
            return
        env.ctypes[s.name] = s.ctype
        if env.locals is not None: env.locals.add(s.name) if isinstance(env.locals, set) else None
        if s.ctype.dims:
            ct = s.ctype
            if len(ct.dims) > 1: raise Unsupported('array of arrays')
            el = type(ct)(ct.name, ct.kind if hasattr(ct, 'kind') else None, ct.ptr - 1, ct.mv, ct.inner)
            a = CArr(int(self.ev(ct.dims[0], env)), el, self, env)
            if s.value is not None:
                for i, v in enumerate(self.iterate(self.ev(s.value, env))): a.setitem(i, v)
            env.vars[s.name] = a
        elif s.value is not None: self.store(s.name, self.ev(s.value, env), env)
        elif s.ctype.mv or s.ctype.ptr: pass
        else:
            t = None
            try: t = self.resolve_type(s.ctype.name, env.module)
            except Unsupported: raise
            if isinstance(t, CStructDef): env.vars[s.name] = CStructVal(t, self)

    def s_cenum(self, s, env):
        if self.enums is None:
            import wavtab
            self.enums = wavtab.enums()
        vals = {}
        for n, v in s.items:
            if n not in self.enums: raise Unsupported('enumerator ' + n)
            vals[n] = CInt(self.enums[n]); env.vars[n] = vals[n]
        if s.name: env.vars[s.name] = EnumType(s.name, vals)

    def s_cstruct(self, s, env): env.vars[s.name] = CStructDef(s.name, s.fields); self.fixfields(env.vars[s.name], env)

    def fixfields(self, sd, env):
        for n, t in sd.fields.items():
            if t.ptr or t.mv: continue
            r = self.resolve_type(t.name, env.module)
            if isinstance(r, CStructDef): sd.fields[n] = r
            elif isinstance(r, str): sd.fields[n] = CType(r)

    def s_cfused(self, s, env):
        ts = []
        for t in s.types:
            ts.append(t.name)
        env.vars[s.name] = FusedType(s.name, ts)

    def s_ctypedef(self, s, env):
        env.module.types[s.name] = s.ctype
        try: v = self.resolve_type(s.ctype.name, env.module) if not (s.ctype.mv or s.ctype.ptr) else None
        except Unsupported: return
        if isinstance(v, FusedType): env.vars[s.name] = v

    def s_cimport(self, s, env):
        if s.items is None:
            n = s.module
            if n in ('numpy',): v = NPM
            else: v = STDLIB.get(n) or Lazy_unknown(n)
            self.store(s.asname or n.split('.')[0], v, env); return
        if s.level:
            base = self.relname(env.module, s.level, s.module or None)
            for a, b in s.items:
                env.vars[b] = Lazy(base + '.' + a, None) if not s.module else Lazy(base, a)
        elif s.module.startswith('pywt'):
            for a, b in s.items: env.vars[b] = Lazy(s.module, a)
        elif s.module == 'libc.math':
            for a, b in s.items: env.vars[b] = getattr(math, a)
        elif s.module == 'cpython':
            for a, b in s.items:
                if a == 'bool': env.vars[b] = bool
                else: raise Unsupported('cpython.' + a)
        elif s.module in ('numpy',):
            for a, b in s.items: env.vars[b] = getattr(NPM, a)
        elif s.module.startswith('libc.') or s.module.startswith('cython'):
            for a, b in s.items: env.vars[b] = Lazy_unknown(s.module + '.' + a)
        else: raise Unsupported('cimport ' + s.module)

    def s_cclass(self, s, env):
        attrs = {}; body = []
        prev = env.vars.get(s.name)
        for st in s.body:
            if isinstance(st, pyx.CVar): attrs[st.name] = st.ctype
            else: body.append(st)
        if env.module.path.endswith('.pyx') and M.C.loc and not any(not isinstance(x, pyx.CVar) for x in s.body):
            # declaration in the pxd
            env.vars['%cdef:' + s.name] = attrs; return
        attrs = dict(env.vars.get('%cdef:' + s.name, {}), **attrs)
        W = self
        cimod = env.module.name

        def cdef(ns):
            for k in list(ns):
                if k.startswith('%') and isinstance(ns[k], type):
                    c = ns.pop(k)
                    ns[k[1:]] = property(c.__dict__.get('__get__'), c.__dict__.get('__set__'), c.__dict__.get('__del__'))
            cinit = ns.pop('__cinit__', None); init = ns.get('__init__')
            dealloc = ns.pop('__dealloc__', None)
            if dealloc is not None: ns['%dealloc'] = dealloc

            def __init__(self, *a, **k):
                for n, t in attrs.items(): self.__dict__[n] = NULL if t.ptr else None
                if cinit is not None: W.call_func(cinit, (self,) + a, k)
                if init is not None: W.call_func(init, (self,) + a, k)
            ns['__init__'] = __init__
            if cinit is not None: cinit.cls = s.name
            ns['%cattrs'] = attrs; ns['%cmod'] = cimod
            if '__reduce__' not in ns and any(t.ptr for t in attrs.values()):
                def __reduce__(self): perr(TypeError, 'no default __reduce__ due to non-trivial __cinit__')
                ns['__reduce__'] = __reduce__
        bases = [self.ev(b, env) for b in s.bases]
        cls = self.mkclass(s.name, bases, body, env, cdef)
        env.vars[s.name] = cls

    # -- names
    def store(self, n, v, env):
        if n in env.globals: env.module.d[n] = plain(v); return
        if n in env.nonlocals:
            p = env.parent
            while p is not None:
                if n in p.vars: p.vars[n] = v; return
                p = p.parent
            raise Unsupported('nonlocal')
        if env.module.cy:
            ct = env.ctypes.get(n)
            if ct is not None: v = coerce(v, ct, self, env, n)
            elif type(v) is CInt: v = int(v)
            elif type(v) is CFloat: v = float(v)
        env.vars[n] = v

    def lookup(self, n, env):
        e = env
        while e is not None:
            if n in e.vars:
                v = e.vars[n]
                return self.deref(v) if type(v) is Lazy else v
            if e.locals is not None and n in e.locals:
                if e is env or True:
                    ct = e.ctypes.get(n)
                    if ct is not None:
                        return self.unset(n, ct, e)
                    perr(UnboundLocalError, "cannot access local variable '%s' where it is not associated with a value" % n)
            e = e.parent
        d = env.module.d
        if n in d:
            v = d[n]
            if type(v) is Lazy: v = self.deref(v)
            if isinstance(v, FusedType) and v.name in env.fused: return MODEL[env.fused[v.name][3:]]
            return v
        if n in BUILTINS: return BUILTINS[n]
        if n in env.module.types:
            return env.module.types[n]
        if n.startswith('__pyx') or n.startswith('_') and False: pass
        perr(NameError, "name '%s' is not defined" % n)

    def unset(self, n, ct, env):
        """value of a declared C variable that was never assigned"""
        if ct.mv: perr(UnboundLocalError, "local variable '%s' referenced before assignment" % n)
        if ct.ptr: raise Found('uninitialised-use', 'C pointer %s is read before it is set' % n)
        t = self.resolve_type(ct.name, env.module)
        if isinstance(t, str) and (t in INTT or t in FLOATT): raise Found('uninitialised-use', 'C variable %s is read before it is set' % n)
        if isinstance(t, str) and t.startswith('np.') or isinstance(t, type) or t == 'object': return None
        raise Unsupported('unset ' + n)

    # -- assignment targets
    def assign(self, t, v, env):
        if isinstance(t, ast.Name): self.store(t.id, v, env)
        elif isinstance(t, ast.Attribute): self.setattr(self.ev(t.value, env), t.attr, v, env)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env); k = self.ev(t.slice, env)
            self.setitem(o, k, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, MetaView): v = v.shape_values()
            vs = list(self.iterate(v))
            st = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if st:
                i = st[0]; after = len(t.elts) - i - 1
                if len(vs) < len(t.elts) - 1: perr(ValueError, 'not enough values to unpack')
                for e, x in zip(t.elts[:i], vs[:i]): self.assign(e, x, env)
                self.assign(t.elts[i].value, vs[i:len(vs) - after], env)
                for e, x in zip(t.elts[i + 1:], vs[len(vs) - after:]): self.assign(e, x, env)
            else:
                if len(vs) < len(t.elts): perr(ValueError, 'not enough values to unpack (expected %d, got %d)' % (len(t.elts), len(vs)))
                if len(vs) > len(t.elts): perr(ValueError, 'too many values to unpack (expected %d)' % len(t.elts))
                for e, x in zip(t.elts, vs): self.assign(e, x, env)
        else: raise Unsupported('target ' + type(t).__name__)

    # -- attribute and item access
    def cyattr(self, o):
        C = M.C
        return bool(C.loc) and self.mods.get(C.loc[-1][0]) is not None and self.mods[C.loc[-1][0]].cy

    def getattr(self, o, n, env=None):
        if isinstance(o, StructPtr): o = o.s
        if isinstance(o, CStructVal): return o.get(n)
        if isinstance(o, Null): raise Found('null-dereference', 'field %s of a null pointer' % n)
        if isinstance(o, EnumType): return o.vals[n]
        if isinstance(o, Module):
            if n in o.d: return self.deref(o.d[n])
            if n in o.types: return o.types[n]
            perr(AttributeError, "module '%s' has no attribute '%s'" % (o.name, n))
        if isinstance(o, NativeFn): raise Unsupported('attribute of native function')
        if isinstance(o, Base) and n.startswith('_') and not n.startswith('__'): perr(AttributeError, n)
        if o is NPM:
            try: return getattr(o, n)
            except AttributeError as e: raise mark(e)
        cm = getattr(type(o), '%cattrs', None)
        if cm is not None and n in cm:
            if not self.cyattr(o) and cm[n].ptr: perr(AttributeError, n)
            return o.__dict__[n]
        if cm is not None and n == '__dict__': perr(AttributeError, n)
        if isinstance(o, float) and type(o) is CFloat: o = float(o)
        return host(getattr, o, n)

    def setattr(self, o, n, v, env=None):
        if isinstance(o, StructPtr): o = o.s
        if isinstance(o, CStructVal):
            f = o.d.fields.get(n)
            if isinstance(f, CStructDef): raise Unsupported('nested struct assignment')
            o.set(n, v); return
        if isinstance(o, Null): raise Found('null-dereference', 'field %s of a null pointer' % n)
        cm = getattr(type(o), '%cattrs', None)
        if cm is not None:
            p = inspect.getattr_static(type(o), n, None)
            if isinstance(p, property): return host(setattr, o, n, plain(v)) if p.fset is not None else perr(AttributeError, "attribute '%s' of '%s' objects is not writable" % (n, type(o).__name__))
            if n in cm and self.cyattr(o): o.__dict__[n] = v if cm[n].ptr else plain(v); return
            perr(AttributeError, "'%s' object attribute '%s' is not writable" % (type(o).__name__, n))
        if isinstance(o, Module): o.d[n] = v; return
        host(setattr, o, n, plain(v))

    def getitem(self, o, k):
        if isinstance(o, (MetaPtr, MetaView, ElemPtr, MemView, FilterPtr, CArr)):
            return o.getitem(k)
        if isinstance(o, (DataPtr, StructPtr, CellPtr)): return self.deref_ptr(o, int(k))
        if isinstance(o, Null): raise Found('null-dereference', 'a null pointer is indexed')
        if isinstance(o, types.GenericAlias) or isinstance(o, type): return host(operator.getitem, o, k)
        return host(operator.getitem, o, unplain(k))

    def setitem(self, o, k, v):
        if isinstance(o, (MetaView, FilterPtr, MemView, CArr)): o.setitem(k, v); return
        if isinstance(o, DataPtr): self.raw_view(o).setitem(o.off + int(k), v); return
        if isinstance(o, CellPtr) and int(k) == 0: self.store(o.name, v, o.env); return
        if isinstance(o, MetaPtr): raise Found('metadata-modified', "an array's own %s is overwritten" % o.what)
        host(operator.setitem, o, unplain(k), plain(v))

    def raw_view(self, o):
        a = o.get()
        if o.elem is None or ELEM.get(o.elem) != a.dt or not a.a.flags.c_contiguous: raise Unsupported('indexing raw data')
        return MemView(Arr(a.a.reshape(-1), a.dt))

    def deref_ptr(self, o, k):
        if isinstance(o, DataPtr): return self.raw_view(o).getitem(o.off + k)
        if k: raise Unsupported('pointer arithmetic')
        if isinstance(o, StructPtr): return o.s
        return self.lookup(o.name, o.env)

    def truth(self, v):
        if v is True or v is False: return v
        if isinstance(v, CPTR): return not isinstance(v, Null)
        return host(bool, v)

    # -- expressions
    def ev(self, e, env):
        m = EXPR.get(type(e))
        if m is None: raise Unsupported('expression ' + type(e).__name__)
        return m(self, e, env)

    def e_const(self, e, env): return e.value
    def e_name(self, e, env): return self.lookup(e.id, env)

    def e_attr(self, e, env):
        o = self.ev(e.value, env)
        # C-level attributes of typed arrays
        if env.module.cy and isinstance(e.value, ast.Name) and isinstance(o, Arr):
            ct = env.ctypes.get(e.value.id)
            if ct is not None and ct.name == 'np.ndarray':
                if e.attr in ('shape', 'strides'): return MetaPtr(o, e.attr)
                if e.attr == 'data': return DataPtr(o)
                if e.attr in ('ndim', 'size'): return CInt(getattr(o, e.attr), (64, True))
        if env.module.cy and isinstance(o, np.dtype) and e.attr in ('kind', 'type', 'byteorder', 'type_num', 'flags') and (
                isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Attribute) and e.value.func.attr == 'dtype' and isinstance(e.value.func.value, ast.Name) and e.value.func.value.id == 'np'
                or isinstance(e.value, ast.Name) and getattr(env.ctypes.get(e.value.id), 'name', None) == 'np.dtype'):
            # fields of the C structure, not the Python attributes of that name
            if e.attr in ('kind', 'byteorder'): return CInt(ord(getattr(o, e.attr)))
            if e.attr == 'type': return CInt(ord(o.char))
            if e.attr == 'type_num': return CInt(o.num)
            raise Unsupported('dtype.' + e.attr)
        if env.module.cy and isinstance(o, Arr) and e.attr == 'data': raise Unsupported('.data of an untyped array')
        return self.getattr(o, e.attr, env)

    def e_sub(self, e, env):
        o = self.ev(e.value, env)
        k = self.ev(e.slice, env)
        return self.getitem(o, k)

    def e_slice(self, e, env):
        f = lambda x: None if x is None else self.ev(x, env)
        return slice(f(e.lower), f(e.upper), f(e.step))

    def seq(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred): out.extend(self.iterate(self.ev(x.value, env)))
            else: out.append(plain(self.ev(x, env)))
        return out

    def e_tuple(self, e, env): return tuple(self.seq(e.elts, env))
    def e_list(self, e, env): return self.seq(e.elts, env)
    def e_set(self, e, env): return set(self.seq(e.elts, env))

    def e_dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None: host(d.update, self.ev(v, env))
            else:
                kk = plain(self.ev(k, env)); host(d.__setitem__, kk, plain(self.ev(v, env)))
        return d

    def e_call(self, e, env):
        fn = e.func
        if isinstance(fn, ast.Name):
            if fn.id == 'super' and not e.args:
                fe = env
                while fe.func is None or not isinstance(fe.func.cls, type): fe = fe.parent
                first = fe.func.node.args.args[0].arg
                return super(fe.func.cls, fe.vars[first])
            if fn.id == 'locals' or fn.id == 'globals': raise Unsupported(fn.id)
        f = self.ev(fn, env)
        a = []; k = {}
        for x in e.args:
            if isinstance(x, ast.Starred): a.extend(self.iterate(self.ev(x.value, env)))
            else: a.append(self.ev(x, env))
        for x in e.keywords:
            if x.arg is None:
                m = self.ev(x.value, env)
                for n in host(m.keys):
                    if n in k: perr(TypeError, "got multiple values for keyword argument '%s'" % n)
                    k[n] = m[n]
            else: k[x.arg] = self.ev(x.value, env)
        C = M.C
        if C.loc and hasattr(e, 'lineno') and e.lineno: C.loc[-1][2] = e.lineno
        return self.call(f, a, k)

    def e_binop(self, e, env):
        l = self.ev(e.left, env); r = self.ev(e.right, env)
        return self.binop(BINOPS[type(e.op)], l, r, env, e.left, e.right)

    def clift(self, v, node):
        """a literal in a C expression is a C integer"""
        if type(v) is int and isinstance(node, ast.Constant): return CInt(v, (64, True))
        if type(v) is int and isinstance(node, ast.UnaryOp) and isinstance(node.operand, ast.Constant): return CInt(v, (64, True))
        return v

    def ptrop(self, op, l, r):
        lp, rp = isinstance(l, CPTR), isinstance(r, CPTR)
        if op == 'add' and not (lp and rp):
            p, k = (l, r) if lp else (r, l)
            if hasattr(p, 'shift') and isinstance(k, int): return p.shift(int(k))
        if op == 'sub' and lp and hasattr(l, 'shift'):
            if isinstance(r, int): return l.shift(-int(r))
            if rp and hasattr(r, 'pos') and l.pos()[0] == r.pos()[0]: return CInt(l.pos()[1] - r.pos()[1], (64, True))
        raise Unsupported('pointer operation ' + op)

    def binop(self, op, l, r, env, ln, rn):
        tl, tr = type(l), type(r)
        if tl in CPTR or tr in CPTR: return self.ptrop(op, l, r)
        if env.module.cy and (tl is CInt or tr is CInt):
            if tl is CInt and tr is int: r = self.clift(r, rn)
            elif tr is CInt and tl is int: l = self.clift(l, ln)
            if type(l) is CInt and type(r) is CInt: return cbin(op, l, r)
            l, r = plain(l), plain(r)
        if env.module.cy and (tl is CFloat or tr is CFloat) and isinstance(l, (int, float)) and isinstance(r, (int, float)):
            if op in ('truediv', 'mod', 'floordiv') and r == 0: perr(ZeroDivisionError, 'float division')
            return CFloat(host(OPF[op], float(l), float(r)))
        return host(OPF[op], l, r)

    def e_unary(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not): return not self.truth(v)
        if type(v) is CInt:
            ct = usual(v.ct, (32, True))
            if isinstance(e.op, ast.USub): return CInt(-int(v), ct)
            if isinstance(e.op, ast.UAdd): return CInt(int(v), ct)
            return CInt(~int(v), ct)
        f = {ast.USub: operator.neg, ast.UAdd: operator.pos, ast.Invert: operator.invert}[type(e.op)]
        r = host(f, v)
        return CFloat(r) if type(v) is CFloat else r

    def e_bool(self, e, env):
        AND = isinstance(e.op, ast.And)
        for x in e.values[:-1]:
            v = self.ev(x, env)
            if self.truth(v) != AND: return v
        return self.ev(e.values[-1], env)

    def e_compare(self, e, env):
        l = self.ev(e.left, env); ln = e.left
        res = True
        for i, (op, rn) in enumerate(zip(e.ops, e.comparators)):
            r = self.ev(rn, env)
            res = self.compare(type(op), l, r, env, ln, rn)
            if i + 1 < len(e.ops) and not self.truth(res): return res
            l = r; ln = rn
        return res

    def compare(self, op, l, r, env, ln=None, rn=None):
        if op in (ast.Is, ast.IsNot):
            if isinstance(l, Null) or isinstance(r, Null): s = isinstance(l, Null) and isinstance(r, Null)
            elif isinstance(l, CTypeMark) and isinstance(r, CTypeMark): s = l is r
            else: s = l is r or type(l) is CInt and type(r) is CInt and l == r
            return s if op is ast.Is else not s
        if type(l) in CPTR or type(r) in CPTR:
            if op in (ast.In, ast.NotIn): raise Unsupported('pointer membership')
            if op in (ast.Eq, ast.NotEq):
                if hasattr(l, 'pos') and hasattr(r, 'pos'): q = l.pos() == r.pos()
                else: q = l == r
                return q if op is ast.Eq else not q
            if hasattr(l, 'pos') and hasattr(r, 'pos') and l.pos()[0] == r.pos()[0]: return CMPF[op](l.pos()[1], r.pos()[1])
            raise Unsupported('pointer comparison')
        if op is ast.In or op is ast.NotIn:
            if isinstance(r, (list, tuple)):
                s = False
                for x in r:
                    if x is l or self.truth(self.compare(ast.Eq, l, x, env)): s = True; break
            else: s = host(operator.contains, r, plain(l))
            return s if op is ast.In else not s
        if env.module.cy and (type(l) is CInt or type(r) is CInt):
            if type(l) is CInt and type(r) is int: r = self.clift(r, rn)
            elif type(r) is CInt and type(l) is int: l = self.clift(l, ln)
            if type(l) is CInt and type(r) is CInt:
                ct = usual(l.ct, r.ct)
                return CMPF[op](int(CInt(l, ct)), int(CInt(r, ct)))
            l, r = plain(l), plain(r)
        if isinstance(l, np.dtype) and isinstance(r, CTypeMark): r = r.np
        return host(CMPF[op], l, r)

    def e_ifexp(self, e, env): return self.ev(e.body if self.truth(self.ev(e.test, env)) else e.orelse, env)
    def e_lambda(self, e, env): return self.mkfunc(e, env, (env.func.__qualname__ + '.' if env.func else '') + '<lambda>', True)

    def comp(self, gens, env, leaf):
        ce = Env(env.module, env, set(), func=env.func); ce.fused = env.fused
        if env.cls and env.func is None: ce.cls = None
        for g in gens: ce.locals |= {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        if env.module.cy:
            pass

        def rec(i):
            if i == len(gens): leaf(ce); return
            g = gens[i]
            src = self.ev(g.iter, env if i == 0 else ce)
            for x in self.iterate(src):
                self.assign(g.target, x, ce)
                if all(self.truth(self.ev(c, ce)) for c in g.ifs): rec(i + 1)
        rec(0)

    def e_listcomp(self, e, env):
        out = []
        self.comp(e.generators, env, lambda ce: out.append(plain(self.ev(e.elt, ce))))
        return out

    def e_setcomp(self, e, env): return set(self.e_listcomp(e, env))

    def e_genexp(self, e, env):
        gens = e.generators
        ce = Env(env.module, env, {n.id for g in gens for n in ast.walk(g.target) if isinstance(n, ast.Name)}, func=env.func); ce.fused = env.fused
        src = self.iterate(self.ev(gens[0].iter, env))

        def run(i):
            if i == len(gens): yield plain(self.ev(e.elt, ce)); return
            g = gens[i]
            for x in (src if i == 0 else self.iterate(self.ev(g.iter, ce))):
                self.assign(g.target, x, ce)
                if all(self.truth(self.ev(c, ce)) for c in g.ifs): yield from run(i + 1)
        return run(0)

    def e_dictcomp(self, e, env):
        out = {}
        def leaf(ce):
            k = plain(self.ev(e.key, ce)); host(out.__setitem__, k, plain(self.ev(e.value, ce)))
        self.comp(e.generators, env, leaf)
        return out

    def e_joined(self, e, env):
        return ''.join(v.value if isinstance(v, ast.Constant) else self.e_fmt(v, env) for v in e.values)

    def e_fmt(self, e, env):
        if isinstance(e, ast.JoinedStr): return self.e_joined(e, env)
        v = plain(self.ev(e.value, env))
        if e.conversion == ord('r'): v = host(repr, v)
        elif e.conversion == ord('s'): v = host(str, v)
        return host(format, v, self.e_joined(e.format_spec, env) if isinstance(e.format_spec, ast.JoinedStr) else e.format_spec.value if e.format_spec is not None else '')

    def e_named(self, e, env):
        v = self.ev(e.value, env); self.store(e.target.id, v, env); return v

    def e_starred(self, e, env): raise Unsupported('starred')

    def e_yield(self, e, env): raise Unsupported('yield inside an expression')

    # -- C expressions
    def e_ccast(self, e, env):
        v = self.ev(e.value, env); ct = e.ctype
        if ct.ptr:
            if isinstance(v, DataPtr):
                return DataPtr(v.arr, ct.name if ct.name != 'void' else None, v.off)
            return v
        n = self.resolve_type(ct.name, env.module)
        if isinstance(n, str) and n in INTT:
            if isinstance(v, CInt): return CInt(v, INTT[n])
            if isinstance(v, float): return CInt(int(v), INTT[n])
            if isinstance(v, Base) and v.dt.kind in 'f': perr(TypeError, 'an integer is required')
            return coerce(v, ct, self, env)
        if isinstance(n, str) and n in FLOATT: return coerce(v, ct, self, env)
        if n == 'np.ndarray' or n == 'object' or isinstance(n, type): return v
        raise Unsupported('cast to %r' % ct)

    def e_carraycast(self, e, env):
        v = self.ev(e.value, env)
        n = [self.ev(x, env) for x in e.shape]
        t = self.resolve_type(e.ctype.inner.name if e.ctype.inner else e.ctype.name, env.module)
        if isinstance(v, (MetaPtr, ElemPtr)): return MetaView(INTT[t], ptr=v, n=int(n[0]))
        if isinstance(v, CellPtr): return MemView(None, cell=v)
        raise Unsupported('array cast')

    def e_caddr(self, e, env):
        x = e.value
        if isinstance(x, ast.Name):
            v = env.vars.get(x.id)
            if isinstance(v, CStructVal): return StructPtr(v)
            return CellPtr(env, x.id)
        if isinstance(x, ast.Subscript):
            o = self.ev(x.value, env); k = self.ev(x.slice, env)
            if isinstance(o, MemView):
                b = o.base()
                if not 0 <= int(k) < max(b.size, 1): raise Found('view-bounds', 'address of element %d of %d' % (int(k), b.size))
                p = DataPtr(b, {'d': 'double', 'f': 'float', 'D': 'double complex', 'F': 'float complex'}[b.dt.char], int(k))
                p.keep = o if o.cell is not None else None
                if o.cell is not None: p.strong = b
                return p
            if isinstance(o, MetaView): return ElemPtr(o, k)
            if isinstance(o, CArr): return o.address(k)
        if isinstance(x, ast.Attribute):
            v = self.ev(x, env)
            if isinstance(v, CStructVal): return StructPtr(v)
        raise Unsupported('address')

    def e_cnull(self, e, env): return NULL
    def e_csizeof(self, e, env):
        return CInt({'double': 8, 'float': 4, 'double complex': 16, 'float complex': 8, 'int': 4}.get(e.ctype.name, 8), (64, False))


def unplain(k):
    if isinstance(k, slice): return slice(plain(k.start), plain(k.stop), plain(k.step))
    if isinstance(k, tuple): return tuple(plain(x) if not isinstance(x, slice) else unplain(x) for x in k)
    return plain(k)


def copy_like(): pass


COPYFN = ()


class Lazy_unknown:
    """an imported name the analysis does not model"""
    def __init__(self, n): self.__dict__['n'] = n
    def __getattr__(self, a):
        if a.startswith('__'): raise AttributeError(a)
        raise Unsupported('use of %s.%s' % (self.n, a))
    def __call__(self, *a, **k): raise Unsupported('call of ' + self.n)


STMT = {ast.Expr: World.s_expr, ast.Pass: World.s_pass, ast.Break: World.s_break, ast.Continue: World.s_continue, ast.Return: World.s_return, ast.Global: World.s_global, ast.Nonlocal: World.s_nonlocal,
        ast.Assign: World.s_assign, ast.AnnAssign: World.s_annassign, ast.AugAssign: World.s_augassign, ast.If: World.s_if, ast.While: World.s_while, ast.For: World.s_for, ast.With: World.s_with, ast.Match: World.s_match,
        ast.Raise: World.s_raise, ast.Try: World.s_try, ast.Assert: World.s_assert, ast.Delete: World.s_delete, ast.Import: World.s_import, ast.ImportFrom: World.s_importfrom,
        ast.FunctionDef: World.s_functiondef, ast.ClassDef: World.s_classdef, pyx.CVar: World.s_cvar, pyx.CEnum: World.s_cenum, pyx.CStruct: World.s_cstruct, pyx.CFused: World.s_cfused,
        pyx.CTypedef: World.s_ctypedef, pyx.CImport: World.s_cimport, pyx.CClass: World.s_cclass}
EXPR = {ast.Constant: World.e_const, ast.Name: World.e_name, ast.Attribute: World.e_attr, ast.Subscript: World.e_sub, ast.Slice: World.e_slice, ast.Tuple: World.e_tuple, ast.List: World.e_list,
        ast.Set: World.e_set, ast.Dict: World.e_dict, ast.Call: World.e_call, ast.BinOp: World.e_binop, ast.UnaryOp: World.e_unary, ast.BoolOp: World.e_bool, ast.Compare: World.e_compare,
        ast.IfExp: World.e_ifexp, ast.Lambda: World.e_lambda, ast.ListComp: World.e_listcomp, ast.SetComp: World.e_setcomp, ast.GeneratorExp: World.e_genexp, ast.DictComp: World.e_dictcomp,
        ast.JoinedStr: World.e_joined, ast.FormattedValue: World.e_fmt, ast.NamedExpr: World.e_named, ast.Starred: World.e_starred, ast.Yield: World.e_yield, ast.YieldFrom: World.e_yield,
        pyx.CCast: World.e_ccast, pyx.CArrayCast: World.e_carraycast, pyx.CAddr: World.e_caddr, pyx.CNull: World.e_cnull, pyx.CSizeof: World.e_csizeof}
