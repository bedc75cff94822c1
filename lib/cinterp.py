"""Abstract interpreter for the LLVM IR of the native layer.

Domain: integers and pointers are flat constants (one constant per calling
context), floating-point values are value numbers: polynomials over symbols that
stand for *arbitrary* array elements ("input[3]", "filter[1]").  Uninitialised
memory is a distinguished value.  Nothing of pywt is executed: blocks are
interpreted over that domain, and facts that do not depend on the element values
(which cells are touched, which products are summed) come out for all of them.

The transfer functions are generated as Python code, one function per basic block.
"""
import math, struct
from llvmir import *

M64 = (1 << 64) - 1


class Violation(Exception):
    def __init__(self, kind, loc, msg):
        Exception.__init__(self, '%s at %s: %s' % (kind, loc, msg))
        self.kind = kind; self.loc = loc; self.msg = msg


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- values
class UndefT:
    def __repr__(self): return 'undef'
    def _u(self, *a): return self
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __and__ = __rand__ = _u
    __or__ = __ror__ = __xor__ = __rxor__ = __lshift__ = __rlshift__ = __rshift__ = __rrshift__ = _u
    __floordiv__ = __rfloordiv__ = __mod__ = __rmod__ = __neg__ = __lt__ = __le__ = __gt__ = __ge__ = _u

    def __bool__(self):
        raise Violation('uninitialised-branch', '?', 'branch depends on an uninitialised value')


UNDEF = UndefT()


class PInt(UndefT):
    """integer with some unknown (uninitialised) bits: bit-fields"""
    def __init__(self, v, u): self.v = v & ~u; self.u = u
    def __repr__(self): return 'bits(%x,?%x)' % (self.v, self.u)
    def _n(v, u): return v if u == 0 else PInt(v, u)
    def __and__(self, k):
        if type(k) is not int: return UNDEF
        return PInt._n(self.v & k, self.u & k)
    __rand__ = __and__
    def __or__(self, k):
        if type(k) is PInt: return PInt._n(self.v | k.v, (self.u | k.u) & ~(self.v | k.v))
        if type(k) is not int: return UNDEF
        return PInt._n(self.v | k, self.u & ~k)
    __ror__ = __or__


class Obj:
    __slots__ = ('id', 'name', 'size', 'kind', 'ro', 'cells', 'zero', 'alive', 'esc', 'note')
    n = 0

    def __init__(self, name, size, kind, ro=False, zero=False):
        Obj.n += 1
        self.id = Obj.n; self.name = name; self.size = size; self.kind = kind; self.ro = ro
        self.cells = {}; self.zero = zero; self.alive = True; self.note = None

    def __repr__(self): return '<%s %s[%s]>' % (self.kind, self.name, self.size)


class Ptr:
    __slots__ = ('o', 'off')

    def __init__(self, o, off=0):
        self.o = o; self.off = off

    def __eq__(self, x):
        if isinstance(x, Ptr): return self.o is x.o and self.off == x.off
        return NotImplemented

    def __hash__(self): return hash((id(self.o), self.off))

    def __repr__(self): return 'null' if self.o is None and self.off == 0 else '%r+%d' % (self.o, self.off)


NULL = Ptr(None, 0)


class Poly:
    __slots__ = ('t',)

    def __init__(self, t): self.t = t

    def __repr__(self): return fmt(self)


_sym = {}
_symname = []


def symid(name):
    i = _sym.get(name)
    if i is None:
        i = _sym[name] = len(_symname); _symname.append(name)
    return i


def sym(name): return Poly({(symid(name),): 1.0})


def symname(i): return _symname[i]


def fmt(p):
    if isinstance(p, float): return repr(p)
    if not isinstance(p, Poly): return repr(p)
    if not p.t: return '0'
    out = []
    for m, c in sorted(p.t.items()):
        s = '*'.join(str(_symname[i]) for i in m) or '1'
        out.append(('%g*%s' % (c, s)) if c != 1 else s)
    return ' + '.join(out)


def pterms(p):
    if isinstance(p, Poly): return p.t
    if isinstance(p, float): return {(): p} if p else {}
    raise Unsupported('poly ' + repr(p))


def mk(t):
    if not t: return 0.0
    if len(t) == 1 and () in t: return t[()]
    return Poly(t)


def padd(a, b):
    if a is UNDEF or b is UNDEF: return UNDEF
    if type(a) is float:
        if type(b) is float: return a + b
        a, b = b, a
    if type(b) is float:
        if b == 0: return a
        t = dict(a.t); v = t.get((), 0.0) + b
        if v: t[()] = v
        else: t.pop((), None)
        return mk(t)
    t = dict(a.t)
    for m, c in b.t.items():
        v = t.get(m, 0.0) + c
        if v: t[m] = v
        else: del t[m]
    return mk(t)


def pneg(a):
    if a is UNDEF: return a
    if type(a) is float: return -a
    return Poly({m: -c for m, c in a.t.items()})


def psub(a, b):
    if GUIDE is not None and type(a) is Poly and type(b) is Poly and (a is b or a.t == b.t): return nothing(a)
    return padd(a, pneg(b))


def nothing(a):
    """a value cancelled: zero, unless it is not finite"""
    DATA[0] += 1
    return 0.0 if GUIDE not in ('nan', 'inf') or math.isfinite(pval(a)) else float('nan')


def pmul(a, b):
    if a is UNDEF or b is UNDEF: return UNDEF
    if type(a) is float:
        if type(b) is float: return a * b
        a, b = b, a
    if type(b) is float:
        if b == 0: return 0.0
        return Poly({m: c * b for m, c in a.t.items()})
    t = {}
    for m, c in a.t.items():
        for n, d in b.t.items():
            k = tuple(sorted(m + n)); v = t.get(k, 0.0) + c * d
            if v: t[k] = v
            else: t.pop(k, None)
    return mk(t)


def pkey(a):
    if isinstance(a, Poly): return ('P',) + tuple(sorted(a.t.items()))
    return a


def opaque(op, *args):
    return sym((op,) + tuple(pkey(a) for a in args))


def pdiv(a, b):
    if a is UNDEF or b is UNDEF: return UNDEF
    if type(b) is float:
        if b == 0:
            if type(a) is float: return float('nan') if a == 0 else math.copysign(float('inf'), a)
            return opaque('/', a, b)
        if type(a) is float: return a / b
        if math.frexp(b)[0] in (0.5, -0.5): return Poly({m: c / b for m, c in a.t.items()})
        return Poly({m: c / b for m, c in a.t.items()})
    if type(a) is float and a == 0: return 0.0
    if len(b.t) == 1:
        # divide by monomial c*m : multiply by opaque inverse power
        (m, c), = b.t.items()
        inv = Poly({(symid(('inv', m)),): 1.0 / c})
        return pmul(a, inv)
    return pmul(a, opaque('inv', b))


# ---- samples that decide data-dependent branches ----------------------
# A comparison of two data values has no answer in the term domain.  A context is then
# evaluated once per representative sample: the branch goes the way it goes for that sample,
# and the terms of that path are judged at that sample only.
GUIDES = ('random', 'zeros', 'alternate', 'constant', 'tiny', 'tiniest', 'huge', 'negative', 'mixed', 'taps', 'nan', 'inf')
GUIDE = None
DATA = [0]


def guide(kind):
    global GUIDE
    GUIDE = kind; DATA[0] = 0; _val.clear()


_val = {}


def _sample(s):
    """the value of one named input under the current sample"""
    if type(GUIDE) is dict: return float(GUIDE.get(s, 0.0))
    r = (hash_(s) % 100003) / 100003.0 + 0.0625
    if type(s[0]) is str and s[0][:4] in ('dec_', 'rec_'):
        j = s[1]
        if GUIDE == 'taps': return 0.0 if j % 2 else r
        if GUIDE == 'constant': return (-0.5 if j % 2 else 0.5) if '_hi' in s[0] else 0.5
        return r if hash_(('sign',) + s) % 2 else -r
    k = s[1] if len(s) > 1 and type(s[1]) is int else 0
    sg = 1.0 if hash_(('sign',) + s) % 2 else -1.0
    if GUIDE == 'zeros': return 0.0
    if GUIDE == 'alternate': return 0.0 if k % 2 == 0 or s[-1] == 'im' else r * sg
    if GUIDE == 'constant': return 1.25
    if GUIDE == 'tiny': return r * sg * 1e-9
    if GUIDE == 'tiniest': return r * sg * 1e-300
    if GUIDE == 'huge': return r * sg * 1e30
    if GUIDE == 'negative': return -r
    if GUIDE == 'mixed': return r * sg * (1.0, 1e-15, 1e6)[k % 3]
    if GUIDE == 'inf' and k % 5 == 3: return sg * math.inf
    if GUIDE[:5] == 'near ': return 2 * r * sg * float(GUIDE[5:])
    if GUIDE == 'nan' and k % 5 in (0, 3): return float('nan')
    return r * sg


def hash_(s):
    h = 2166136261
    for c in repr(s): h = ((h ^ ord(c)) * 16777619) & 0xffffffff
    return h ^ (h >> 15)


def _sval(i):
    v = _val.get(i)
    if v is None:
        s = _symname[i]; op = s[0] if type(s) is tuple else None
        if op == 'inv':
            if isinstance(s[1], tuple) and s[1][:1] == ('P',): d = pval(s[1])
            else:
                d = 1.0
                for q in s[1]: d *= _sval(q)
            v = 1.0 / d if d else float('nan')
        elif op in OPS:
            a = [pval(x) for x in s[1:]]
            try: v = float(OPS[op](*a))
            except (ValueError, ZeroDivisionError, OverflowError): v = float('nan')
        else: v = _sample(s if type(s) is tuple else (s,))
        _val[i] = v
    return v


OPS = {'pow': lambda a, b: a ** b, '/': lambda a, b: a / b, 'fabs': abs, 'sqrt': math.sqrt, 'exp': math.exp, 'cos': math.cos, 'sin': math.sin,
       'log': math.log, 'log2': math.log2, 'floor': math.floor, 'ceil': math.ceil, 'fmod': math.fmod, 'tan': math.tan, 'tanh': math.tanh,
       'round': lambda a: math.copysign(math.floor(abs(a) + 0.5), a), 'rint': round, 'nearbyint': round, 'trunc': math.trunc, 'hypot': math.hypot,
       'fmax': max, 'fmin': min, 'maxnum': max, 'minnum': min, 'copysign': math.copysign, 'exp2': lambda a: 2.0 ** a, 'tgamma': math.gamma, 'powi': lambda a, b: a ** b}


def pval(p):
    """a term at the current sample"""
    if type(p) in (float, int): return float(p)
    tot = 0.0
    for m, c in (p.t.items() if isinstance(p, Poly) else p[1:]):
        for i in m: c = c * _sval(i)
        tot += c
    return tot


def pscale(p):
    """the largest addend at the current sample"""
    if type(p) in (float, int): return abs(p)
    best = 0.0
    for m, c in p.t.items():
        for i in m: c = c * _sval(i)
        if not abs(c) <= best: best = abs(c)
    return best


def f32(x):
    try: return struct.unpack('f', struct.pack('f', x))[0]
    except OverflowError: return math.copysign(float('inf'), x)


# ---------------------------------------------------------------- machine
class Machine:
    """one abstract run (one calling context, one resolution of allocation outcomes)"""

    def __init__(self, prog, fail_alloc=(), choices=(), limit=400000):
        self.prog = prog
        self.fail = set(fail_alloc)
        self.choices = list(choices); self.taken = []
        self.limit = limit; self.steps = 0
        self.allocs = []          # heap objects, in order
        self.nalloc = 0
        self.globs = {}
        self.stats = {'loads': 0, 'stores': 0, 'calls': 0}
        self.calls = []
        self.reads = None         # optional set of (obj, off)
        self.last_loc = '?'
        self.trace = None

    # -- memory
    def new(self, name, size, kind='heap', ro=False, zero=False):
        return Ptr(Obj(name, size, kind, ro, zero), 0)

    def glob(self, mod, name):
        k = (id(mod), name)
        o = self.globs.get(k)
        if o is not None: return Ptr(o, 0)
        g = mod.globals.get(name)
        if g is None or g.init is None:
            for m in self.prog.mods.values():
                g2 = m.globals.get(name)
                if g2 is not None and g2.init is not None: return self.glob(m, name)
            f = self.prog.lookup(mod, name)
            if f is None and name not in mod.declares: raise Unsupported('global ' + name)
            k = ('function', name if f is None or not f.internal else id(f))      # one identity per function
            if k not in self.globs:
                o = self.globs[k] = Obj(name, 0, 'function', True); o.note = f
            return Ptr(self.globs[k], 0)
        o = Obj(name, mod.sizeof(g.ty), 'global', True)
        o.note = g.const
        self.globs[k] = o
        self.init(mod, o, 0, g.ty, g.init)
        return Ptr(o, 0)

    def init(self, mod, o, off, ty, v):
        ty = mod.resolve(ty)
        k = v[0]
        if k == 'zero': o.zero = True; return
        if k == 'undef': return
        if k == 'str':
            for i, b in enumerate(v[1]): o.cells[off + i] = (b, 1)
            return
        if k == 'agg':
            if ty.k in ('arr', 'vec'):
                s = mod.sizeof(ty.b)
                for i, (t, e) in enumerate(v[1]): self.init(mod, o, off + i * s, t, e)
            else:
                for i, (t, e) in enumerate(v[1]): self.init(mod, o, off + mod.field_offset(ty, i), t, e)
            return
        o.cells[off] = (self.const(mod, ty, v), mod.sizeof(ty))

    def const(self, mod, ty, v):
        k = v[0]
        if k == 'i':
            return v[1] & ((1 << ty.a) - 1) if ty.k == 'int' else v[1]
        if k == 'f': return v[1]
        if k == 'null': return NULL
        if k == 'g': return self.glob(mod, v[1])
        if k == 'undef': return UNDEF
        if k == 'zero':
            if ty.k in ('float', 'double'): return 0.0
            if ty.k == 'ptr': return NULL
            if ty.k == 'int': return 0
            if ty.k in ('vec', 'arr'): return tuple(self.const(mod, mod.resolve(ty.b), v) for _ in range(ty.a))
            return tuple(self.const(mod, mod.resolve(t), v) for t in ty.a)
        if k == 'agg': return tuple(self.const(mod, mod.resolve(t), e) for t, e in v[1])
        if k == 'gep':
            p = self.const(mod, TPTR, v[2])
            return Ptr(p.o, p.off + gep_const(mod, v[1], [x[1] for x in v[3]]))
        raise Unsupported('const %r' % (v,))

    def check(self, p, size, what, loc):
        if not isinstance(p, Ptr):
            if p is UNDEF: raise Violation('uninitialised-pointer', loc, what + ' through an uninitialised pointer')
            raise Unsupported('ptr %r at %s' % (p, loc))
        o = p.o
        if o is None:
            raise Violation('null-deref', loc, what + ' through a null pointer')
        if not o.alive:
            raise Violation('use-after-free', loc, '%s of released %s' % (what, o.name))
        if p.off < 0 or p.off + size > o.size:
            raise Violation('out-of-bounds', loc, '%s of %d bytes at byte offset %d of %s (size %d)' % (what, size, p.off, o.name, o.size))

    def load(self, p, size, kind, loc):
        if type(p) is not Ptr or p.o is None or not p.o.alive or p.off < 0 or p.off + size > p.o.size:
            self.check(p, size, 'read', loc)
        o = p.o
        c = o.cells.get(p.off)
        if c is not None and c[1] == size:
            if self.reads is not None: self.reads.add((o.id, p.off))
            v = c[0]
            if kind == 'f' and type(v) is int:
                if v == 0: return 0.0
                return UNDEF if v is UNDEF else struct.unpack('<f' if size == 4 else '<d', struct.pack('<I' if size == 4 else '<Q', v))[0]
            if kind == 'p' and type(v) is int:
                if v == 0: return NULL
                raise Unsupported('int as ptr')
            if kind == 'i' and type(v) is not int:
                if isinstance(v, UndefT): return v
                if type(v) is float: return struct.unpack('<I' if size == 4 else '<Q', struct.pack('<f' if size == 4 else '<d', v))[0]
                if v is NULL or (type(v) is Ptr and v.o is None): return 0
                if type(v) is Ptr: return v
                raise Unsupported('float bits')
            return v
        if c is None and o.zero and not any((p.off - k) in o.cells and o.cells[p.off - k][1] > k for k in range(1, 16)):
            return {'i': 0, 'f': 0.0, 'p': NULL}[kind]
        # assemble from integer cells byte by byte
        bs = []
        for k in range(size):
            b = None
            for back in range(0, 16):
                d = o.cells.get(p.off + k - back)
                if d is not None:
                    if d[1] > back:
                        if type(d[0]) is PInt and size == d[1] == 1: return d[0]
                        if type(d[0]) is not int: raise Unsupported('partial load at ' + loc)
                        b = (d[0] >> (8 * back)) & 255
                    break
            if b is None:
                if not o.zero and kind == 'i' and size == 1: return PInt(0, 255)
                if not o.zero: raise Violation('uninitialised-read', loc, 'reads element at byte %d of %s before it is written' % (p.off, o.name))
                b = 0
            bs.append(b)
        raw = int.from_bytes(bytes(bs), 'little')
        if kind == 'i': return raw
        if kind == 'p':
            if raw == 0: return NULL
            raise Unsupported('pointer bytes at ' + loc)
        return struct.unpack('<f' if size == 4 else '<d', bytes(bs))[0]

    def store(self, p, size, v, loc):
        if type(p) is not Ptr or p.o is None or not p.o.alive or p.off < 0 or p.off + size > p.o.size or p.o.ro:
            self.check(p, size, 'write', loc)
            if p.o.ro:
                raise Violation('write-to-' + ('static' if p.o.kind == 'global' else 'input'), loc, 'writes %s, which the routine may only read' % p.o.name)
        o = p.o; off = p.off; cells = o.cells
        c = cells.get(off)
        if c is None or c[1] != size:
            # kill overlaps
            for k in range(1, 16):
                d = cells.get(off - k)
                if d is not None and d[1] > k:
                    if type(d[0]) is int: self.split(o, off - k)
                    else: del cells[off - k]
            for k in range(1, size):
                d = cells.get(off + k)
                if d is not None:
                    if k + d[1] > size and type(d[0]) is int: self.split(o, off + k)
                    cells.pop(off + k, None)
            if c is not None and c[1] > size and type(c[0]) is int: self.split(o, off)
        cells[off] = (v, size)

    def split(self, o, off):
        v, s = o.cells.pop(off)
        for k in range(s): o.cells[off + k] = ((v >> (8 * k)) & 255, 1)

    def memcpy(self, d, s, n, loc):
        if n == 0: return
        self.check(d, n, 'write', loc); self.check(s, n, 'read', loc)
        if d.o.ro: raise Violation('write-to-input', loc, 'writes ' + d.o.name)
        cs = [(k - s.off, v) for k, v in list(s.o.cells.items()) if s.off <= k < s.off + n]
        for k in [k for k in d.o.cells if d.off <= k < d.off + n]: del d.o.cells[k]
        if s.o.zero:
            have = set()
            for k, (v, sz) in cs: have.update(range(k, k + sz))
            for k in range(0, n):
                if k not in have: d.o.cells[d.off + k] = (0, 1)
            # merge zero runs into words for convenience
            self._mergezero(d, n)
        for k, v in cs: d.o.cells[d.off + k] = v

    def _mergezero(self, d, n):
        c = d.o.cells
        k = d.off
        e = d.off + n
        while k + 8 <= e:
            if k % 8 == 0 and all(c.get(k + j) == (0, 1) for j in range(8)):
                for j in range(8): del c[k + j]
                c[k] = (0, 8); k += 8
            else: k += 1

    def malloc(self, size, loc, zero=False):
        i = self.nalloc; self.nalloc += 1
        if i in self.fail or (type(size) is int and size > 1 << 46):
            self.allocs.append(None)
            return NULL
        if type(size) is not int: raise Violation('uninitialised-size', loc, 'allocation size is not initialised')
        o = Obj('heap#%d(%s)' % (i, loc), size, 'heap', False, zero)
        o.note = loc
        self.allocs.append(o)
        return Ptr(o, 0)

    def free(self, p, loc):
        if p is UNDEF: raise Violation('uninitialised-pointer', loc, 'free of an uninitialised pointer')
        if type(p) is not Ptr: raise Unsupported('free')
        if p.o is None: return
        o = p.o
        if not o.alive: raise Violation('double-free', loc, 'releases %s again' % o.name)
        if o.kind != 'heap' or p.off: raise Violation('invalid-free', loc, 'releases memory it does not own: %r' % p)
        o.alive = False

    def choose(self, n, loc):
        i = len(self.taken)
        c = self.choices[i] if i < len(self.choices) else 0
        self.taken.append((c, n, loc))
        return c

    def live_heap(self): return [o for o in self.allocs if o is not None and o.alive]

    # -- calls
    def call(self, name, args, mod=None):
        f = self.prog.lookup(mod, name) if mod is not None else self.prog.fn.get(name)
        if f is None: raise Unsupported('no function ' + name)
        return self.run(f, args)

    def run(self, f, args):
        cf = compiled(self.prog, f)
        if len(args) != len(f.params): raise Unsupported('arity ' + f.name)
        R = cf.init(self)
        for i, (t, n, at) in enumerate(f.params):
            a = args[i]
            if 'byval' in at and type(a) is Ptr:
                cp = self.new('byval', a.o.size - a.off, 'stack')
                self.memcpy(cp, a, a.o.size - a.off, f.name)
                a = cp
            R[cf.reg[n]] = a
        b = 0; blocks = cf.code
        steps = 0
        lim = self.limit
        try:
            while b >= 0:
                b = blocks[b](self, R)
                self.steps += 1
                if self.steps > lim:
                    raise Violation('no-termination', cf.where(b), 'loop still running after %d basic blocks' % lim)
        except Violation as e:
            if e.loc == '?': e.loc = cf.where(b); e.args = ('%s at %s: %s' % (e.kind, e.loc, e.msg),)
            raise
        return R[0]

    def ext(self, name, args, loc, mod):
        if name == 'malloc': return self.malloc(args[0], loc)
        if name == 'calloc':
            n = args[0] * args[1]
            if n > M64: n = 1 << 60
            return self.malloc(n, loc, True)
        if name == 'realloc':
            p = self.malloc(args[1], loc)
            if p.o is not None:
                if args[0].o is not None:
                    self.memcpy(p, args[0], min(args[0].o.size, args[1]), loc); self.free(args[0], loc)
            return p
        if name == 'free': return self.free(args[0], loc)
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove') or name in ('memcpy', 'memmove'):
            self.memcpy(args[0], args[1], args[2], loc); return args[0]
        if name.startswith('llvm.memset') or name == 'memset':
            p, v, n = args[:3]
            if n == 0: return p
            self.check(p, n, 'write', loc)
            if p.o.ro: raise Violation('write-to-input', loc, 'writes ' + p.o.name)
            for k in [k for k in p.o.cells if p.off <= k < p.off + n]: del p.o.cells[k]
            if p.off == 0 and n == p.o.size and v == 0: p.o.zero = True; return p
            for k in range(n): p.o.cells[p.off + k] = (v & 255, 1)
            if v == 0: self._mergezero(p, n)
            return p
        if name.startswith('llvm.ctlz'):
            bits = int(name.rsplit('i', 1)[1]); v = args[0]
            return bits - v.bit_length()
        if name.startswith('llvm.cttz'):
            bits = int(name.rsplit('i', 1)[1]); v = args[0]
            return (v & -v).bit_length() - 1 if v else bits
        if name.startswith('llvm.ctpop'): return bin(args[0]).count('1')
        if name.startswith('llvm.umin'): return min(args)
        if name.startswith('llvm.umax'): return max(args)
        if name.startswith('llvm.smin') or name.startswith('llvm.smax'):
            bits = int(name.rsplit('i', 1)[1])
            f = min if 'smin' in name else max
            return f(args, key=lambda v: sgn(v, bits))
        if name.startswith('llvm.fmuladd') or name.startswith('llvm.fma'): return padd(pmul(args[0], args[1]), args[2])
        if name.startswith('llvm.fabs') or name in ('fabs', 'fabsf'):
            return abs(args[0]) if type(args[0]) is float else opaque('fabs', args[0])
        if name.startswith('llvm.lifetime') or name.startswith('llvm.assume'): return None
        if name in ('__mulsc3', '__muldc3'):
            a, b, c, d = args
            r = (psub(pmul(a, c), pmul(b, d)), padd(pmul(a, d), pmul(b, c)))
            return r
        if name.startswith('llvm.is.fpclass') and (type(args[0]) is float or GUIDE is not None):
            if type(args[0]) is not float: DATA[0] += 1
            v = pval(args[0])
            bit = 3 if v != v else (4 if v < 0 else 512) if abs(v) == math.inf else (32 if math.copysign(1, v) < 0 else 64) if v == 0 else \
                (16 if v < 0 else 128) if abs(v) < 2.2250738585072014e-308 else (8 if v < 0 else 256)
            return int(bool(bit & args[1]))
        base = name[:-1] if name.endswith('f') and name not in ('erf',) else name
        base = base.replace('llvm.', '').split('.')[0]
        if base in OPS or base in ('pow', 'sqrt', 'exp', 'cos', 'sin', 'log', 'log2', 'floor', 'ceil', 'fmod', 'tgamma', 'exp2', 'powi'):
            if all(type(x) is float for x in args):
                if base == 'powi': return float(args[0] ** args[1])
                return float(OPS[base](*args))
            if any(x is UNDEF for x in args): return UNDEF
            if base == 'pow' and type(args[1]) is float and args[1] == int(args[1]) and 0 <= args[1] <= 12:
                r = 1.0
                for _ in range(int(args[1])): r = pmul(r, args[0])
                return r
            return opaque(base, *args)
        if name in ('strcmp', 'strlen', 'strncmp'): raise Unsupported(name)
        raise Unsupported('external ' + name)


def sgn(v, bits): return v - (1 << bits) if v >> (bits - 1) & 1 else v


def gep_const(mod, ty, idx):
    off = idx[0] * mod.sizeof(ty)
    t = mod.resolve(ty)
    for i in idx[1:]:
        if t.k in ('arr', 'vec'): off += i * mod.sizeof(t.b); t = mod.resolve(t.b)
        else: off += mod.field_offset(t, i); t = mod.resolve(t.a[i])
    return off


# helpers used by generated code
def h_gep(p, off):
    if type(p) is not Ptr:
        if p is UNDEF: return UNDEF
        raise Unsupported('gep on %r' % (p,))
    o = (p.off + off) & M64
    if o >> 63: o -= 1 << 64
    return Ptr(p.o, o)


def h_call(m, p, args, loc, mod):
    """call through a pointer"""
    m.check(p, 0, 'call', loc)
    if p.o.kind != 'function' or p.off: raise Violation('invalid-call', loc, 'calls %r, which is no function' % p)
    if p.o.note is None: return m.ext(p.o.name, args, loc, mod)
    if len(args) != len(p.o.note.params): raise Violation('invalid-call', loc, 'calls %s with %d arguments' % (p.o.name, len(args)))
    return m.run(p.o.note, args)


def h_cmp(pred, a, b, bits, m, loc):
    if isinstance(a, UndefT) or isinstance(b, UndefT): return UNDEF
    if type(a) is Ptr or type(b) is Ptr:
        if type(a) is int and a == 0: a = NULL
        if type(b) is int and b == 0: b = NULL
        if pred == 'eq': return int(a == b)
        if pred == 'ne': return int(not (a == b))
        if a.o is b.o: a = a.off; b = b.off
        else: raise Unsupported('pointer order')
    if pred == 'eq': return int(a == b)
    if pred == 'ne': return int(a != b)
    if pred[0] == 's': a = sgn(a, bits); b = sgn(b, bits)
    p = pred[1:]
    return int(a < b if p == 'lt' else a <= b if p == 'le' else a > b if p == 'gt' else a >= b)


def fcmp(pred, a, b):
    if a != a or b != b: return int(pred[0] == 'u')
    p = pred[1:]
    return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p])


def h_fcmp(pred, a, b, m, loc):
    if a is UNDEF or b is UNDEF: raise Violation('uninitialised-branch', loc, 'comparison of an uninitialised value')
    if pred == 'uno':
        if type(a) is float and type(b) is float: return int(a != a or b != b)
        if GUIDE is None: return 0
        # an unordered test of a value against itself is what complex multiplication compiles to
        if pkey(a) != pkey(b): DATA[0] += 1
        x, y = pval(a), pval(b)
        return int(x != x or y != y)
    if pred == 'ord': return 1 - h_fcmp('uno', a, b, m, loc)
    p = pred[1:]
    if type(a) is float and type(b) is float:
        return fcmp(pred, a, b)
    if GUIDE is not None:
        DATA[0] += 1
        return fcmp(pred, pval(a), pval(b))
    if pkey(a) == pkey(b): return int(p in ('eq', 'le', 'ge'))
    return m.choose(2, loc)


def h_udiv(a, b, loc, what='div'):
    if a is UNDEF or b is UNDEF: return UNDEF
    if b == 0: raise Violation('division-by-zero', loc, 'integer division by zero')
    return a // b if what == 'div' else a % b


def h_sdiv(a, b, bits, loc, what='div'):
    if a is UNDEF or b is UNDEF: return UNDEF
    a = sgn(a, bits); b = sgn(b, bits)
    if b == 0: raise Violation('division-by-zero', loc, 'integer division by zero')
    q = abs(a) // abs(b)
    if (a < 0) != (b < 0): q = -q
    return (q if what == 'div' else a - q * b) & ((1 << bits) - 1)


def h_shift(op, a, b, bits, loc):
    if type(a) is PInt and type(b) is int and b < bits:
        if op == 'shl': return PInt._n((a.v << b) & ((1 << bits) - 1), (a.u << b) & ((1 << bits) - 1))
        if op == 'lshr': return PInt._n(a.v >> b, a.u >> b)
    if a is UNDEF or b is UNDEF: return UNDEF
    if b >= bits: raise Violation('shift-out-of-range', loc, 'shift by %d of a %d-bit value' % (b, bits))
    if op == 'shl': return (a << b) & ((1 << bits) - 1)
    if op == 'lshr': return a >> b
    return (sgn(a, bits) >> b) & ((1 << bits) - 1)


def h_sel(c, a, b, loc):
    if c is UNDEF: raise Violation('uninitialised-branch', loc, 'selection depends on an uninitialised value')
    return a if c else b


def h_cast(op, v, fb, tb, loc):
    if type(v) is PInt and op in ('zext', 'trunc'): return v if op == 'zext' else v & ((1 << tb) - 1)
    if v is UNDEF: return UNDEF
    if op == 'zext': return v
    if op == 'trunc': return v & ((1 << tb) - 1)
    if op == 'sext': return sgn(v, fb) & ((1 << tb) - 1)
    if op == 'uitofp': return float(v)
    if op == 'sitofp': return float(sgn(v, fb))
    if op == 'fpext': return v
    if op == 'fptrunc': return f32(v) if type(v) is float else v
    if op in ('fptoui', 'fptosi'):
        if type(v) is Poly and GUIDE is not None: DATA[0] += 1; v = pval(v)
        if type(v) is float:
            if v != v or abs(v) >= 2.0 ** tb: return 0 if tb < 1 else 1 << (tb - 1)
            return int(v) & ((1 << tb) - 1)
        raise Unsupported('fptoint')
    if op == 'bitcast':
        return v
    raise Unsupported(op)


def h_f32(v): return f32(v) if type(v) is float else v


class Compiled:
    def __init__(self, prog, f):
        self.prog = prog; self.f = f
        self.reg = {}
        self.nreg = 1
        self.consts = []     # (reg, ty, operand)
        for t, n, at in f.params: self.r(n)
        self.bidx = {l: i for i, l in enumerate(f.order)}
        src = []
        for l in f.order: src.append(self.block(l))
        env = {k: v for k, v in globals().items() if k.startswith('h_') or k in
               ('UNDEF', 'padd', 'psub', 'pmul', 'pdiv', 'pneg', 'Violation', 'Unsupported', 'NULL', 'Ptr', 'M64')}
        env['MOD'] = f.mod
        env['PROG'] = prog
        env['run_'] = lambda m, g, a: m.run(g, a)
        self.fns = []
        env['FNS'] = self.fns
        for g in self._fns: self.fns.append(g)
        exec(compile('\n'.join(src), '<ir:%s>' % f.name, 'exec'), env)
        self.code = [env['b%d' % i] for i in range(len(f.order))]

    _fns = None

    def r(self, n):
        if n not in self.reg: self.reg[n] = self.nreg; self.nreg += 1
        return self.reg[n]

    def where(self, b):
        if b < 0: return self.f.name
        for ins in self.f.blocks[self.f.order[b]]:
            if ins.dbg in self.f.mod.lines: return self.prog.loc(self.f, ins)
        return self.f.name

    def init(self, m):
        R = [None] * (self.nreg)
        for reg, ty, v in self.consts: R[reg] = m.const(self.f.mod, ty, v)
        return R

    def v(self, op, ty):
        k = op[0]
        if k == 'r': return 'R[%d]' % self.r(op[1])
        if k == 'i':
            t = self.f.mod.resolve(ty) if ty is not None else None
            if t is not None and t.k == 'int': return str(op[1] & ((1 << t.a) - 1))
            return str(op[1])
        if k == 'f':
            x = op[1]
            if x != x or x in (float('inf'), float('-inf')): return "float('%r')" % x
            return '(%r)' % x
        if k == 'null': return 'NULL'
        if k == 'undef': return 'UNDEF'
        key = ('const', repr(op), repr(ty))
        if key not in self.reg:
            self.reg[key] = self.nreg; self.nreg += 1
            self.consts.append((self.reg[key], self.f.mod.resolve(ty), op))
        return 'R[%d]' % self.reg[key]

    def edge(self, frm, to, ind):
        out = []
        ph = [i for i in self.f.blocks[to] if i.op == 'phi']
        tmp = []
        for i in ph:
            val = None
            for a, l in zip(i.a, i.x):
                if l == frm: val = a
            if val is None: raise IRError('phi edge %s->%s in %s' % (frm, to, self.f.name))
            tmp.append((self.r(i.dst), self.v(val, i.ty)))
        if len(tmp) == 1: out.append('%sR[%d] = %s' % (ind, tmp[0][0], tmp[0][1]))
        elif tmp:
            out.append('%s%s = %s' % (ind, ', '.join('R[%d]' % a for a, _ in tmp), ', '.join(b for _, b in tmp)))
        out.append('%sreturn %d' % (ind, self.bidx[to]))
        return out

    def block(self, l):
        if self._fns is None: self._fns = []
        f = self.f; mod = f.mod
        o = ['def b%d(m, R):' % self.bidx[l]]
        A = o.append
        for ins in f.blocks[l]:
            loc = repr('%s (%s)' % (self.prog.loc(f, ins), f.name))
            op = ins.op
            d = self.r(ins.dst) if ins.dst else None
            if op == 'phi': continue
            if op in ('add', 'sub', 'mul', 'and', 'or', 'xor'):
                b = ins.ty.a; a0 = self.v(ins.a[0], ins.ty); a1 = self.v(ins.a[1], ins.ty)
                s = {'add': '+', 'sub': '-', 'mul': '*', 'and': '&', 'or': '|', 'xor': '^'}[op]
                A(' R[%d] = (%s %s %s) & %d' % (d, a0, s, a1, (1 << b) - 1))
            elif op in ('udiv', 'urem'):
                A(' R[%d] = h_udiv(%s, %s, %s, %r)' % (d, self.v(ins.a[0], ins.ty), self.v(ins.a[1], ins.ty), loc, op[1:]))
            elif op in ('sdiv', 'srem'):
                A(' R[%d] = h_sdiv(%s, %s, %d, %s, %r)' % (d, self.v(ins.a[0], ins.ty), self.v(ins.a[1], ins.ty), ins.ty.a, loc, op[1:]))
            elif op in ('shl', 'lshr', 'ashr'):
                A(' R[%d] = h_shift(%r, %s, %s, %d, %s)' % (d, op, self.v(ins.a[0], ins.ty), self.v(ins.a[1], ins.ty), ins.ty.a, loc))
            elif op in ('fadd', 'fsub', 'fmul', 'fdiv'):
                fn = {'fadd': 'padd', 'fsub': 'psub', 'fmul': 'pmul', 'fdiv': 'pdiv'}[op]
                if ins.ty.k == 'vec': raise IRError('vector arithmetic')
                e = '%s(%s, %s)' % (fn, self.v(ins.a[0], ins.ty), self.v(ins.a[1], ins.ty))
                if ins.ty.k == 'float': e = 'h_f32(%s)' % e
                A(' R[%d] = %s' % (d, e))
            elif op == 'fneg': A(' R[%d] = pneg(%s)' % (d, self.v(ins.a[0], ins.ty)))
            elif op == 'freeze': A(' R[%d] = %s' % (d, self.v(ins.a[0], ins.ty)))
            elif op == 'icmp':
                t = mod.resolve(ins.ty); a0 = self.v(ins.a[0], t); a1 = self.v(ins.a[1], t)
                if t.k == 'int' and ins.x in ('eq', 'ne', 'ult', 'ule', 'ugt', 'uge') and False: pass
                A(' R[%d] = h_cmp(%r, %s, %s, %d, m, %s)' % (d, ins.x, a0, a1, t.a if t.k == 'int' else 64, loc))
            elif op == 'fcmp':
                A(' R[%d] = h_fcmp(%r, %s, %s, m, %s)' % (d, ins.x, self.v(ins.a[0], ins.ty), self.v(ins.a[1], ins.ty), loc))
            elif op in CAST:
                ft = mod.resolve(ins.x); tt = mod.resolve(ins.ty)
                A(' R[%d] = h_cast(%r, %s, %d, %d, %s)' % (d, op, self.v(ins.a[0], ins.x), ft.a if ft.k == 'int' else 0, tt.a if tt.k == 'int' else 0, loc))
            elif op == 'select':
                A(' R[%d] = h_sel(%s, %s, %s, %s)' % (d, self.v(ins.a[0], tint(1)), self.v(ins.a[1], ins.ty), self.v(ins.a[2], ins.ty), loc))
            elif op == 'load':
                t = mod.resolve(ins.ty)
                if t.k == 'vec':
                    es = mod.sizeof(t.b)
                    A(' p = %s' % self.v(ins.a[0], TPTR))
                    A(' R[%d] = tuple(m.load(h_gep(p, k*%d), %d, %r, %s) for k in range(%d))' % (d, es, es, {'int': 'i', 'ptr': 'p'}.get(mod.resolve(t.b).k, 'f'), loc, t.a))
                else:
                    k = {'int': 'i', 'ptr': 'p', 'float': 'f', 'double': 'f'}[t.k]
                    A(' R[%d] = m.load(%s, %d, %r, %s)' % (d, self.v(ins.a[0], TPTR), mod.sizeof(t), k, loc))
            elif op == 'store':
                t = mod.resolve(ins.ty)
                if t.k == 'vec':
                    es = mod.sizeof(t.b)
                    A(' p = %s; v = %s' % (self.v(ins.a[1], TPTR), self.v(ins.a[0], t)))
                    A(' for k in range(%d): m.store(h_gep(p, k*%d), %d, v[k], %s)' % (t.a, es, es, loc))
                else:
                    A(' m.store(%s, %d, %s, %s)' % (self.v(ins.a[1], TPTR), mod.sizeof(t), self.v(ins.a[0], t), loc))
            elif op == 'gep':
                t = mod.resolve(ins.ty)
                terms = []; c = 0

                def add(idx, ity, size):
                    nonlocal c
                    if idx[0] == 'i': c += idx[1] * size
                    else:
                        b = ity.a
                        x = self.v(idx, ity)
                        if b != 64: x = 'h_cast("sext", %s, %d, 64, "")' % (x, b)
                        terms.append('%s*%d' % (x, size))
                add(ins.a[1], ins.x[0], mod.sizeof(t))
                for ix, ity in zip(ins.a[2:], ins.x[1:]):
                    if t.k in ('arr', 'vec'): add(ix, ity, mod.sizeof(t.b)); t = mod.resolve(t.b)
                    else: c += mod.field_offset(t, ix[1]); t = mod.resolve(t.a[ix[1]])
                A(' R[%d] = h_gep(%s, %s)' % (d, self.v(ins.a[0], TPTR), ' + '.join(terms + [str(c)])))
            elif op == 'alloca':
                A(' R[%d] = m.new(%r, %d*%s, "stack")' % (d, ins.dst, mod.sizeof(ins.ty), self.v(ins.a[0], tint(64))))
            elif op == 'br':
                o += self.edge(l, ins.x, ' ')
            elif op == 'cbr':
                A(' if %s:' % self.v(ins.a[0], tint(1)))
                o += self.edge(l, ins.x[0], '  ')
                o += self.edge(l, ins.x[1], ' ')
            elif op == 'switch':
                A(' v = %s' % self.v(ins.a[0], ins.ty))
                A(' if v is UNDEF: raise Violation("uninitialised-branch", %s, "switch on an uninitialised value")' % loc)
                for c, lab in ins.x[1]:
                    A(' if v == %d:' % (c & ((1 << ins.ty.a) - 1)))
                    o += self.edge(l, lab, '  ')
                o += self.edge(l, ins.x[0], ' ')
            elif op == 'ret':
                if ins.a: A(' R[0] = %s' % self.v(ins.a[0], ins.ty))
                A(' return -1')
            elif op == 'unreachable':
                A(' raise Violation("unreachable", %s, "reaches unreachable code")' % loc)
            elif op == 'extractvalue':
                e = self.v(ins.a[0], ins.ty)
                for k in ins.x: e += '[%d]' % k
                A(' R[%d] = %s' % (d, e))
            elif op == 'insertvalue':
                et = self.v(ins.a[0], ins.ty)
                if len(ins.x) != 1: raise IRError('insertvalue')
                n = len(mod.resolve(ins.ty).a)
                A(' v = %s; v = list(v) if type(v) is tuple else [UNDEF]*%d; v[%d] = %s; R[%d] = tuple(v)' % (et, n, ins.x[0], self.v(ins.a[1], mod.resolve(ins.ty).a[ins.x[0]]), d))
            elif op == 'extractelement':
                A(' R[%d] = %s[%s]' % (d, self.v(ins.a[0], ins.ty), self.v(ins.a[1], tint(64))))
            elif op == 'insertelement':
                t = mod.resolve(ins.ty)
                A(' v = %s; v = list(v) if type(v) is tuple else [UNDEF]*%d; v[%s] = %s; R[%d] = tuple(v)' % (self.v(ins.a[0], t), t.a, self.v(ins.a[2], tint(64)), self.v(ins.a[1], t.b), d))
            elif op == 'call':
                (callee, args) = ins.x
                vals = [self.v(a, t) for a, t, at in args]
                asg = ' R[%d] = ' % d if d is not None else ' '
                if callee[0] != 'g':
                    A('%sh_call(m, %s, [%s], %s, MOD)' % (asg, self.v(callee, TPTR), ', '.join(vals), loc)); continue
                nm = callee[1]
                # vector-typed complex args/returns are flattened by ext()
                g = self.prog.lookup(mod, nm)
                if g is not None:
                    self._fns.append(g)
                    A('%sm.run(FNS[%d], [%s])' % (asg, len(self._fns) - 1, ', '.join(vals)))
                else:
                    A('%sm.ext(%r, [%s], %s, MOD)' % (asg, nm, ', '.join(vals), loc))
            else:
                raise IRError('op %s' % op)
        return '\n'.join(o)


def compiled(prog, f):
    c = getattr(f, '_compiled', None)
    if c is None:
        c = f._compiled = Compiled(prog, f)
    return c


# convenience ------------------------------------------------------------
def fill_array(m, name, n, esize, cplx=False, ro=True, kind='array', stride=None):
    """contiguous array of n elements whose contents are fresh symbols"""
    p = m.new(name, n * esize * (2 if cplx else 1), kind, ro)
    for i in range(n):
        if cplx:
            p.o.cells[2 * i * esize] = (sym((name, i, 're')), esize)
            p.o.cells[(2 * i + 1) * esize] = (sym((name, i, 'im')), esize)
        else:
            p.o.cells[i * esize] = (sym((name, i)), esize)
    return p


def struct_ptr(m, mod, sname, fields, ro=True):
    """build a struct object; fields: {path tuple: value}"""
    t = mod.structs[sname]
    p = m.new(sname, mod.sizeof(t), 'struct', False)
    for path, v in fields.items():
        off = 0; tt = mod.resolve(t)
        for i in path:
            off += mod.field_offset(tt, i); tt = mod.resolve(tt.a[i])
        p.o.cells[off] = (v, mod.sizeof(tt))
    p.o.ro = ro
    return p
