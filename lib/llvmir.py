"""Front end: compile the C sources of the working tree to LLVM IR and parse
the textual IR into a small structured form.

Nothing is executed: clang is only used as a parser / type checker that lowers
the C templates to SSA form.
"""
import os, re, subprocess, tempfile, struct, shutil, hashlib, pickle
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
CDIR = REPO + '/pywt/_extensions/c'
UNITS = ('common', 'convolution', 'wt', 'wavelets', 'cwt')
CLANG = 'clang-18'
OPT = '/usr/lib/llvm-18/bin/opt'
PYINC = '/usr/include/python3.12'


class IRError(Exception):
    pass


# ---------------------------------------------------------------- types
class T:
    __slots__ = ('k', 'a', 'b', '_sz')

    def __init__(self, k, a=None, b=None):
        self.k = k; self.a = a; self.b = b; self._sz = None

    def __repr__(self):
        if self.k == 'int': return 'i%d' % self.a
        if self.k == 'arr': return '[%d x %r]' % (self.a, self.b)
        if self.k == 'vec': return '<%d x %r>' % (self.a, self.b)
        if self.k == 'struct': return '{%s}' % ', '.join(map(repr, self.a))
        if self.k == 'named': return self.a
        return self.k


TFLOAT, TDOUBLE, TPTR, TVOID = T('float'), T('double'), T('ptr'), T('void')
TLABEL, TMETA = T('label'), T('metadata')
_INTS = {}


def tint(n):
    if n not in _INTS: _INTS[n] = T('int', n)
    return _INTS[n]


class Module:
    def __init__(self):
        self.structs = {}
        self.globals = {}     # name -> Global
        self.functions = {}   # name -> Function
        self.declares = set()
        self.lines = {}       # dbg id -> (file, line)

    def resolve(self, t):
        while t.k == 'named':
            t = self.structs[t.a]
        return t

    def align(self, t):
        t = self.resolve(t)
        if t.k == 'int': return max(1, (t.a + 7) // 8)
        if t.k == 'float': return 4
        if t.k in ('double', 'ptr'): return 8
        if t.k == 'arr': return self.align(t.b)
        if t.k == 'vec': return self.sizeof(t)
        if t.k == 'struct': return max([self.align(x) for x in t.a] or [1])
        raise IRError('align ' + repr(t))

    def sizeof(self, t):
        t = self.resolve(t)
        if t._sz is not None: return t._sz
        if t.k == 'int': s = max(1, (t.a + 7) // 8)
        elif t.k == 'float': s = 4
        elif t.k in ('double', 'ptr'): s = 8
        elif t.k in ('arr', 'vec'): s = t.a * self.sizeof(t.b)
        elif t.k == 'struct':
            o = 0
            for x in t.a:
                al = self.align(x); o = (o + al - 1) // al * al; o += self.sizeof(x)
            al = self.align(t); s = (o + al - 1) // al * al
        else: raise IRError('sizeof ' + repr(t))
        t._sz = s
        return s

    def field_offset(self, t, i):
        t = self.resolve(t)
        o = 0
        for j, x in enumerate(t.a):
            al = self.align(x); o = (o + al - 1) // al * al
            if j == i: return o
            o += self.sizeof(x)
        raise IRError('field')


class Global:
    __slots__ = ('name', 'ty', 'const', 'init', 'dbg')

    def __init__(self, name, ty, const, init):
        self.name = name; self.ty = ty; self.const = const; self.init = init


class Function:
    def __init__(self, name):
        self.name = name
        self.params = []     # (type, name, attrs)
        self.ret = None
        self.blocks = {}     # label -> [instr]
        self.order = []
        self.internal = False
        self.dbg = None


class Ins:
    """op: mnemonic; dst: result register or None; ty: result/operand type;
    a: operand list; x: extra"""
    __slots__ = ('op', 'dst', 'ty', 'a', 'x', 'dbg', 'txt')

    def __init__(self, op, dst=None, ty=None, a=(), x=None, dbg=None, txt=''):
        self.op = op; self.dst = dst; self.ty = ty; self.a = a; self.x = x
        self.dbg = dbg; self.txt = txt

    def __repr__(self):
        return '<%s>' % self.txt.strip()


# operands: ('r',name) ('g',name) ('i',int) ('f',float) ('null',) ('undef',)
#           ('zero',) ('agg',[..]) ('str',bytes) ('gep',ty,base,idx)

TOK = re.compile(r'''\s*(?:
  (?P<str>c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
 |(?P<qname>[%@]"[^"]*")
 |(?P<name>[%@][-A-Za-z$._0-9]+)
 |(?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[0-9A-Fa-f]+|0x[KLMHR][0-9A-Fa-f]+|-?\d+)
 |(?P<meta>![-A-Za-z0-9_.]*)
 |(?P<word>[A-Za-z_][A-Za-z0-9_.$]*)
 |(?P<attr>\#\d+)
 |(?P<ell>\.\.\.)
 |(?P<s>"[^"]*")
 |(?P<p>[\[\]{}<>(),=*:|])
)''', re.X)


def tokenize(s):
    out = []; i = 0; n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '' or s[i] == ';': break
            raise IRError('tok: %r' % s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        out.append((k, m.group(k)))
    return out


class P:
    def __init__(self, toks, mod):
        self.t = toks; self.i = 0; self.m = mod

    def peek(self, o=0):
        return self.t[self.i + o][1] if self.i + o < len(self.t) else None

    def pk(self, o=0):
        return self.t[self.i + o][0] if self.i + o < len(self.t) else None

    def next(self):
        v = self.t[self.i]; self.i += 1; return v[1]

    def accept(self, v):
        if self.peek() == v: self.i += 1; return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise IRError('expected %r got %r in %r' % (v, self.peek(), ' '.join(x[1] for x in self.t)))

    def type(self):
        v = self.next()
        if v == 'void': t = TVOID
        elif v == 'float': t = TFLOAT
        elif v == 'double': t = TDOUBLE
        elif v == 'ptr': t = TPTR
        elif v == 'label': t = TLABEL
        elif v == 'metadata': t = TMETA
        elif v == '[':
            n = int(self.next()); self.expect('x'); e = self.type(); self.expect(']'); t = T('arr', n, e)
        elif v == '<':
            if self.peek() == '{':
                t = self.type(); self.expect('>')
            else:
                n = int(self.next()); self.expect('x'); e = self.type(); self.expect('>'); t = T('vec', n, e)
        elif v == '{':
            f = []
            while not self.accept('}'):
                f.append(self.type()); self.accept(',')
            t = T('struct', tuple(f))
        elif v[0] == '%': t = T('named', v)
        elif re.match(r'i\d+$', v): t = tint(int(v[1:]))
        else: raise IRError('type? %r' % v)
        while self.accept('*'): t = TPTR
        if self.peek() == '(':       # function type
            d = 0
            while True:
                v = self.next()
                if v == '(': d += 1
                elif v == ')':
                    d -= 1
                    if d == 0: break
        return t

    def value(self, ty):
        k = self.pk(); v = self.next()
        if k in ('name', 'qname'):
            return ('r', v) if v[0] == '%' else ('g', v[1:].strip('"'))
        if k == 'num':
            rt = self.m.resolve(ty)
            if rt.k in ('float', 'double'):
                if v.startswith('0x'):
                    return ('f', struct.unpack('>d', bytes.fromhex(v[2:].rjust(16, '0')))[0])
                return ('f', float(v))
            return ('i', int(v))
        if v == 'null': return ('null',)
        if v in ('undef', 'poison'): return ('undef',)
        if v == 'zeroinitializer': return ('zero',)
        if v == 'true': return ('i', 1)
        if v == 'false': return ('i', 0)
        if k == 'str':
            raw = v[2:-1]
            b = re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), raw)
            return ('str', b.encode('latin1'))
        if v in ('[', '{', '<'):
            close = {'[': ']', '{': '}', '<': '>'}[v]
            if v == '<' and self.peek() == '{':
                r = self.value(ty); self.expect('>'); return r
            el = []
            while not self.accept(close):
                t = self.type(); el.append((t, self.value(t))); self.accept(',')
            return ('agg', el)
        if v == 'getelementptr':
            while self.peek() != '(': self.next()
            self.expect('(')
            bt = self.type(); self.expect(',')
            t = self.type(); base = self.value(t); idx = []
            while self.accept(','):
                self.accept('inrange')
                t = self.type(); idx.append(self.value(t))
            self.expect(')')
            return ('gep', bt, base, idx)
        if v in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc'):
            self.expect('('); t = self.type(); r = self.value(t); self.expect('to'); self.type(); self.expect(')')
            return ('cast', v, r)
        raise IRError('value? %r in %s' % (v, ' '.join(x[1] for x in self.t)))


FLAGS = {'nuw', 'nsw', 'exact', 'inbounds', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract',
         'afn', 'reassoc', 'volatile', 'disjoint', 'nneg', 'tail', 'musttail', 'notail', 'samesign'}
PATTR = {'noundef', 'noalias', 'zeroext', 'signext', 'nonnull', 'nocapture', 'readonly', 'readnone',
         'writeonly', 'immarg', 'returned', 'allocptr', 'inreg', 'dead_on_unwind', 'writable', 'nofree', 'nest', 'swiftself', 'allocalign', 'signext', 'nofpclass'}
BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'zext', 'sext', 'trunc', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext', 'fptrunc', 'bitcast',
        'ptrtoint', 'inttoptr'}


def skip_attrs(p):
    """parameter attributes; returns set of notable ones"""
    got = set()
    while True:
        v = p.peek()
        if v in PATTR: p.next(); continue
        if v in ('align',): p.next(); p.next(); continue
        if v in ('byval', 'sret', 'dereferenceable', 'dereferenceable_or_null', 'allocsize', 'elementtype', 'memory'):
            p.next(); got.add(v)
            if p.accept('('):
                d = 1
                while d:
                    x = p.next()
                    if x == '(': d += 1
                    elif x == ')': d -= 1
            continue
        return got


def parse_instr(line, mod):
    dbg = None
    m = re.search(r', !dbg !(\d+)', line)
    if m: dbg = int(m.group(1))
    core = re.sub(r'(, ![a-zA-Z_.]+ !\d+)+\s*$', '', line)
    core = re.sub(r'( #\d+)\s*$', '', core)
    p = P(tokenize(core), mod)
    dst = None
    if p.pk() in ('name', 'qname') and p.peek(1) == '=':
        dst = p.next(); p.next()
    op = p.next()
    while op in ('tail', 'musttail', 'notail'): op = p.next()
    I = lambda **k: Ins(op=k.get('op', op), dst=dst, ty=k.get('ty'), a=k.get('a', ()), x=k.get('x'), dbg=dbg, txt=line)
    flags = set()
    if op not in ('br', 'switch', 'ret'):
        while p.peek() in FLAGS: flags.add(p.next())
    if op in BIN:
        t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        return I(op=op, ty=t, a=(a, b), x=flags)
    if op == 'fneg':
        t = p.type(); return I(ty=t, a=(p.value(t),))
    if op == 'freeze':
        t = p.type(); return I(ty=t, a=(p.value(t),))
    if op in ('icmp', 'fcmp'):
        pred = p.next()
        t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        return I(ty=t, a=(a, b), x=pred)
    if op in CAST:
        t = p.type(); a = p.value(t); p.expect('to'); t2 = p.type()
        return I(ty=t2, a=(a,), x=t)
    if op == 'select':
        t = p.type(); c = p.value(t); p.expect(',')
        t = p.type(); a = p.value(t); p.expect(','); t = p.type(); b = p.value(t)
        return I(ty=t, a=(c, a, b))
    if op == 'phi':
        t = p.type(); inc = []
        while True:
            p.expect('['); v = p.value(t); p.expect(','); l = p.next(); p.expect(']')
            inc.append((v, l[1:]))
            if not p.accept(','): break
        return I(ty=t, a=tuple(v for v, _ in inc), x=[l for _, l in inc])
    if op == 'load':
        t = p.type(); p.expect(','); p.type(); a = p.value(TPTR)
        return I(ty=t, a=(a,))
    if op == 'store':
        t = p.type(); v = p.value(t); p.expect(','); p.type(); a = p.value(TPTR)
        return I(ty=t, a=(v, a))
    if op == 'getelementptr':
        bt = p.type(); p.expect(','); t = p.type(); base = p.value(t); idx = []
        while p.accept(','):
            t = p.type(); idx.append((p.value(t), t))
        return I(op='gep', ty=bt, a=(base,) + tuple(v for v, _ in idx), x=[t for _, t in idx])
    if op == 'br':
        t = p.type()
        if t is TLABEL: return I(op='br', a=(), x=p.next()[1:])
        c = p.value(t); p.expect(','); p.type(); l1 = p.next()[1:]; p.expect(','); p.type(); l2 = p.next()[1:]
        return I(op='cbr', a=(c,), x=(l1, l2))
    if op == 'ret':
        t = p.type()
        return I(ty=t, a=() if t is TVOID else (p.value(t),))
    if op == 'unreachable': return I()
    if op == 'alloca':
        t = p.type(); n = ('i', 1)
        if p.accept(',') and p.peek() != 'align':
            t2 = p.type(); n = p.value(t2)
        return I(ty=t, a=(n,))
    if op == 'extractvalue':
        t = p.type(); v = p.value(t); idx = []
        while p.accept(','): idx.append(int(p.next()))
        return I(ty=t, a=(v,), x=idx)
    if op == 'insertvalue':
        t = p.type(); v = p.value(t); p.expect(','); t2 = p.type(); e = p.value(t2); idx = []
        while p.accept(','): idx.append(int(p.next()))
        return I(ty=t, a=(v, e), x=idx)
    if op == 'extractelement':
        t = p.type(); v = p.value(t); p.expect(','); t2 = p.type(); i = p.value(t2)
        return I(ty=t, a=(v, i))
    if op == 'insertelement':
        t = p.type(); v = p.value(t); p.expect(','); t2 = p.type(); e = p.value(t2); p.expect(','); t3 = p.type(); i = p.value(t3)
        return I(ty=t, a=(v, e, i))
    if op == 'call':
        skip_attrs(p)
        rt = p.type()
        k = p.pk(); v = p.next()
        callee = ('g', v[1:].strip('"')) if v[0] == '@' else ('r', v)
        args = []
        if callee[0] == 'g' and callee[1].startswith('llvm.dbg'):
            return I(op='nop')
        p.expect('(')
        while not p.accept(')'):
            t = p.type(); at = skip_attrs(p); args.append((p.value(t), t, at)); p.accept(',')
        return I(ty=rt, a=tuple(x[0] for x in args), x=(callee, args))
    raise IRError('unknown instruction: ' + line)


def parse_switch(text, mod):
    dbg = None
    m = re.search(r'!dbg !(\d+)', text)
    if m: dbg = int(m.group(1))
    text2 = re.sub(r', !dbg !\d+', '', text)
    p = P(tokenize(text2), mod)
    p.next()
    t = p.type(); v = p.value(t); p.expect(','); p.type(); d = p.next()[1:]
    p.expect('['); cases = []
    while not p.accept(']'):
        t = p.type(); c = p.value(t); p.expect(','); p.type(); cases.append((c[1], p.next()[1:]))
    return Ins('switch', None, t, (v,), (d, cases), dbg, text.split('\n')[0])


def parse_module(text):
    mod = Module()
    lines = text.split('\n')
    i = 0; n = len(lines)
    meta = {}
    while i < n:
        l = lines[i]
        if l.startswith('!'):
            m = re.match(r'!(\d+) = (?:distinct )?(!DI\w+)\((.*)\)\s*$', l)
            if m: meta[int(m.group(1))] = (m.group(2), m.group(3))
        elif l.startswith('%') and ' = type ' in l:
            p = P(tokenize(l), mod); nm = p.next(); p.expect('='); p.expect('type')
            if p.peek() == 'opaque': mod.structs[nm] = T('struct', ())
            else: mod.structs[nm] = p.type()
        i += 1
    i = 0
    while i < n:
        l = lines[i]
        if l.startswith('@'):
            core = re.sub(r'(, ![a-zA-Z_.]+ !\d+)+\s*$', '', l)
            p = P(tokenize(core), mod)
            nm = p.next()[1:].strip('"'); p.expect('=')
            const = None
            ext = False
            while True:
                v = p.peek()
                if v == 'constant': const = True; p.next(); break
                if v == 'global': const = False; p.next(); break
                if v == 'external': ext = True
                p.next()
                if p.peek() == '(':
                    while p.next() != ')': pass
            t = p.type()
            init = None
            if not ext and p.peek() not in (None, ','): init = p.value(t)
            mod.globals[nm] = Global(nm, t, const, init)
        elif l.startswith('declare'):
            m = re.search(r'@("?)([-\w.$]+)\1\(', l)
            if m: mod.declares.add(m.group(2))
        elif l.startswith('define'):
            m = re.search(r'@("?)([-\w.$]+)\1\(', l)
            f = Function(m.group(2))
            f.internal = ' internal ' in l
            dm = re.search(r'!dbg !(\d+)', l)
            f.dbg = int(dm.group(1)) if dm else None
            p = P(tokenize(re.sub(r'#\d+|!dbg !\d+|\{\s*$', '', l)), mod)
            while p.peek() != '@' + f.name and p.peek() != '@"%s"' % f.name:
                j = p.i
                p.i = j + 1
            # return type sits just before the name: reparse
            pre = P(p.t[:p.i], mod)
            pre.next()
            while True:
                try:
                    save = pre.i
                    at = skip_attrs(pre)
                    if pre.peek() in ('dso_local', 'internal', 'local_unnamed_addr', 'unnamed_addr', 'hidden', 'linkonce_odr', 'weak'):
                        pre.next(); continue
                    f.ret = pre.type(); break
                except IndexError:
                    raise IRError('ret type: ' + l)
            p.next(); p.expect('(')
            while not p.accept(')'):
                if p.accept('...'): continue
                t = p.type(); at = skip_attrs(p)
                nm = p.next() if p.pk() in ('name', 'qname') else None
                f.params.append((t, nm, at)); p.accept(',')
            i += 1
            cur = None
            while lines[i] != '}':
                s = lines[i]
                if not s.strip() or s.lstrip().startswith(';'):
                    i += 1; continue
                m = re.match(r'^("?)([-\w.$]+)\1:', s)
                if m:
                    cur = m.group(2); f.blocks[cur] = []; f.order.append(cur); i += 1; continue
                if cur is None:
                    cur = '0'; f.blocks[cur] = []; f.order.append(cur)
                if s.strip().startswith('switch'):
                    j = i
                    buf = [s]
                    while ']' not in lines[j]:
                        j += 1; buf.append(lines[j])
                    f.blocks[cur].append(parse_switch('\n'.join(buf), mod))
                    i = j + 1; continue
                ins = parse_instr(s, mod)
                if ins.op != 'nop': f.blocks[cur].append(ins)
                i += 1
            mod.functions[f.name] = f
        i += 1
    # debug lines
    fcache = {}

    def fld(body, k):
        m = re.search(r'(?:^|, )%s: ("[^"]*"|!?[-\w.]+)' % k, body)
        return m.group(1) if m else None

    def fileof(s, depth=0):
        if s not in meta or depth > 30: return '?'
        if s in fcache: return fcache[s]
        k, b = meta[s]
        if k == '!DIFile': r = os.path.basename(fld(b, 'filename').strip('"'))
        else:
            x = fld(b, 'file') or fld(b, 'scope')
            r = fileof(int(x[1:]), depth + 1) if x and x[0] == '!' and x[1:].isdigit() else '?'
        fcache[s] = r
        return r
    for k, (kind, body) in meta.items():
        if kind in ('!DILocation', '!DISubprogram', '!DILexicalBlock'):
            ln = fld(body, 'line'); sc = fld(body, 'scope')
            if kind == '!DISubprogram': fl = fileof(k)
            else: fl = fileof(int(sc[1:])) if sc and sc[1:].isdigit() else '?'
            mod.lines[k] = (fl, int(ln) if ln else 0)
    return mod


def compile_unit(u, out, cdir=None):
    cdir = cdir or CDIR
    src = '%s/%s.c' % (cdir, u)
    if not os.path.exists(src): raise IRError('anchor vanished: ' + src)
    ll = '%s/%s.ll' % (out, u)
    c = subprocess.run([CLANG, '-std=c11', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names',
                        '-ffp-contract=off', '-DPY_EXTENSION', '-DHAVE_C99_COMPLEX', '-DCYTHON_CCOMPLEX=1',
                        '-I' + cdir, '-I' + PYINC, '-g1', '-S', '-emit-llvm', src, '-o', ll],
                       capture_output=True, text=True)
    if c.returncode: raise IRError('clang failed on %s: %s' % (src, c.stderr[:2000]))
    c = subprocess.run([OPT, '-S', '-passes=sroa,simplifycfg', ll, '-o', ll + '.o'], capture_output=True, text=True)
    if c.returncode: raise IRError('opt failed: ' + c.stderr[:2000])
    with open(ll + '.o') as f: return f.read()


def load(units=UNITS, cdir=None):
    """compile + parse; returns one linked Program"""
    d = tempfile.mkdtemp(prefix='vir')
    try:
        with ThreadPoolExecutor(8) as ex:
            texts = list(ex.map(lambda u: compile_unit(u, d, cdir), units))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return Program({u: parse_module(t) for u, t in zip(units, texts)})


class Program:
    """modules linked by symbol name"""

    def __init__(self, mods):
        self.mods = mods
        self.fn = {}
        for u, m in mods.items():
            for n, f in m.functions.items():
                f.mod = m; f.unit = u
                if not f.internal: self.fn[n] = f
        for u, m in mods.items():
            for n, f in m.functions.items():
                self.fn.setdefault(n, f)

    def lookup(self, mod, name):
        f = mod.functions.get(name)
        if f is None: f = self.fn.get(name)
        return f

    def loc(self, f, ins):
        l = f.mod.lines.get(ins.dbg)
        return '%s:%d' % l if l else '%s(%s)' % (f.name, ins.txt.strip()[:50])


if __name__ == '__main__':
    import time
    t = time.time()
    p = load()
    print(len(p.fn), time.time() - t)
