"""Built-in wavelet tables and continuous-wavelet routines, read out of the IR by
constant propagation (table lookups, copy loops, sign flips) and checked against
the identities they must satisfy."""
import math, subprocess, os, re, tempfile
from cinterp import *
import llvmir, native
from native import prog, FILTERS, s32, Report, KIND2PROP

SYMM = ['ASYMMETRIC', 'NEAR_SYMMETRIC', 'SYMMETRIC', 'ANTI_SYMMETRIC']
ENUM = SYMM + ['HAAR', 'RBIO', 'DB', 'SYM', 'COIF', 'BIOR', 'DMEY', 'GAUS', 'MEXH', 'MORL', 'CGAU', 'SHAN', 'FBSP', 'CMOR']
MODE_ENUM = ['MODE_INVALID', 'MODE_ZEROPAD', 'MODE_SYMMETRIC', 'MODE_CONSTANT_EDGE', 'MODE_SMOOTH', 'MODE_PERIODIC',
             'MODE_PERIODIZATION', 'MODE_REFLECT', 'MODE_ANTISYMMETRIC', 'MODE_ANTIREFLECT', 'MODE_MAX']
OTHER_ENUM = ['COEF_APPROX', 'COEF_DETAIL', 'DWT_TRANSFORM', 'SWT_TRANSFORM']
_enum = None


def enums(cdir=None):
    """values of the C enumerators, resolved by the compiler"""
    global _enum
    if _enum is None:
        names = ENUM + MODE_ENUM + OTHER_ENUM
        src = '#include "common.h"\n#include "wavelets.h"\n#include "wt.h"\n' + ''.join('const int v_%s = (int)%s;\n' % (n, n) for n in names)
        d = tempfile.mkdtemp(prefix='ven')
        try:
            with open(d + '/e.c', 'w') as f: f.write(src)
            r = subprocess.run([llvmir.CLANG, '-std=c11', '-O0', '-DPY_EXTENSION', '-DHAVE_C99_COMPLEX', '-DCYTHON_CCOMPLEX=1', '-I' + (cdir or llvmir.CDIR),
                                '-I' + llvmir.PYINC, '-S', '-emit-llvm', d + '/e.c', '-o', d + '/e.ll'], capture_output=True, text=True)
            if r.returncode: raise llvmir.IRError('enumerators: ' + r.stderr[:800])
            _enum = {}
            for m in re.finditer(r'@v_(\w+) = .*?constant i32 (-?\d+)', open(d + '/e.ll').read()): _enum[m.group(1)] = int(m.group(2))
        finally:
            import shutil; shutil.rmtree(d, ignore_errors=True)
        for n in names: assert n in _enum, n
    return _enum


BIOR = {11: 2, 13: 6, 15: 10, 22: 6, 24: 10, 26: 14, 28: 18, 31: 4, 33: 8, 35: 12, 37: 16, 39: 20, 44: 10, 55: 12, 68: 18}


def discrete_specs():
    """(enumerator, order) -> what the name denotes"""
    S = {}
    S[('HAAR', 0)] = dict(len=2, fam='Haar', short='haar', psi=1, phi=0, orth=1, bior=1)
    for n in range(1, 39): S[('DB', n)] = dict(len=2 * n, fam='Daubechies', short='db', psi=n, phi=0, orth=1, bior=1)
    for n in range(2, 21): S[('SYM', n)] = dict(len=2 * n, fam='Symlets', short='sym', psi=n, phi=0, orth=1, bior=1)
    for n in range(1, 18): S[('COIF', n)] = dict(len=6 * n, fam='Coiflets', short='coif', psi=2 * n, phi=2 * n - 1, orth=1, bior=1)
    for k, L in BIOR.items():
        S[('BIOR', k)] = dict(len=L, fam='Biorthogonal', short='bior', psi=k // 10, phi=k % 10, orth=0, bior=1)
        S[('RBIO', k)] = dict(len=L, fam='Reverse biorthogonal', short='rbio', psi=k // 10, phi=k % 10, orth=0, bior=1)
    S[('DMEY', 0)] = dict(len=62, fam='Discrete Meyer (FIR Approximation)', short='dmey', psi=None, phi=None, orth=1, bior=1)
    return S


CONT = {  # family: (orders, name, short, complex, bounds, symmetry by order, B, C, M)
    'GAUS': (range(1, 9), 'Gaussian', 'gaus', 0, (-5, 5)),
    'MEXH': ([0], 'Mexican hat wavelet', 'mexh', 0, (-8, 8)),
    'MORL': ([0], 'Morlet wavelet', 'morl', 0, (-8, 8)),
    'CGAU': (range(1, 9), 'Complex Gaussian wavelets', 'cgau', 1, (-5, 5)),
    'SHAN': ([0], 'Shannon wavelets', 'shan', 1, (-20, 20)),
    'FBSP': ([0], 'Frequency B-Spline wavelets', 'fbsp', 1, (-20, 20)),
    'CMOR': ([0], 'Complex Morlet wavelets', 'cmor', 1, (-8, 8)),
}
CONT_DEFAULT = {'SHAN': (0.5, 1.0, 0), 'FBSP': (1.0, 0.5, 2), 'CMOR': (1.0, 0.5, 0)}


def cstr(p):
    b = b''; i = p.off
    while True:
        c = p.o.cells.get(i)
        v = c[0] if c else 0
        if v == 0: return b.decode('latin-1')
        b += bytes([v]); i += 1


def wmod(): return prog().mods['wavelets']


def base_fields(m, r):
    mod = wmod(); bs = mod.structs['%struct.BaseWavelet']
    bits = m.load(Ptr(r.o, mod.field_offset(bs, 2)), 1, 'i', 'bitfield')
    d = {'symmetry': SYMM[m.load(Ptr(r.o, mod.field_offset(bs, 1)), 4, 'i', 'symmetry')]}
    for i, n in enumerate(('orthogonal', 'biorthogonal', 'compact')):
        b = bits if type(bits) is int else bits.v
        u = 0 if type(bits) is int else bits.u
        d[n] = UNDEF if u >> i & 1 else b >> i & 1
    d['family_name'] = cstr(m.load(Ptr(r.o, mod.field_offset(bs, 4)), 8, 'p', 'family_name'))
    d['short_name'] = cstr(m.load(Ptr(r.o, mod.field_offset(bs, 5)), 8, 'p', 'short_name'))
    return d


def discrete(code, order, fail=(), keep=None):
    m = Machine(prog(), fail, limit=10 ** 6)
    r = m.call('discrete_wavelet', [code, order])
    if r == NULL: return m, r, None
    mod = wmod(); st = mod.structs['%struct.DiscreteWavelet']
    off = lambda i: mod.field_offset(st, i)
    d = base_fields(m, r)
    d['dec_len'] = m.load(Ptr(r.o, off(9)), 8, 'i', 'dec_len'); d['rec_len'] = m.load(Ptr(r.o, off(10)), 8, 'i', 'rec_len')
    d['psi'] = s32(m.load(Ptr(r.o, off(11)), 4, 'i', 'vm')); d['phi'] = s32(m.load(Ptr(r.o, off(12)), 4, 'i', 'vm'))
    for i, n in enumerate(FILTERS):
        q = m.load(Ptr(r.o, off(1 + i)), 8, 'p', n); es = 8 if n.endswith('double') else 4
        L = d['dec_len'] if n.startswith('dec') else d['rec_len']
        d[n] = [m.load(Ptr(q.o, q.off + k * es), es, 'f', '%s[%d]' % (n, k)) for k in range(L)]
    return m, r, d


def lifecycle(rep):
    """creation, copy, destruction, failed allocations"""
    P = prog(); E = enums()
    def release(m, r, fn, ctx):
        try: m.call(fn, [r])
        except Violation as e: rep.bad('C07', e.kind, e.loc, '%s [%s]' % (e.msg, ctx)); return
        except Unsupported as e: rep.unsup.append(ctx + ': ' + str(e)); return
        for o in m.live_heap(): rep.bad('C07', 'leak', o.note, 'memory of a destroyed wavelet is not released [%s]' % ctx)
    def trial(make, ctx, rel, nullok):
        k = 0; n = None
        while True:
            fail = () if n is None else (k,)
            m = Machine(P, fail, limit=10 ** 6)
            c = ctx + (' allocation %d fails' % k if fail else '')
            rep.n('wavelet life cycles')
            try: r = make(m)
            except Violation as e:
                rep.bad('C06' if fail and e.kind == 'null-deref' else KIND2PROP.get(e.kind, 'C01'), e.kind, e.loc, '%s [%s]' % (e.msg, c))
                if n is None: return
                r = None
            except Unsupported as e:
                rep.unsup.append(c + ': ' + str(e)); return
            if r is not None:
                if n is None:
                    n = m.nalloc
                    if r == NULL:
                        if not nullok: rep.bad('W01', 'not-constructed', ctx, 'no wavelet is returned')
                        for o in m.live_heap(): rep.bad('C07', 'leak', o.note, 'refused name leaves memory behind [%s]' % c)
                    else: release(m, r, rel, c)
                else:
                    if r != NULL:
                        rep.bad('C06', 'failure-not-reported', ctx.split(' ')[0], 'a wavelet is returned although an allocation failed [%s]' % c)
                        release(m, r, rel, c)
                    else:
                        for o in m.live_heap(): rep.bad('C07', 'leak', o.note, 'memory allocated there is never released [%s]' % c)
                    k += 1
            else: k += 1
            if k >= (n or 0): return
    for (c, o), s in discrete_specs().items():
        trial(lambda m: m.call('discrete_wavelet', [E[c], o]), 'discrete_wavelet %s %d' % (c, o), 'free_discrete_wavelet', False)
    for c, o in (('DB', 0), ('DB', 39), ('DB', 2 ** 32 - 1), ('SYM', 0), ('SYM', 1), ('SYM', 21), ('COIF', 0), ('COIF', 18), ('BIOR', 12), ('BIOR', 0), ('BIOR', 69),
                 ('RBIO', 12), ('RBIO', 99), ('GAUS', 1), ('CMOR', 0), ('BIOR', 91), ('BIOR', 38), ('BIOR', 310), ('RBIO', 27)):
        trial(lambda m: m.call('discrete_wavelet', [E[c], o]), 'discrete_wavelet %s %d' % (c, o), 'free_discrete_wavelet', True)
        m = Machine(P)
        try:
            if m.call('discrete_wavelet', [E[c], o]) != NULL: rep.bad('W01', 'accepted', 'discrete_wavelet', 'order %d of family %s does not exist but a wavelet is returned' % (o, c))
        except (Violation, Unsupported): pass
    for L in (1, 2, 3, 6):
        trial(lambda m: m.call('blank_discrete_wavelet', [L]), 'blank_discrete_wavelet %d' % L, 'free_discrete_wavelet', False)
    if 'copy_discrete_wavelet' in P.fn:
        for c, o in (('DB', 3), ('BIOR', 24)):
            m0, r0, d0 = discrete(E[c], o)
            trial(lambda m: m.call('copy_discrete_wavelet', [r0]), 'copy_discrete_wavelet %s%d' % (c, o), 'free_discrete_wavelet', False)
    for c, v in CONT.items():
        for o in v[0]:
            trial(lambda m: m.call('continuous_wavelet', [E[c], o]), 'continuous_wavelet %s %d' % (c, o), 'free_continuous_wavelet', False)
    for c, o in (('GAUS', 9), ('CGAU', 9), ('DB', 1)):
        m = Machine(P)
        try:
            if m.call('continuous_wavelet', [E[c], o]) != NULL: rep.bad('W01', 'accepted', 'continuous_wavelet', 'order %d of family %s does not exist but a wavelet is returned' % (o, c))
        except (Violation, Unsupported): pass
    rep.n('wavelet kinds', len(ENUM) - 4)
    for c in ENUM[4:]:
        try:
            r = Machine(P).call('is_discrete_wavelet', [E[c]])
            if bool(r) != (c not in CONT): rep.bad('W01', 'kind', 'is_discrete_wavelet', 'is_discrete_wavelet(%s) is %s' % (c, r))
        except Violation as e: rep.bad('W01', e.kind, e.loc, e.msg)
        except Unsupported as e: rep.unsup.append('is_discrete_wavelet: ' + str(e))


def moments(h, n):
    F = len(h); c = (F - 1) / 2.0
    out = []
    for p in range(n):
        w = [(k - c) / max(c, 1) for k in range(F)]
        num = math.fsum(a * x ** p for a, x in zip(h, w)); den = math.fsum(abs(a) * abs(x) ** p for a, x in zip(h, w))
        out.append(abs(num) / den if den else 0.0)
    return out


def tables(rep):
    E = enums()
    S2 = math.sqrt(2.0)
    for (c, o), s in discrete_specs().items():
        name = '%s%s' % (c.lower(), o or '')
        try: m, r, d = discrete(E[c], o)
        except Violation as e:
            rep.bad(KIND2PROP.get(e.kind, 'W01'), e.kind, e.loc, '%s [%s]' % (e.msg, name)); rep.bad('W01', e.kind, e.loc, '%s [%s]' % (e.msg, name)); continue
        except Unsupported as e:
            rep.unsup.append(name + ': ' + str(e)); continue
        rep.n('wavelets')
        if d is None: rep.bad('W01', 'not-constructed', name, 'no wavelet is returned'); continue
        if (d['dec_len'], d['rec_len']) != (s['len'], s['len']): rep.bad('W01', 'length', name, 'filter lengths %s, expected %d' % ((d['dec_len'], d['rec_len']), s['len']))
        if (d['family_name'], d['short_name']) != (s['fam'], s['short']): rep.bad('W01', 'family', name, 'family names %r' % ((d['family_name'], d['short_name']),))
        for a, b in (('orthogonal', 'orth'), ('biorthogonal', 'bior')):
            if d[a] is UNDEF: rep.bad('W03', 'attribute', name, '%s is never set' % a)
            elif d[a] != s[b]: rep.bad('W03', 'attribute', name, '%s is %s, but the %s family is%s' % (a, bool(d[a]), s['fam'], '' if s[b] else ' not'))
        for T in ('double', 'float'):
            dl, dh, rl, rh = (d['%s_%s' % (k, T)] for k in ('dec_lo', 'dec_hi', 'rec_lo', 'rec_hi'))
            F = len(dl)
            if not all(type(x) is float for q in (dl, dh, rl, rh) for x in q) or not all(len(q) == F for q in (dl, dh, rl, rh)):
                rep.bad('W02', 'table', name, 'filters are not fully defined'); continue
            tol = 5e-15
            if c == 'SYM': tol = 5e-11
            if c in ('BIOR', 'RBIO') and o in (44, 55, 68): tol = 5e-12
            if c == 'DMEY': tol = 3e-3
            if T == 'float': tol = max(tol, 4e-7)
            rep.n('filters', 4)
            b = dl[::-1]
            worst = 0
            for k in range(-(F // 2), F // 2 + 1):
                v = math.fsum(rl[n] * b[n + 2 * k] for n in range(F) if 0 <= n + 2 * k < F) - (k == 0)
                rep.n('identities')
                if abs(v) > abs(worst): worst = v
            if abs(worst) > tol: rep.bad('W02', 'biorthogonality', name, 'low-pass filters (%s): sum deviates by %.3g' % (T, worst))
            ltol = 1e-13 if T == 'double' else 2e-7
            for nm, q in (('dec_lo', dl), ('rec_lo', rl)):
                rep.n('identities', 2)
                if abs(math.fsum(q) - S2) > ltol: rep.bad('W02', 'gain', name, '%s (%s) sums to %.15g instead of sqrt(2)' % (nm, T, math.fsum(q)))
                if abs(math.fsum(x * (-1) ** k for k, x in enumerate(q))) > (2e-10 if T == 'double' else 4e-7) and c != 'DMEY':
                    rep.bad('W02', 'zero-at-pi', name, '%s (%s) does not vanish at the Nyquist frequency' % (nm, T))
            for nm, hi, lo in (('rec_hi', rh, dl), ('dec_hi', dh, rl)):
                e = [min(max(abs(h - sg * (-1) ** k * l) for k, (h, l) in enumerate(zip(hi, lo))), 9) for sg in (1, -1)]
                rep.n('identities')
                if min(e) > 0: rep.bad('W02', 'mirror', name, '%s (%s) is not the alternating-sign copy of %s' % (nm, T, 'dec_lo' if nm == 'rec_hi' else 'rec_lo'))
            # the two high-pass signs must cooperate: <rec_hi, reversed dec_hi> = 1
            v = math.fsum(rh[k] * dh[F - 1 - k] for k in range(F)) - 1
            if abs(v) > max(tol, 1e-14) * 4: rep.bad('W02', 'high-pass pair', name, 'high-pass filters (%s): inner product deviates by %.3g' % (T, v))
            if s['orth'] and d['orthogonal']:
                if max(abs(x - y) for x, y in zip(rl, b)) > 0 or max(abs(x - y) for x, y in zip(rh, dh[::-1])) > 0:
                    rep.bad('W02', 'time-reversal', name, 'orthogonal wavelet whose synthesis filters (%s) are not the reversed analysis filters' % T)
            if T == 'float':
                for k in ('dec_lo', 'dec_hi', 'rec_lo', 'rec_hi'):
                    e = max(abs(x - y) for x, y in zip(d[k + '_float'], d[k + '_double']))
                    if e > 1.3e-7: rep.bad('W02', 'precision', name, '%s differs by %.3g between the precisions' % (k, e))
            # attributes
            if d['symmetry'] in ('SYMMETRIC', 'ANTI_SYMMETRIC'):
                for nm, q in (('dec_lo', dl), ('rec_lo', rl), ('dec_hi', dh), ('rec_hi', rh)):
                    rep.n('identities')
                    if min(max(abs(x - sg * y) for x, y in zip(q, q[::-1])) for sg in (1, -1)) > (3e-11 if T == 'double' else 2e-7):
                        # odd-support filters stored in even-length rows: symmetric about a tap
                        if not any(min(max(abs(x - sg * y) for x, y in zip(q[a:F - bb], q[a:F - bb][::-1])) for sg in (1, -1)) < 3e-11 + (T == 'float') * 2e-7
                                   and all(abs(x) < 1e-12 for x in q[:a] + q[F - bb:]) for a in range(0, 3) for bb in range(0, 3)):
                            rep.bad('W03', 'symmetry', name, 'described as %s but %s (%s) is not' % (d['symmetry'].lower(), nm, T))
            if s['psi'] is not None:
                if (d['psi'], d['phi']) != (s['psi'], s['phi']):
                    rep.bad('W03', 'moments', name, 'vanishing moments (%s, %s), the name denotes (%s, %s)' % (d['psi'], d['phi'], s['psi'], s['phi']))
                mt = {'double': 1e-10, 'float': 4e-7}[T]
                a, bq = (rh, dh) if c == 'RBIO' else (dh, rh)
                for p, v in enumerate(moments(a, max(0, min(d['psi'], F)))):
                    rep.n('identities')
                    if v > mt: rep.bad('W03', 'moments', name, 'moment %d of the wavelet filter (%s) is %.3g but %d vanishing moments are claimed' % (p, T, v, d['psi'])); break
                if c in ('BIOR', 'RBIO') and o != 55:  # the 5.5 pair has fewer dual moments than its name says, in every library
                    for p, v in enumerate(moments(bq, max(0, min(d['phi'], F)))):
                        if v > mt: rep.bad('W03', 'moments', name, 'moment %d of the dual filter (%s) is %.3g but %d are claimed' % (p, T, v, d['phi'])); break
                if c == 'COIF':
                    # scaling-function moments 1..phi vanish about the centre of mass (an integer)
                    c0 = math.fsum(k * x for k, x in enumerate(dl)) / math.fsum(dl)
                    sc = F / 2.0
                    for p in range(1, d['phi'] + 1):
                        num = math.fsum(x * ((k - round(c0)) / sc) ** p for k, x in enumerate(dl)); den = math.fsum(abs(x * ((k - round(c0)) / sc) ** p) for k, x in enumerate(dl))
                        rep.n('identities')
                        if abs(num) > den * (1e-9 if T == 'double' else 1e-5) + (1e-13 if T == 'double' else 3e-7):
                            rep.bad('W03', 'moments', name, 'scaling moment %d (%s) does not vanish' % (p, T)); break
            elif (d['psi'], d['phi']) != (-1, -1):
                rep.bad('W03', 'moments', name, 'claims %s vanishing moments' % d['psi'])


# ---- continuous wavelets ----------------------------------------------
def poly_derive(n, cplx):
    """coefficients of the n-th derivative of exp(-x^2) [* exp(-ix)] divided by that function, as a polynomial"""
    p = [1 + 0j]
    for _ in range(n):
        q = [0j] * (len(p) + 1)
        for k, a in enumerate(p):
            if k: q[k - 1] += k * a
            q[k + 1] += -2 * a
            if cplx: q[k] += -1j * a
        p = q
    return p


def gauss_int(p):
    """integral of |p(x)|^2 exp(-2x^2)"""
    t = 0.0
    for i, a in enumerate(p):
        for j, b in enumerate(p):
            k = i + j
            if k % 2: continue
            df = 1.0
            for u in range(1, k, 2): df *= u
            t += (a * b.conjugate()).real * df / 4 ** (k / 2) * math.sqrt(math.pi / 2)
    return t


def reference(fam, order, x, B, C, M):
    """value of the documented formula"""
    if fam in ('GAUS', 'CGAU'):
        p = poly_derive(order, fam == 'CGAU')
        nrm = math.sqrt(gauss_int(p))
        v = sum(a * x ** k for k, a in enumerate(p)) * math.exp(-x * x)
        if fam == 'CGAU': v *= complex(math.cos(x), -math.sin(x))
        return v / nrm * (-1 if fam == 'GAUS' and order % 4 in (2, 3) else 1)  # documented sign convention
    if fam == 'MEXH': return 2 / (math.sqrt(3) * math.pi ** 0.25) * (1 - x * x) * math.exp(-x * x / 2)
    if fam == 'MORL': return math.cos(5 * x) * math.exp(-x * x / 2)
    e = complex(math.cos(2 * math.pi * C * x), math.sin(2 * math.pi * C * x))
    sinc = lambda t: 1.0 if t == 0 else math.sin(math.pi * t) / (math.pi * t)
    if fam == 'CMOR': return e * math.exp(-x * x / B) / math.sqrt(math.pi * B)
    if fam == 'SHAN': return math.sqrt(B) * sinc(B * x) * e
    if fam == 'FBSP': return math.sqrt(B) * sinc(B * x / M) ** M * e


def evaluate(v, env):
    """numeric value of an extracted expression at a point"""
    if type(v) is float: return v
    if isinstance(v, tuple) and v and v[0] == 'P':
        terms = dict(v[1:]).items()
    elif isinstance(v, Poly): terms = v.t.items()
    else: return float(v)
    tot = 0.0
    for m, c in terms:
        t = c
        for i in m:
            s = symname(i)
            t *= env[s] if s in env else evsym(s, env)
        tot += t
    return tot


def evsym(s, env):
    op = s[0]
    if op == 'inv':
        if isinstance(s[1], tuple) and s[1] and s[1][0] == 'P': return 1.0 / evaluate(s[1], env)
        t = 1.0
        for i in s[1]: t *= env[symname(i)] if symname(i) in env else evsym(symname(i), env)
        return 1.0 / t
    a = [evaluate(x, env) for x in s[1:]]
    if op == 'pow': return a[0] ** a[1]
    if op == '/': return a[0] / a[1]
    if op == 'fabs': return abs(a[0])
    return getattr(math, op)(*a)


def cwt_values(ty, fam, order, n=3):
    """run the native routine on n arbitrary samples; yields (choices, out cells, n)"""
    E = enums()
    es = 4 if ty == 'float' else 8
    fn = '%s_%s' % (ty, fam.lower())
    f = prog().fn.get(fn)
    if f is None: raise llvmir.IRError('anchor vanished: ' + fn)
    choices = []
    while True:
        m = Machine(prog(), (), choices)
        x = fill_array(m, 'x', n, es, ro=True, kind='input')
        cx = CONT[fam][3]
        outs = [m.new('output', n * es, 'array') for _ in range(2 if cx else 1)]
        args = [x] + outs + [n]
        if fam in ('GAUS', 'CGAU'): args.append(order)
        if fam == 'FBSP': args.append(order)
        if fam in ('SHAN', 'FBSP', 'CMOR'): args += [sym('B'), sym('C')]
        m.call(fn, args)
        yield m, [[(o.o.cells.get(k * es) or (None,))[0] for k in range(n)] for o in outs]
        # next resolution of data-dependent branches
        t = m.taken
        choices = None
        for i in range(len(t) - 1, -1, -1):
            if t[i][0] + 1 < t[i][1]:
                choices = [c for c, _, _ in t[:i]] + [t[i][0] + 1]; break
        if choices is None: return


def fmarks(mods):
    """the float constants the compiled code compares with"""
    out = set()
    for mod in mods:
        for f in prog().mods[mod].functions.values():
            for b in f.blocks.values():
                for i in b:
                    if i.op == 'fcmp': out |= {a[1] for a in i.a if isinstance(a, tuple) and a[0] == 'f' and a[1] == a[1] and 0 < abs(a[1]) < 1e300}
    return sorted(out)[:8]


def continuous(rep):
    E = enums(); mod = wmod(); cs = mod.structs['%struct.ContinuousWavelet']
    for fam, (orders, lname, sname, cx, bounds) in CONT.items():
        for o in orders:
            name = '%s%s' % (sname, o or '')
            m = Machine(prog())
            try: r = m.call('continuous_wavelet', [E[fam], o])
            except Violation as e: rep.bad('W01', e.kind, e.loc, e.msg); continue
            if r == NULL: rep.bad('W01', 'not-constructed', name, 'no wavelet is returned'); continue
            rep.n('wavelets')
            try:
                d = base_fields(m, r)
                g = lambda i, k='f': m.load(Ptr(r.o, mod.field_offset(cs, i)), 4, k, name)
                got = dict(lower=g(1), upper=g(2), cplx=g(3, 'i'), center=g(4), band=g(5), order=g(6, 'i'))
            except Violation as e:
                rep.bad('K01', 'field', name, '%s is never set: %s' % (e.loc, e.msg)); continue
            if (d['family_name'], d['short_name']) != (lname, sname): rep.bad('W01', 'family', name, 'family names %r' % ((d['family_name'], d['short_name']),))
            want = dict(lower=float(bounds[0]), upper=float(bounds[1]), cplx=cx)
            B, C, M = CONT_DEFAULT.get(fam, (0.0, 0.0, 0))
            want.update(band=B, center=C, order=M)
            for k in want:
                if got[k] != want[k]: rep.bad('K01', 'parameter', name, '%s is %s, documented %s' % (k, got[k], want[k]))
            for a in ('orthogonal', 'biorthogonal'):
                if d[a] is UNDEF or d[a] != 0: rep.bad('W03', 'attribute', name, '%s must be False' % a)
            ws = 'SYMMETRIC' if fam in ('MEXH', 'MORL') or (fam in ('GAUS', 'CGAU') and o % 2 == 0) else 'ANTI_SYMMETRIC' if fam in ('GAUS', 'CGAU') else 'ASYMMETRIC'
            if d['symmetry'] != ws: rep.bad('W03', 'symmetry', name, 'described as %s' % d['symmetry'].lower())
    pts = [(0.37, 1.5, 0.75), (-1.21, 0.5, 1.25), (2.3, 3.0, 2.0), (0.0, 1.5, 1.0), (-0.05, 2.0, 0.5), (4.5, 0.25, 0.375)]
    # the tails, where a formula cut off early would still be right to any absolute tolerance
    pts += [(5.3, 1.5, 1.0), (-7.75, 2.0, 0.7), (11.4, 40.0, 0.3), (-19.3, 60.0, 1.0), (7.9, 1.0, 0.5), (1e-4, 1.5, 0.75), (-2e-6, 0.5, 2.0)]
    for K in fmarks(('cwt',)):
        for q in (K, K * K, abs(K) ** .5):
            if 1e-12 < abs(q) < 30: pts += [(sg * q * f, 1.5 if abs(q) < 10 else 2.0 * q, 0.75) for sg in (1, -1) for f in (.999, 1.001)]
    for ty in ('double', 'float'):
        for fam, (orders, lname, sname, cx, bounds) in CONT.items():
            for o in (list(orders) if fam != 'FBSP' else [1, 2, 3, 5]):
                name = '%s_%s order %s' % (ty, fam.lower(), o)
                try:
                    for m, outs in cwt_values(ty, fam, o):
                        rep.n('continuous routines')
                        zero = {}
                        for ch, n_, loc in m.taken: pass
                        for part, cells in zip(('re', 'im'), outs):
                            for k, v in enumerate(cells):
                                if v is None or v is UNDEF:
                                    rep.bad('K01', 'unfilled', name.split(' ')[0], '%s: sample %d of the %s part is never written' % (name, k, part)); break
                except Violation as e:
                    rep.bad('K01' if KIND2PROP.get(e.kind) in ('C03',) else KIND2PROP.get(e.kind, 'C01'), e.kind, e.loc, '%s [%s]' % (e.msg, name)); 
                    rep.bad('K01', e.kind, e.loc, '%s [%s]' % (e.msg, name)); continue
                except Unsupported as e:
                    rep.unsup.append(name + ': ' + str(e)); continue
                # formula: expression identity at sample points, branch chosen per point
                for x, B, C in pts:
                    if fam in ('SHAN', 'FBSP') and abs(x) > 5:      # keep off the zeros
                        q = B * x / (o or 1)
                        if abs(q - round(q)) < .05: B *= 1.043
                    try: v = cwt_point(ty, fam, o, x, B, C)
                    except (Violation, Unsupported, ZeroDivisionError, ValueError, OverflowError, KeyError) as e:
                        rep.unsup.append('%s at %s: %r' % (name, x, e)); continue
                    ref = reference(fam, o, x, B, C, o)
                    ref = complex(ref)
                    got = complex(v[0], v[1] if len(v) > 1 else 0.0)
                    rep.n('formula points')
                    tol = (1e-9 if ty == 'double' else 3e-5)
                    bound = tol * max(1.0, abs(ref))
                    if abs(x) > 5: bound = (1e-6 if ty == 'double' else 2e-2) * abs(ref) + (1e-290 if ty == 'double' else 1e-35)
                    if not abs(got - (ref if cx else ref.real)) <= bound:
                        rep.bad('K01', 'formula', name, 'at x=%g B=%g C=%g the expression is %s, documented formula gives %s' % (x, B, C, got, ref if cx else ref.real)); break


def cwt_point(ty, fam, order, x, B, C):
    """constant propagation of one sample through the routine's expression"""
    es = 4 if ty == 'float' else 8
    q = f32 if ty == 'float' else float
    m = Machine(prog())
    xp = m.new('x', es, 'input'); xp.o.cells[0] = (q(x), es); xp.o.ro = True
    outs = [m.new('output', es, 'array') for _ in range(2 if CONT[fam][3] else 1)]
    args = [xp] + outs + [1]
    if fam in ('GAUS', 'CGAU', 'FBSP'): args.append(order)
    if fam in ('SHAN', 'FBSP', 'CMOR'): args += [q(B), q(C)]
    m.call('%s_%s' % (ty, fam.lower()), args)
    return [m.load(o, es, 'f', 'result') for o in outs]


def analyse(parts=('tables', 'lifecycle', 'continuous')):
    rep = Report()
    for p in parts: globals()[p](rep)
    return rep


if __name__ == '__main__':
    import time
    for p in ('tables', 'lifecycle', 'continuous'):
        t = time.time(); r = analyse((p,))
        print(p, r.count, round(time.time() - t, 2))
        for k, v in sorted(r.viol.items()): print('  ', k, v)
        print('  unsup', r.unsup[:5])
