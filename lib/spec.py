"""Documented single-step formulas: which tap multiplies which sample."""
MODES = ['zero', 'symmetric', 'constant', 'smooth', 'periodic', 'periodization', 'reflect', 'antisymmetric', 'antireflect']
PER = 5
TYPES = {'float': (4, 'float', False), 'double': (8, 'double', False),
         'float_complex': (4, 'float', True), 'double_complex': (8, 'double', True)}


# ---- specification ----------------------------------------------------
def ext(mode, N, i):
    """signal extension: index -> {sample: coefficient}"""
    name = MODES[mode]
    if 0 <= i < N: return {i: 1}
    if name == 'zero': return {}
    if name == 'constant': return {0 if i < 0 else N - 1: 1}
    if name == 'periodic': return {i % N: 1}
    if name == 'symmetric':
        k = i % (2 * N); return {k if k < N else 2 * N - 1 - k: 1}
    if name == 'antisymmetric':
        k = i % (2 * N); return {k: 1} if k < N else {2 * N - 1 - k: -1}
    if name == 'reflect':
        k = i % (2 * N - 2); return {k if k < N else 2 * N - 2 - k: 1}
    if name == 'antireflect':
        # odd reflection about each edge sample, repeated
        out = {}
        def add(d, s):
            for a, b in d.items():
                out[a] = out.get(a, 0) + s * b
        if i < 0: add({0: 2}, 1); add(ext(mode, N, -i), -1)
        else: add({N - 1: 2}, 1); add(ext(mode, N, 2 * (N - 1) - i), -1)
        return {a: b for a, b in out.items() if b}
    if name == 'smooth':
        if N == 1: return {0: 1}
        if i < 0: r = {0: 1 - i, 1: i}
        else: k = i - N + 1; r = {N - 1: 1 + k, N - 2: -k}
        return {a: b for a, b in r.items() if b}
    raise KeyError(name)


def dwt_len(N, F, mode): return (N + 1) // 2 if mode == PER else (N + F - 1) // 2


def idwt_len(N, F, mode): return 2 * N if mode == PER else max(0, 2 * N - F + 2)


def spec_dec(mode, N, F):
    """[{(tap, sample): coefficient}] per output"""
    out = []
    for o in range(dwt_len(N, F, mode)):
        d = {}
        for j in range(F):
            if mode == PER:
                M = N + (N & 1)
                k = (2 * o + F // 2 - j) % M
                e = {min(k, N - 1): 1}
            else:
                e = ext(mode, N, 2 * o + 1 - j)
            for s, c in e.items(): d[(j, s)] = d.get((j, s), 0) + c
        out.append({k: v for k, v in d.items() if v})
    return out


def spec_swt(level, N, F):
    st = 1 << (level - 1); out = []
    for o in range(N):
        d = {}
        for j in range(F):
            k = (o + F * st // 2 - j * st) % N
            d[(j, k)] = d.get((j, k), 0) + 1
        out.append(d)
    return out


def spec_rec(N, F):
    out = [dict() for _ in range(2 * N + F - 2)]
    for b in range(N):
        for t in range(F): out[2 * b + t][(t, b)] = 1
    return out


def spec_idwt(mode, N, F):
    L = idwt_len(N, F, mode)
    out = [dict() for _ in range(L)]
    for b in range(N):
        for t in range(F):
            if mode == PER: o = (2 * b + t - (F // 2 - 1)) % (2 * N)
            else: o = 2 * b + t - (F - 2)
            if 0 <= o < L: out[o][(t, b)] = out[o].get((t, b), 0) + 1
    return out
