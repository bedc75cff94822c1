"""Which analyses decide which property."""
import os
_memo = {}


def once(f):
    def g(tier, prop):
        k = (f.__name__, tier)
        if k not in _memo: _memo[k] = f(tier)
        return _memo[k]
    return g


@once
def native(tier):
    import native
    return native.analyse(tier)


@once
def natlint(tier):
    import natlint
    return natlint.analyse(tier)


@once
def wtables(tier):
    import wavtab
    return wavtab.analyse(('tables',))


@once
def wlife(tier):
    import wavtab
    return wavtab.analyse(('lifecycle',))


@once
def wcont(tier):
    import wavtab
    return wavtab.analyse(('continuous',))


@once
def nativert(tier):
    import nativert
    return nativert.analyse(tier)


# Which groups of contexts (lib/pychecks*.py) can decide something about a property; the
# remaining ones are interpreted for other properties.
_TR = ['single', 'multidim', 'multilevel', 'fswave', 'swt', 'mra']
_ALL = _TR + ['sizes', 'pack', 'shapes', 'packets', 'modes', 'options', 'dtypes', 'axes', 'odd', 'objects', 'continuous', 'cwt']
GROUPS = {
    'C01': _ALL, 'C02': _ALL, 'C03': _ALL, 'G01': _ALL, 'D01': _ALL + ['threshold'], 'I01': _ALL + ['threshold', 'state', 'copies'],
    'C04': ['single', 'multilevel', 'multidim', 'odd', 'sizes'], 'C05': ['single', 'multilevel', 'multidim', 'odd', 'sizes'],
    'C06': ['faults', 'odd', 'options'], 'C07': ['faults', 'objects', 'single', 'continuous'], 'C08': ['state', 'signals', 'objects', 'single', 'packets', 'multilevel', 'continuous', 'cwt'],
    'C09': _TR + ['sizes', 'odd', 'objects', 'dtypes', 'packets'], 'C10': ['sizes', 'modes', 'shapes', 'swt', 'multilevel'],
    'W01': ['spell', 'objects', 'options', 'continuous', 'state'], 'W03': ['sizes', 'objects', 'continuous'], 'K01': ['continuous', 'cwt', 'sizes'],
    'M01': ['modes', 'options', 'sizes'], 'A01': ['sizes', 'single', 'multidim', 'fswave', 'multilevel', 'pack', 'swt', 'axes', 'packets', 'cwt', 'shapes'],
    'L01': ['sizes', 'multidim', 'fswave', 'mra', 'multilevel', 'pack', 'swt', 'packets'], 'L02': ['sizes', 'multilevel', 'shapes', 'swt', 'roundtrip'],
    'F01': _TR + ['sizes', 'spell', 'pack', 'modes', 'shapes', 'objects', 'continuous', 'packets', 'cwt'], 'F02': _TR + ['sizes', 'packets'],
    'O01': ['modes', 'options', 'pack', 'axes', 'objects', 'continuous', 'threshold', 'shapes', 'packets', 'cwt'],
    'P01': ['packets', 'sizes'], 'S01': ['copies', 'objects', 'continuous', 'odd'], 'R01': ['roundtrip', 'sizes'], 'R02': ['threshold', 'sizes'], 'R03': ['cwt', 'continuous', 'sizes'], 'T01': ['signals'], 'V01': ['objects', 'continuous']}


def _py1(job):
    import pychecks
    g, tier, c, part = job
    s = pychecks.run_group(g, tier, c, part)
    r = s.rep
    r.unsup = [str(u) for u in r.unsup]
    return g, c, r, sorted(s.fns), len(s.sites)


def pylayer(tier, prop):
    import multiprocessing as mp
    import pychecks
    from report import Report
    want = GROUPS[prop] if tier == 'quick' else pychecks.order()
    jobs = [(g, tier, c, (k, pychecks.PARTS.get(g, 1))) for g in pychecks.order() if g in want for c in (1, 0) if c or g in pychecks.NOC99
            for k in range(pychecks.PARTS.get(g, 1))]
    tot = Report(); fns = set()
    with mp.Pool(min(8, os.cpu_count() or 1)) as pool:
        for g, c, r, f, n in pool.imap_unordered(_py1, jobs, 1):
            tot.merge(r); fns |= set(f)
    tot.n('functions interpreted', len(fns))
    return tot


COMPONENTS = {'native': native, 'natlint': natlint, 'wtables': wtables, 'wlife': wlife, 'wcont': wcont, 'nativert': nativert, 'pylayer': pylayer}

DESCRIBE = {
    'native': 'abstract interpretation of the LLVM IR of the C layer (integer constants, pointer = object + offset, data = value-numbered polynomials over input symbols) in every calling context of the native entry points, including failed allocations; each load/store, branch, return status and output term is an obligation',
    'nativert': 'the terms derived for the native decompositions are substituted into the terms derived for the native reconstructions; with filter taps of perfect-reconstruction banks the composition must be the identity map on every input symbol',
    'natlint': 'interprocedural effect analysis over the IR: which parameters and static objects each native function may write',
    'wtables': 'constant propagation of every built-in discrete wavelet out of the IR; table identities checked algebraically',
    'wlife': 'abstract interpretation of wavelet construction, copying and destruction with every allocation failing in turn; heap typestate',
    'wcont': 'value numbering of the native continuous-wavelet routines; every sample written, expression compared with the documented formula',
}

ASSUME = ['clang lowers the C sources faithfully and the extension is built from the same sources with the same definitions',
          'bounded contexts: lengths, levels and layouts are enumerated, not quantified, in the abstract interpretation of the native code']

CHECKS = {}


def reg(prop, components, technique, explanation, note):
    CHECKS[prop] = dict(components=components, technique=technique, explanation=explanation, note=note)


AI = 'abstract interpretation of the LLVM IR (constants, object+offset pointers, value-numbered data)'
NOTE = 'Data values are symbolic (any signal, any filter taps); lengths, levels, modes, element types and array layouts are enumerated contexts, up to the sizes in the evidence. Trusts clang as front end and the interpreter in lib/cinterp.py.'
reg('C01', ['native'], AI + ': every load/store inside its object', 'In every enumerated context each load, store, memcpy and division of the native transforms is checked against the object it may touch.', NOTE)
reg('C02', ['native'], AI + ': every loop leaves', 'Every enumerated context reaches a return; a loop that does not leave is reported.', NOTE)
reg('C03', ['native'], AI + ': definite assignment of outputs', 'After every successful return each element of the output object must have been assigned, and nothing uninitialised may have been read.', NOTE)
reg('C04', ['native'], AI + ': value numbering against the documented extension', 'The value-numbered expression of each decomposition coefficient is compared with the expression the documented extension prescribes.', NOTE)
reg('C05', ['native'], AI + ': value numbering against the upsampling formula', 'The value-numbered expression of each reconstructed sample is compared with upsampling by two and filtering.', NOTE)
reg('C06', ['native', 'wlife'], AI + ' with failing allocations', 'Every allocation of every context fails in turn: the routine must return its failure status without touching the missing memory.', NOTE)
reg('C07', ['native', 'wlife'], AI + ': heap typestate', 'Allocations are tracked to the return of every context, including failing ones: no leak, double release, or use after release.', NOTE)
reg('C08', ['natlint', 'native'], 'interprocedural effect analysis', 'No native store reaches static storage; wavelets and inputs are read-only objects in every context.', NOTE)
reg('C09', ['native'], AI + ': which filter each tap comes from', 'The filter object every product reads must be the one of the right side, band and precision.', NOTE)
reg('C10', ['native'], AI + ': length formulas', 'The length and level functions are evaluated on a grid of lengths including very large ones and compared with the documented formulas.', NOTE)
reg('W01', ['wtables', 'wlife', 'wcont'], 'constant propagation of the wavelet tables', 'Every name is constructed and its description compared with what the name denotes; unlisted orders must be refused.', 'All built-in wavelets, exhaustively.')
reg('W02', ['wtables'], 'constant propagation of the wavelet tables, algebraic identities', 'The tables are read out of the IR and the perfect-reconstruction identities are evaluated to the precision of each table.', 'All built-in discrete wavelets in both precisions, exhaustively; tolerances follow the known accuracy of each published table.')
reg('W03', ['wtables', 'wcont'], 'constant propagation of the wavelet tables, attribute identities', 'Advertised attributes are compared with the filters.', 'All built-in wavelets, exhaustively.')
reg('K01', ['wcont'], 'value numbering of the continuous-wavelet routines', 'Each routine must write every sample; its expression is compared with the documented formula at several points; parameters are compared with the documented ones.', 'Expressions are compared at sample points.')


PY = 'abstract interpretation of the Python and Cython sources (shapes, element types, object identity, value-numbered data) against the documented composition of native steps'
PYNOTE = 'Array contents are symbolic (any signal); shapes, levels, modes, wavelets, element types and call forms are enumerated contexts (counts in the evidence). Branches on data values are followed both ways. numpy is modelled by lib/npmodel.py, native calls by lib/sinks.py (the native layer itself is decided by C01-C10). Term equality is decided by value numbering with random evaluation of linear terms.'
DESCRIBE['pylayer'] = PY
for q, tech, expl in [
    ('D01', ': element types of every buffer, native call and result', 'For every transform and input element type the element type of each buffer, of the native routine and of the result is derived and compared with the documented rule; casts that drop an imaginary part or precision are reported.'),
    ('A01', ': axis handling', 'Negative axes must give the terms of their positive counterparts; axes out of range must raise before an array descriptor or native routine is reached.'),
    ('I01', ': ownership of every written array', 'Arrays, lists, dictionaries and wavelets that belong to the caller are tracked by identity; a store that can reach one, on a returning or raising path, is reported.'),
    ('L01', ': sub-band identity', 'Every sub-band of every transform, inverse, packer and unpacker is compared, as a term over the input, with the sub-band its name documents.'),
    ('L02', ': shapes predicted and produced', 'The shapes the prediction helpers return are compared with the shapes derived for the transforms for the same settings.'),
    ('F01', ': settings reaching the native calls', 'The term derived for each result records the wavelet filters, extension mode, level and axis of every native step; it must be the term the caller\'s settings prescribe. Every setting takes non-default values, per-axis values differ.'),
    ('F02', ': complex data on builds without native complex support', 'Each transform is interpreted with native complex support switched off; real and imaginary part of every output must be the real-data terms of the real and imaginary parts of the input.'),
    ('P01', ': packet trees', 'Sequences of decompose, read, walk, assign, delete and reconstruct on the three tree classes are interpreted; data, names and paths of every node are compared with the documented sub-band.'),
    ('G01', ': lifetime of lent pointers', 'Every pointer taken from an array carries the array it came from; at each native call the array must still be referenced and still be the one whose metadata is used.'),
    ('M01', ': every way of naming a mode', 'Every spelling, upper case, the Modes constants, names per axis and out-of-range values are interpreted through every entry point; the mode of every native call must be the documented one and an unknown one must raise before any native call.'),
    ('O01', ': rejected settings', 'Each entry point is interpreted with settings the documentation rejects; every path must raise, and no path may reach a native call outside its contract.'),
    ('S01', ': pickled and copied objects', 'Copying, deep copying and pickling of every wavelet kind and packet tree are interpreted through the reduction protocol the classes define; every attribute, filter, stored sub-band and later result of the copy is compared with the original.'),
    ('R01', ': forward and inverse composed as linear maps', 'The terms of each forward transform are fed into the inverse; the composed term of every output sample must be the input sample (coefficients compared after substituting the wavelet filters) and the shape the input shape plus the documented extra sample.'),
    ('R03', ': terms of the continuous transform', 'The term derived for every coefficient at every scale is compared with the documented formula over the samples of the integrated wavelet; both methods, one- and many-dimensional data, all axes.'),
    ('V01', ': constant propagation through the sampling of wavelets', 'With the wavelet and the level fixed every operand is a constant or a term of the filter taps: the sampled scaling and wavelet functions are compared with the cascade of the documented filters, integrals, centre frequencies and scale conversions with their definitions on those samples, qmf and orthogonal_filter_bank with the documented filters, for every named wavelet and for custom banks with each setting of their flags.'),
    ('T01', ': constant propagation of the signal generators', 'The generators are evaluated as constant expressions for every listed length; each sample is compared with the WaveLab formula (samples that fall on a jump of the signal are compared by length only), the data readers with the data files.'),
    ('R02', ': documented value in every region', 'The term derived for each element is evaluated in every region the thresholds cut the value line into (boundaries, infinities and NaN included) and compared with the documented formula; paths are matched to regions through their branch conditions.'),
]:
    reg(q, (['nativert'] if q == 'R01' else []) + ['pylayer'], PY.split(' against')[0] + tech, expl, PYNOTE)
for q in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'W01', 'W03', 'K01'):
    CHECKS[q]['components'] = CHECKS[q]['components'] + ['pylayer']
    CHECKS[q]['note'] = CHECKS[q]['note'] + ' ' + PYNOTE
    CHECKS[q]['explanation'] += ' The Cython callers are interpreted as well: which native routine is called with which pointers, lengths, filters and modes.'


def fit_schema(ev):
    n = len(ev['violations'])
    ev['coverage']['violation_list'] = ev['violations']
    ev['violations'] = n
