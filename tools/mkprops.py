import json
P=[]
EXT='pywt/_extensions/'
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=None
    assert len(title)<=80,(id,len(title))
    P.append(d)

p('C01','Native transform kernels never access memory outside their buffers',
 'For every signal length, filter length, extension mode, transform level, precision and array layout that the public transforms accept, the compiled decomposition, reconstruction and stationary-transform code reads only elements of the input signal and of the wavelet filter it was given, and writes only elements of the output buffer it was given.',
 ['inputs'],'all signal lengths N>=1, even filter lengths F>=2, all nine extension modes, all decomposition levels, all four element types, contiguous and strided axes',
 'The overrun needs a particular relation of N, F, mode and level; the tests sample a few tens of lengths, and an overread by one element does not crash.',
 [EXT+'c/convolution.template.c',EXT+'c/wt.template.c',EXT+'c/common.c'],
 [('boundary loops of the convolution kernels','convolution.template.c'),('length checks before each kernel call and the strided row copies','wt.template.c'),('buffer length functions','common.c')])
p('C02','Native transform code always terminates',
 'Every call of a public discrete transform returns or raises: no combination of signal length (including a single sample), filter length, extension mode and level makes the compiled code loop for ever.',
 ['inputs'],'all signal lengths N>=1, all filter lengths, all modes and levels reachable from the public functions',
 'The non-terminating cases are degenerate lengths in particular modes (one sample with a reflecting mode, or reached only at the second level of a multi-level call); tests do not enumerate them.',
 [EXT+'c/convolution.template.c',EXT+'c/wt.template.c',EXT+'c/common.c',EXT+'_dwt.pyx'],
 [('inner extension loops advance at least one filter tap per pass','convolution.template.c'),('length-1 guards for the reflecting modes','_dwt.pyx dwt_single, dwt_axis, downcoef')])
p('C03','Every output coefficient of the native transforms is computed',
 'When a native decomposition, reconstruction or stationary transform reports success, every element of the result it hands back has been written by the transform; no element keeps the uninitialised or stale content of the buffer.',
 ['inputs'],'all signal and filter lengths, modes, levels, element types and memory layouts',
 'Whether the last output element is reached depends on the parity of N and F and on the mode; result buffers are often zero by accident, so tests cannot see a skipped element.',
 [EXT+'c/convolution.template.c',EXT+'c/wt.template.c',EXT+'c/common.c'],
 [('output counter advances by one per computed coefficient up to the announced length','convolution.template.c'),('row is zeroed before accumulation and copied back in full','wt.template.c')])
p('C04','Decomposition uses the signal extension its mode documents',
 'Every decomposition coefficient is the inner product of all filter taps, each used exactly once, with the signal values at the matching positions; positions outside the signal take the value that the documented extension for the chosen mode defines (zeros, edge value, mirrored, reflected, sign-flipped mirror, periodic copy, linear extrapolation), no matter how often the extension has to wrap around a signal shorter than the filter.',
 ['inputs'],'all N>=1 (N>=2 for the reflecting modes), all even F, all modes, both precisions, dyadic levels of the stationary transform',
 'The tests compare against explicit padding for a few lengths; the branch taken depends on how N compares with F and on how many wraps are needed.',
 [EXT+'c/convolution.template.c',EXT+'c/common.h'],
 [('per-mode extension loops on the left, on both sides, and on the right of the signal','convolution.template.c downsampling kernels'),('definition of the modes','common.h, doc/source/ref/signal-extension-modes.rst')])
p('C05','Reconstruction uses every coefficient with every matching filter tap once',
 'Direct reconstruction and the inverse transform add, for every coefficient and every filter tap, exactly the product that upsampling by two and filtering prescribes, to exactly the output sample it belongs to (cyclically in periodization mode).',
 ['inputs'],'all coefficient counts, all even filter lengths, all modes, both precisions',
 'Which loop handles a sample depends on how the coefficient count compares with half the filter length; the tests cover few short-signal/long-filter combinations.',
 [EXT+'c/convolution.template.c',EXT+'c/wt.template.c'],
 [('even/odd polyphase accumulation loops','convolution.template.c upsampling kernels')])
p('C06','Native failures always surface as Python exceptions',
 'If memory allocation fails or a native routine rejects its arguments while a transform runs or a wavelet is created, the Python caller gets an exception; it never gets a result array, or an object, that the failing step left undone or half done.',
 ['fault_sequences','inputs'],'every native call and every allocation failing at any point, every argument the native layer rejects',
 'Tests never make an allocation fail and reach almost none of the native rejection branches.',
 [EXT+'c/wt.template.c',EXT+'c/wavelets.c',EXT+'_dwt.pyx',EXT+'_swt.pyx',EXT+'_pywt.pyx'],
 [('negative/non-zero status returned by native routines','wt.template.c, convolution.template.c'),('status tested before results are returned','_dwt.pyx, _swt.pyx'),('NULL tests after allocation','wavelets.c, _pywt.pyx')])
p('C07','Native heap memory is released exactly once',
 'Memory the native layer allocates, for temporary rows, upsampled filters and wavelet objects, is released exactly once on every path, including error paths, or is owned by exactly one live wavelet object; it is never used after release and never leaked.',
 ['histories','fault_sequences'],'all call sequences creating, using and destroying wavelets and transforming strided data, with allocations failing at any point',
 'Leaks and double frees on error paths need an allocation failure; leaks on success paths do not change any result.',
 [EXT+'c/wt.template.c',EXT+'c/wavelets.c',EXT+'_pywt.pyx'],
 [('cleanup labels','wt.template.c'),('free functions mirror the allocation functions','wavelets.c'),('wavelet objects own one native struct','_pywt.pyx')])
p('C08','Calls share no hidden mutable state',
 'Transforms, wavelet look-ups and coefficient utilities depend only on their arguments and change no state that another call, in this or another thread, can observe: no native or module-level storage is modified after import, a wavelet passed to a transform is never modified by it, and tables or lists handed to callers are never the internal ones.',
 ['schedules','histories'],'all interleavings of calls from several threads (native code runs without the interpreter lock) and all call histories',
 'Only a concurrent schedule or a specific history shows the interference; the tests run two threads on one function at most.',
 [EXT+'c/*.c',EXT+'_pywt.pyx',EXT+'_dwt.pyx',EXT+'_swt.pyx','pywt/*.py'],
 [('native functions write only through their output parameter','c/*.template.c'),('internal name lists are copied before being returned','_pywt.pyx families, wavelist'),('module-level tables are only read','pywt/*.py')])
p('C09','Each transform step uses the right filter, band and precision',
 'Analysis steps filter with the decomposition filters and synthesis steps with the reconstruction filters of the wavelet in use, low-pass for approximation and high-pass for detail, in the precision of the data, with the length that belongs to that filter; this holds for every element type and every public entry point.',
 ['inputs'],'all wavelets (including custom biorthogonal ones whose analysis and synthesis filters differ), all element types, all entry points',
 'For orthogonal wavelets a swapped or mistyped filter can go unnoticed, and each of the four element types has its own copy of the dispatch.',
 [EXT+'c/wt.template.c',EXT+'_dwt.pyx',EXT+'_swt.pyx'],
 [('filter selection in the native steps','wt.template.c'),('element-type dispatch','_dwt.pyx, _swt.pyx')])
p('C10','Announced coefficient and signal lengths follow the documented formulas',
 'The number of coefficients of a single decomposition step is floor((N+F-1)/2), or ceil(N/2) for periodization; one reconstruction step gives 2N-F+2, or 2N for periodization, samples and direct reconstruction 2N+F-2; the maximum useful level is the largest L with (F-1)*2^L <= N, and the stationary limit is the number of times two divides N.',
 ['inputs'],'all lengths and filter lengths representable, all modes',
 'The tests evaluate the formulas at a handful of lengths.',
 [EXT+'c/common.c',EXT+'_dwt.pyx','pywt/_dwt.py'],
 [('length functions','common.c'),('public wrappers','_dwt.pyx, pywt/_dwt.py')])
p('W01','Every advertised wavelet name can be built and is described consistently',
 'Every name listed for discrete or continuous wavelets constructs a wavelet of that kind whose family name, short family name, order and filter length are those the name denotes; every unlisted name or order is rejected with ValueError, and the listed families, kinds and names agree with one another.',
 ['inputs'],'all listed names and all other names and orders',
 'The tests build most names but do not relate the name tables, the order limits and the coefficient tables, nor try the orders just outside.',
 [EXT+'wavelets_list.pxi',EXT+'wavelet.pxd',EXT+'c/wavelets.h',EXT+'c/wavelets.c',EXT+'c/wavelets_coeffs.template.h'],
 [('name table','wavelets_list.pxi'),('constructors with order limits','wavelets.c'),('coefficient tables','wavelets_coeffs.template.h')])
p('W02','Built-in filter banks satisfy the perfect-reconstruction identities',
 'For every built-in discrete wavelet in both precisions the four filters form a perfect-reconstruction bank: low-pass analysis and synthesis filters are biorthogonal to each other under even shifts, the high-pass filters are the alternating-sign mirror images of the opposite low-pass filters, and orthogonal wavelets use time-reversed copies of one filter.',
 ['configurations'],'all built-in discrete wavelets, both precisions, every coefficient',
 'The tests check reconstruction with loose tolerances for some wavelets and only double precision; a coefficient wrong in a late digit or a single-precision copy loop is not seen.',
 [EXT+'c/wavelets_coeffs.template.h',EXT+'c/wavelets.c'],
 [('coefficient tables','wavelets_coeffs.template.h'),('copy loops that derive the four filters','wavelets.c')])
p('W03','Wavelet attributes tell the truth about the filters',
 'For every built-in discrete wavelet the advertised orthogonality, biorthogonality, symmetry and numbers of vanishing moments are true of its filters.',
 ['configurations'],'all built-in discrete wavelets',
 'Tests look at the attributes of a few wavelets and never relate them to the filters.',
 [EXT+'c/wavelets.c',EXT+'c/wavelets_coeffs.template.h'],
 [('attribute assignments next to the filter copy loops','wavelets.c')])
p('M01','Extension mode names, aliases and codes mean the same everywhere',
 'Each documented mode name, each deprecated short alias and each numeric code selects the same extension at every layer: the name list, the attribute, the alias list, the explicit padding helper and the native dispatch agree, and any other string or out-of-range code raises ValueError.',
 ['inputs','configurations'],'all mode strings, aliases and integers at every entry point that takes a mode',
 'The tables live in four files tied only by order; tests compare some modes on symmetric data where several modes coincide.',
 [EXT+'_pywt.pyx',EXT+'common.pxd',EXT+'c/common.h','pywt/_dwt.py'],
 [('mode table and alias list kept in matching order','_pywt.pyx _Modes, _old_modes'),('enum','c/common.h, common.pxd'),('padding helper','pywt/_dwt.py pad')])
p('D01','Element type is preserved or promoted by one rule everywhere',
 'Single and double precision, real and complex inputs keep their element type through every discrete transform; half precision becomes single, extended complex becomes double complex, other numeric types become double without dropping an imaginary part; buffers, native routine and result always have the same element type, and mixed-type coefficients are promoted, never truncated.',
 ['inputs'],'all input element types (including non-native byte order) for every transform',
 'Each transform has its own four-way dispatch; tests cover the common types on some of the transforms.',
 [EXT+'_pywt.pyx',EXT+'_dwt.pyx',EXT+'_swt.pyx','pywt/_dwt.py','pywt/_swt.py','pywt/_multidim.py'],
 [('type rule','_pywt.pyx _check_dtype'),('dispatch branches','_dwt.pyx, _swt.pyx'),('promotion of mixed coefficients','pywt/_dwt.py idwt, pywt/_multidim.py idwtn, pywt/_swt.py')])
p('A01','Invalid axes raise an exception instead of reaching native code',
 'For every transform that takes an axis or axes, an axis outside the dimensions of the data (positive or negative) raises an exception before any array metadata is read or written through it; a valid negative axis means the same as its positive counterpart, so that a transform which refuses an axis named twice also refuses it named by its positive and its negative number (the continuous transform of one-dimensional data has only one axis and does not consult the argument).',
 ['inputs'],'all axes values and data dimensionalities, for each public transform',
 'Out-of-range metadata access usually reads plausible memory instead of crashing; each transform normalises axes on its own.',
 ['pywt/_dwt.py','pywt/_multidim.py','pywt/_swt.py','pywt/_multilevel.py','pywt/_mra.py',EXT+'_dwt.pyx',EXT+'_swt.pyx'],
 [('axis normalisation and range checks in the public functions','pywt/*.py'),('axis used to index shape and strides without bounds checks','_dwt.pyx dwt_axis, idwt_axis; _swt.pyx swt_axis')])
p('I01','Public functions never modify their arguments',
 'No public function modifies an array, list, tuple element, dictionary or wavelet it receives, whether it returns or raises; in-place operations only ever touch data the function created itself. Objects documented as mutable containers (packet trees, fully separable results) change only through their own assignment, deletion and reconstruct-with-update operations.',
 ['inputs','fault_sequences'],'all inputs of all public functions, including calls that raise part-way',
 'Tests rarely compare their inputs afterwards and never after an exception.',
 ['pywt/_dwt.py','pywt/_multidim.py','pywt/_multilevel.py','pywt/_swt.py','pywt/_mra.py','pywt/_thresholding.py','pywt/_functions.py','pywt/_cwt.py','pywt/_wavelet_packets.py',EXT+'_dwt.pyx',EXT+'_swt.pyx',EXT+'_pywt.pyx'],
 [('copies taken before in-place updates','pywt/_swt.py iswt/iswt2/iswtn, pywt/_multilevel.py waverecn, pywt/_mra.py'),('transforms write to freshly allocated outputs','_dwt.pyx, _swt.pyx')])
p('L01','Detail sub-bands keep their meaning across all coefficient formats',
 'Horizontal, vertical and diagonal details (and their n-dimensional letter keys) denote the same sub-band in every function that packs or unpacks them: the 2-D and n-D transforms and inverses, stationary and multilevel versions, conversion to arrays and vectors and back in each output format, and 2-D packet trees.',
 ['inputs'],'all coefficient sets through all pairs of packing and unpacking functions',
 'A pair swapped consistently in one packer and its own unpacker is invisible to round-trip tests, and data symmetric in the two axes hides a swap.',
 ['pywt/_multidim.py','pywt/_swt.py','pywt/_multilevel.py','pywt/_wavelet_packets.py'],
 [('tuple order (da, ad, dd)','_multidim.py dwt2/idwt2, _swt.py swt2/iswt2, _multilevel.py converters'),('packet part names','_wavelet_packets.py Node2D')])
p('L02','Predicted coefficient shapes equal the shapes actually produced',
 'For every shape, wavelet (or per-axis wavelets), mode (or per-axis modes), level and axes, the shape and size prediction helpers report exactly the coefficient shapes the corresponding multilevel transform produces, and the maximum-level helper returns the level used by default.',
 ['inputs'],'all shapes, per-axis wavelets and modes, levels and axes',
 'The tests use one wavelet for all axes, where the predictor and the transform cannot disagree.',
 ['pywt/_multilevel.py'],
 [('level rule shared by transform and predictor','_multilevel.py _check_level, wavedecn, wavedecn_shapes, dwtn_max_level')])
p('F01','Wrappers pass every setting on to the work they delegate',
 'Whenever a public function delegates to another transform (multilevel to single-level, 2-D to n-D, real-pair evaluation of complex data, multiresolution analysis, packet trees, deprecated names), every setting the caller gave (wavelet, mode, level, start level, axis or axes, normalisation, trimming, precision) reaches the delegate in its own role, on every branch.',
 ['inputs','configurations'],'all argument combinations and all delegation branches, including builds without native complex support',
 'A dropped or swapped setting shows only when it differs from the default on exactly the branch in question; the no-complex branches never run in the test build.',
 ['pywt/_dwt.py','pywt/_multidim.py','pywt/_multilevel.py','pywt/_swt.py','pywt/_mra.py','pywt/_wavelet_packets.py','pywt/_functions.py','pywt/_cwt.py'],
 [('delegating calls','pywt/*.py')])
p('F02','Real-pair evaluation of complex data recombines as real plus i times imaginary',
 'Where a transform handles complex data by transforming real and imaginary parts separately, both halves are computed with identical settings, from exactly the real part and the imaginary part of every coefficient, and recombined as real + 1j*imaginary for each output.',
 ['configurations','inputs'],'every transform on builds without native complex support, all coefficient formats',
 'The branches are dead code in the build the tests run in.',
 ['pywt/_dwt.py','pywt/_multidim.py','pywt/_swt.py'],
 [('complex fall-back branches','_dwt.py dwt/idwt/downcoef/upcoef, _multidim.py dwtn/idwtn, _swt.py swt/iswt/iswt2/swtn/iswtn')])
p('P01','Packet trees compute, combine and name every sub-band consistently',
 'In a wavelet packet tree each child holds exactly the sub-band of its name, decomposition fills and reconstruction uses every child part once with the tree wavelet, mode and axes, rebuilt data is cut back to the shape of the node it replaces in trees of every dimensionality, and reading, walking or reconstructing without update changes no stored node data; the largest level of a tree follows from the lengths of the transformed axes, and deeper paths are refused.',
 ['histories','inputs'],'all trees, paths, and sequences of decompose, assign, delete and reconstruct operations',
 'The three tree classes re-implement the same steps; the failing case needs an odd intermediate size or an operation sequence tests do not use.',
 ['pywt/_wavelet_packets.py'],
 [('part tables and decompose/reconstruct pairs','_wavelet_packets.py Node, Node2D, NodeND'),('trim to stored shape','_wavelet_packets.py _reconstruct')])
p('S01','Copied and pickled objects behave like the original',
 'A wavelet, continuous wavelet or packet tree that is pickled or copied has the same filters, attributes, bounds, axes and mode as the original.',
 ['histories','inputs'],'all built-in and custom wavelets with all user-set attributes, all packet trees with any axes',
 'The tests compare names and filter values only.',
 [EXT+'_pywt.pyx','pywt/_wavelet_packets.py'],
 [('__reduce__ methods and what constructors restore','_pywt.pyx Wavelet/ContinuousWavelet, _wavelet_packets.py')])
p('O01','Unknown options are rejected, never silently ignored',
 'Every parameter that selects among named alternatives (mode, kind, transform, order, method, output format, threshold rule, sub-band part) raises an exception for any value outside the documented set on every path that consults it, and accepts every documented value.',
 ['inputs'],'all option values at all public functions',
 'Tests try one or two invalid values for some of the options.',
 ['pywt/_dwt.py','pywt/_cwt.py','pywt/_mra.py','pywt/_multilevel.py','pywt/_wavelet_packets.py','pywt/_thresholding.py',EXT+'_pywt.pyx'],
 [('dispatch chains ending in raise','pywt/*.py, _pywt.pyx')])
p('G01','Array metadata lent to native code outlives its use',
 'Data, shape and stride pointers handed to native code always refer to an array that is still alive and still the one they were taken from when the native code runs and when results are allocated from them.',
 ['histories','inputs'],'all inputs (including those converted to another element type first), all numbers of levels',
 'Freed array headers usually still hold the old values, so the error appears only under memory pressure.',
 [EXT+'_dwt.pyx',EXT+'_swt.pyx'],
 [('descriptor fields filled from array attributes','_dwt.pyx dwt_axis, idwt_axis; _swt.pyx swt_axis')])
p('K01','Every continuous wavelet is fully wired up in both precisions',
 'Each continuous wavelet family, and every listed order of it, has a native evaluation routine that is reached in single and double precision with the wavelet parameters that family defines, fills every requested sample, and yields a complex result exactly when the wavelet says it is complex.',
 ['inputs','configurations'],'all continuous families and orders, both precisions, all sample counts',
 'Tests check values for one precision of most families; an unhandled order leaves zeros or returns nothing.',
 [EXT+'_cwt.pyx',EXT+'c/cwt.template.c',EXT+'c/wavelets.c',EXT+'_pywt.pyx'],
 [('family dispatch','_cwt.pyx cwt_psi_single'),('order switch','c/cwt.template.c'),('complex flag and parameters','c/wavelets.c continuous_wavelet')])
p('R01','Inverse transforms reconstruct the signal',
 'For every signal, built-in discrete wavelet, mode, axis and level, a forward transform followed by its inverse is, as a linear map, the identity to the accuracy of the tabulated filters: the result has the shape of the input plus the documented extra sample on odd axes, and every sample of the input comes back at its position (single-level, multi-level, stationary, fully separable, multiresolution and packet transforms).',
 ['inputs','configurations'],'all signals (the identity is of linear maps), wavelets, modes, levels, axes',
 'Random round-trip tests sample a few lengths, modes and wavelets; the failing case needs a particular combination of odd sizes, level and mode.',
 ['pywt/_dwt.py','pywt/_multilevel.py','pywt/_multidim.py','pywt/_swt.py','pywt/_mra.py','pywt/_wavelet_packets.py'],[('forward/inverse pairs','pywt/*.py'),('trimming of the extra sample','_multilevel.py waverec, waverec2, waverecn, fswaverecn')])
p('R02','Thresholding returns the documented value for every element',
 'Each thresholding rule maps every element of an array, including zeros, infinities, NaN and complex values, to the value its formula documents.',
 ['inputs'],'all element values, thresholds and substitutes',
 'Tests use small integer ramps.',
 ['pywt/_thresholding.py'],[('threshold formulas','_thresholding.py')])
p('R03','Continuous transform equals its documented discretisation by either method',
 'For every signal, scale, continuous wavelet, axis and computation method, each coefficient of the continuous transform equals -sqrt(scale) times the difference of the centred convolution of the signal with the conjugated integral of the wavelet sampled at that scale; the direct and the Fourier method agree; frequencies equal the central frequency divided by scale and sampling period.',
 ['inputs','configurations'],'all signals, scales, wavelets, axes, methods, precisions',
 'Numerical comparison at a few scales of one or two wavelets.',
 ['pywt/_cwt.py'],[('convolution per scale','_cwt.py cwt'),('sampled integral','_functions.py integrate_wavelet')])
p('T01','Demo signals and sample data are the documented ones, at every length',
 'For every signal name pywt.data.demo_signal lists (in any letter case) and every length n >= 1 the result is a finite float64 array (complex128 for Gabor) of exactly n samples that follow the formula of the WaveLab signal of that name, independent of earlier calls; Gabor and sineoneoverx have their fixed length and refuse n, the others require it; lengths below one, fractional lengths and unknown names raise ValueError. The sample data functions return the documented arrays.',
 ['inputs','configurations'],'all signal names, all lengths',
 'The tests compare each signal at one length with stored data.',
 ['pywt/data/_wavelab_signals.py','pywt/data/_readers.py'],[('signal formulas','_wavelab_signals.py demo_signal'),('sample data','_readers.py')])
p('V01','What is derived from a wavelet follows its filters or its formula',
 'For every discrete wavelet, named or custom, and every level >= 1 Wavelet.wavefun returns the scaling and wavelet functions given by the cascade of its reconstruction filters (and, if it is not orthogonal, also those of the inverse bank) on the documented grid; ContinuousWavelet.wavefun samples its formula between its bounds, in its element type, with 2**level or length points. integrate_wavelet is the cumulative rectangle integral of those samples (or of a signal given with its grid), central_frequency the frequency of the largest spectral line, scale2frequency and frequency2scale that divided by their argument; qmf reverses the filter and alternates its signs, and orthogonal_filter_bank returns the documented four filters normalised to sum sqrt(2). Levels below the smallest and unknown wavelets are refused.',
 ['inputs','configurations'],'all wavelets, flags of custom banks, levels and lengths',
 'Tests compare a few wavelets at one level with stored numbers or plot-like tolerances.',
 ['pywt/_extensions/_pywt.pyx','pywt/_functions.py','pywt/_extensions/_dwt.pyx'],[('cascade','_pywt.pyx Wavelet.wavefun'),('sampling','_pywt.pyx ContinuousWavelet.wavefun'),('derived numbers','_functions.py')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d)+'\n' for d in P))
print(len(P))
