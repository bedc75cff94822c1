"""Obligations that compare two spellings of one request: names and objects,
single settings and one setting per axis, tuples and lists, negative axes."""
from pychecks import W2, W4, W6
from pychecks3 import E, same

MULTI = [n for n, (takes, f, ax) in E.items() if 'axes' in takes and 'wavelet' in takes]
PACKETS = ('pywt.WaveletPacket2D', 'pywt.WaveletPacketND')      # documented to take one wavelet


def g_spell(s):
    P = ['F01']
    for name, (takes, f, ax) in E.items():
        if 'wavelet' in takes:
            s.case(P + ['W01'], name, 'the wavelet by name', lambda s: (f(s, 'f8', 'db2', 'zero', ax), f(s, 'f8', s.Wavelet('db2'), 'zero', ax)), lambda s: lambda got: same(s, got))
        if name in MULTI and name not in PACKETS:
            for lab, w in (('list of one name', lambda s: ['db2']), ('tuple of one name', lambda s: ('db2',)), ('list of one object', lambda s: [s.Wavelet('db2')]), ('two names', lambda s: ('db2', 'db2')),
                           ('name and object', lambda s: ['db2', s.Wavelet('db2')])):
                s.case(P, name, 'the wavelet as ' + lab, lambda s: (f(s, 'f8', w(s), 'zero', ax), f(s, 'f8', 'db2', 'zero', ax)), lambda s: lambda got: same(s, got))
            if 'mode' in takes:
                for m, c in (('zero', 0), ('periodization', 5), ('smooth', 3)):
                    for lab, mm in (('list of one name', [m]), ('tuple of one name', (m,)), ('list of one code', [c]), ('two names', (m, m)), ('name and code', [m, c])):
                        s.case(P, name, 'mode %s as %s' % (m, lab), lambda s: (f(s, 'f8', W4, mm, ax), f(s, 'f8', W4, m, ax)), lambda s: lambda got: same(s, got))
        if 'axes' in takes:
            s.case(P, name, 'axes in a list', lambda s: (f(s, 'f8', W4, 'zero', list(ax)), f(s, 'f8', W4, 'zero', ax)), lambda s: lambda got: same(s, got))
            s.case(P, name, 'axes in a list, the other way round', lambda s: (f(s, 'f8', W4, 'zero', list(ax[::-1])), f(s, 'f8', W4, 'zero', ax[::-1])), lambda s: lambda got: same(s, got))

GROUPS7 = {'spell': g_spell}
