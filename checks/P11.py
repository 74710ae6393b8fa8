from common import *
TN = ['ub', 'us', 'ui', 'f', 'd', 'b', 's', 'i', 'h']
F = ['ilConvertImage', 'iConvertImage', 'iFastConvert', 'ilConvertBuffer', 'iSwitchTypes', 'ilCopyImageAttr', 'ilCloseImage', 'iIsValidSize', 'ilGetBppFormat', 'ilGetBpcType', 'ilIsEnabled']
PU = dict(pure=['ilHalfToFloat', 'ilFloatToHalf'])
def cv(s, t, d, u, th, **x): return dv('H_conv', '_%d%s_%d%s' % (s, TN[t], d, TN[u]) + ''.join('_%s%s' % i for i in sorted(x.items())), ['SF=%d' % s, 'TYP=%d' % t, 'DF=%d' % d, 'DTY=%d' % u] + ['%s=%s' % i for i in x.items()], funcs=F, opts=PU, thorough=th, cost=3)
J = []
# layout and chain of two images: every pair of formats with changing pairs of types
for s in range(7):
    for d in range(7):
        if (s, d) == (6, 4): continue
        n = s * 7 + d
        for a in range(3):
            t, u = (n + 2 * a) % 9, (3 * n + 4 * a + 1) % 9
            if (s, t) == (d, u): u = (u + 1) % 9
            J.append(cv(s, t, d, u, not (a == 0 and (s + 2 * d) % 5 == 0), CHAIN=1, WHICH=a % 2, NOVAL=1))
# the chain when one of the two images is already as requested
for k, (s, t) in enumerate([(0, 0), (1, 3), (4, 1), (6, 8)]):
    J.append(cv(s, t, s, t, k > 1, CHAIN=1, WHICH=1, NOVAL=1, SF2=(s + 2) % 4, TYP2=(t + 1) % 5))
    J.append(cv((s + 2) % 4, (t + 1) % 5, s, t, k > 1, CHAIN=1, WHICH=0, NOVAL=1, SAME2=1))
# the pixels, for one image (the conversion of every format and type: P09, P10)
for s in range(7):
    for d in range(7):
        if s != d and (s, d) != (6, 4):
            t = (s + d) % 3
            J.append(cv(s, t, d, t, (s + d) % 4 != 1, CHAIN=0))
    J.append(cv(s, s % 3, s, (s + 1) % 3, s not in (1, 4), CHAIN=0))
J += [dv('H_bad', '_%d%s_f%d' % (s, TN[t], d), ['SF=%d' % s, 'TYP=%d' % t, 'DF=%d' % d], funcs=F, opts=PU, thorough=d != (2 * s) % 7) for s in range(7) for t in (s, (s + 4) % 9) for d in range(7)]
J += [dv('H_bad', '_%d%s_ci' % (s, TN[t]), ['SF=%d' % s, 'TYP=%d' % t, 'DFCI'], funcs=F, opts=PU) for s in range(7) for t in (s, (s + 4) % 9)]
J += [dv('H_bad', '_%d%s_t%s' % (s, TN[t], TN[u]), ['SF=%d' % s, 'TYP=%d' % t, 'DTY=%d' % u], funcs=F, opts=PU, thorough=u != s) for s in range(7) for t in (s, (s + 4) % 9) for u in range(9)]
P = dict(level='proof', harness=['P11.c'], native=['H_conv', 'H_quant', 'H_bad'], jobs=J,
  assumptions=['images below 2 GiB also after the conversion', 'colour key disabled (IL_USE_KEY_COLOUR)', 'chains of two images; the pairs of sample types of the chain obligations are a selection, every pair in native search (bounded)',
   'conversion to colour index (quantization): native search only (bounded); from colour index: P12', 'the values of ilHalfToFloat and ilFloatToHalf depend only on their argument (P19)'])
