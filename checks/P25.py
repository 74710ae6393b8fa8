from common import *
TN = ['ub', 'us', 'ui', 'f', 'd', 'b', 's', 'i', 'h']
E = dict(nomodel=['ilSetError'], pure=['ilHalfToFloat', 'ilFloatToHalf'])
def ft(h, s, t, F, th, **k): return dv(h, '_%d%s' % (s, TN[t]), ['SF=%d' % s, 'TYP=%d' % t], funcs=F, opts=E, thorough=th, **k)
J = [ft('H_neg', s, t, ['iluNegative', 'iScanFill'], (s, t) not in ((0, 0), (1, 1), (2, 2), (3, 5), (5, 6), (4, 7), (6, 0))) for s in range(7) for t in (0, 1, 2, 5, 6, 7)]
J += [dv('H_negpal', '', [], funcs=['iluNegative'], opts=E)]
J += [ft('H_alpha', s, t, ['iluInvertAlpha'], not ((s in (1, 3, 5) and (t + s) % 2) or t == s)) for s in range(7) for t in range(8)]
J += [ft('H_swap', s, t, ['iluSwapColours', 'ilConvertImage', 'iConvertImage', 'iFastConvert', 'ilConvertBuffer'], not ((s < 4 and (t + s) % 2) or t == s)) for s in range(7) for t in range(8)]
J += [dv('H_swappal', '_%d' % s, ['SP=%d' % s], funcs=['iluSwapColours', 'ilConvertPal', 'iConvertPal'], opts=E) for s in range(6)]
P = dict(level='proof', harness=['P25.c'], native=['H_neg', 'H_negpal', 'H_alpha', 'H_swap', 'H_swappal'], jobs=J,
  assumptions=['images below 2 GiB', 'no region is set (iluRegionfv/iluRegioniv); colour key disabled', 'that inverting a floating-point alpha gives 1 - alpha, and swapping half-float images: native search only (bounded); the half-float images of the other effects are not part of the property'])
