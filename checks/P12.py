from common import *
E = dict(nomodel=['ilSetError'])
EI = dict(E, max_unroll=100, pure=['ilHalfToFloat', 'ilFloatToHalf'])
J = [dv('H_pal', '_%d_%d' % (s, d), ['SP=%d' % s, 'DP=%d' % d], funcs=['iConvertPal', 'ilGetBppPal'], opts=E) for s in range(6) for d in range(6)]
J += [dv('H_cur', '_%d_%d' % (s, d), ['SP=%d' % s, 'DP=%d' % d], funcs=['ilConvertPal', 'iConvertPal', 'ilGetBppPal'], opts=E, thorough=(s + d) % 3 != 0) for s in range(6) for d in range(6)]
J += [dv('H_copy', '_%d' % s, ['SP=%d' % s], funcs=['iCopyPalette'], opts=E) for s in range(6)]
J += [dv('H_img', '_%d_%d_%d' % (s, d, t), ['SP=%d' % s, 'DF=%d' % d, 'DTY=%d' % t], funcs=['ilConvertImage', 'iConvertImage', 'iConvertPalette', 'iConvertPal', 'ilCopyImageAttr', 'ilResizeImage', 'ilConvertBuffer'], opts=EI, cost=2, thorough=t != 0 and (s + d + t) % 6 != 0) for s in range(6) for d in range(7) for t in range(9)]
J += [dv('H_reg', '_%d' % s, ['SP=%d' % s], funcs=['ilRegisterPal', 'ilSetPal'], opts=E) for s in (0, 5)]
P = dict(level='proof', harness=['P12.c'], native=['H_pal', 'H_cur', 'H_copy', 'H_img', 'H_reg'], jobs=J,
  assumptions=['palette indices inside the palette have the colour of their entry; indices beyond it are only required not to read outside the palette', 'luminance: the rounding of the weighted sum of the current code', 'images below 2 GiB after conversion, colour key disabled', 'creating palettes from colours (quantization) is not part of the property'])
