from common import *
ID = [('il_dds.cpp', r'\A', '')]
C = r'(?:lImage->)?'
ST = [('il_dds.cpp', r'\A', 'static unsigned st_x, st_y, st_z; static int st_left;\n'),
      ('il_dds.cpp', r'for \(z = 0; z < (%sDepth); z\+\+\)' % C, r'for (z = st_z; st_left > 0 && z < \1; z++)'),
      ('il_dds.cpp', r'for \(y = 0; y < (%sHeight); y \+= 4\)' % C, r'for (y = st_y; st_left > 0 && y < \1; y += 4)'),
      ('il_dds.cpp', r'for \(x = 0; x < (%sWidth); x \+= 4\)' % C, r'for (x = st_x; st_left-- > 0 && x < \1; x += 4)')]
N = ['dxt1', 'dxt3', 'dxt5', 'ati1n', '3dc']; F = ['DecompressDXT1', 'DecompressDXT3', 'DecompressDXT5', 'DecompressAti1n', 'Decompress3Dc']; CH = [4, 4, 4, 1, 3]
def fs(k): return [F[k]] + ['DxtcReadColor', 'DxtcReadColors'][k > 0:][:1] * (k < 3)
def st(k, **kw): return dict(dv('H_any', '_' + N[k], ['KIND=%d' % k], funcs=fs(k)), subst=ST, budget=500, **kw)
def im(k, w, h, d, c=None, **kw): return dict(dict(h='H_image', engine='cbmc', case='_%s%s_%dx%dx%d' % (N[k], '' if c is None else 'rgba'[c], w, h, d), defs=['KIND=%d' % k, 'WW=%d' % w, 'HH=%d' % h, 'DD=%d' % d] + ([] if c is None else ['CC=%d' % c]), srcs=['il_error.cpp'] + (['il_internal.cpp'] if k == 4 else []), unwind=140, flags=['--max-field-sensitivity-array-size', '600'], subst=ID, funcs=fs(k), replay='H_dds', timeout=400, level='bounded', bound='images of %dx%dx%d' % (w, h, d)), **kw)
J = [st(k, thorough=k > 2, cost=9) for k in range(5)]
J += [im(0, 5, 6, 2), im(0, 3, 4, 1), im(1, 3, 4, 1), im(2, 3, 4, 1, 0), im(2, 3, 4, 1, 1), im(2, 3, 4, 1, 2), im(2, 3, 4, 1, 3)]
J += [im(1, 5, 6, 2, thorough=True)] + [im(k, 3, 4, 1, c, thorough=True) for k, c in ((3, None), (4, 0), (4, 1))]
P = dict(level='model_checking', harness=['P21.c'], native=['H_image', 'H_dds'], jobs=J,
  assumptions=['memory safety: one iteration of the loops over the blocks at any place of an image of any size below 2 GiB (dv; the copy of il_dds.cpp that is verified enters the loops at that place and leaves after one block); the blocks of an image are such iterations, 8 or 16 bytes further each: manual induction, checked on 5x6x2 images',
    'values: every block content, bounded to images of 3x4x1 and 5x6x2 texels (CBMC); the third channel of 3Dc and the loader of .dds files natively only (bounded)',
    'the DDS headers that the loader reads are well-formed; DXT2 and DXT4 (pre-multiplied), raw packed pixels, float and RXGB data are not part of the property'],
  note='memory safety of a block step for every image size (dv); texel values for every block content on images of two sizes (CBMC, bounded); all sizes and the loader by native search: bounded, not a proof')
