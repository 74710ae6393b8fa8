from common import *
F = ['ilBlit', 'iClipBlit', 'ilConvertBuffer', 'ilIsEnabled']
def bl(h, sf, t, df, u, ax, org, blend, th, same=False):
    return dict(dv(h, '_%d%d_%d%d_a%d_o%d_b%d' % (sf, t, df, u, ax, org, blend), ['SF=%d' % sf, 'TYP=%d' % t, 'DF=%d' % df, 'DTY=%d' % u, 'AXIS=%d' % ax, 'ORG=%d' % org, 'BLEND=%d' % blend] + (['SAME'] if same else []),
        funcs=F + (['ilOverlayImage'] if h == 'H_over' else []), thorough=th, cost=4,
        opts=dict(bytecopy=same, nomodel=['ilSetError'], stubs={'ilBindImage': 'c_ilBindImage', 'ilGetCurName': 'c_ilGetCurName'}, pure=['ilHalfToFloat', 'ilFloatToHalf'])), inline=['iClipBlit'])
J = []
# strips along each dimension, in the format and type of the destination, every origin pair
for ax in (1, 2, 4):
    for org in range(4):
        for sf, t in ((0, 0), (1, 1), (4, 3), (5, 8), (3, 4), (2, 2), (6, 5)):
            n = sf + org + ax
            J.append(bl('H_blit', sf, t, sf, t, ax, org, 0, n % 4 != 0 or (ax == 4 and org > 1), same=True))
        J.append(bl('H_over', (org + ax) % 7, org, (org + ax) % 7, org, ax, org, 0, org != ax % 4, same=True))
# another format
for sf in range(7):
    for df in range(7):
        if sf != df and (sf, df) != (6, 4): J.append(bl('H_blit', sf, (sf + df) % 3, df, (sf + df) % 3, 1, (sf + df) % 4, 0, (sf + 3 * df) % 7 != 1))
# blending: what is not covered stays, alpha stays
for sf in (1, 3, 5):
    for df in range(6): J.append(bl('H_blit', sf, (sf + df) % 3, df, (sf + df) % 3, 1, 2, 1, df != sf - 1))
P = dict(level='proof', harness=['P27.c'], native=['H_blit', 'H_over'], jobs=J,
  assumptions=['proved for strips: images that extend along one dimension only, every size, offset and region; boxes that extend along several dimensions in native search only (bounded)',
    'binding an image by name makes it current (contract of ilBindImage and ilGetCurName: P02); images below 2 GiB also after conversion', 'a change of the sample type, and colour-index images: native search (conversion itself: P09, P10, P12)', 'the blended colour values are not specified'])
