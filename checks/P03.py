from common import *
F = ['ilCopyImage_', 'ilCopyImageAttr', 'ilNewImage', 'ilGetFormatBpp', 'ilGetTypeBpc', 'ilInitImage', 'iIsValidSize', 'ilCloseImage', 'iFree']
J = [dv('H_copy', '_%d_%d_%d' % (b, c, a), ['BPP=%d' % b, 'BPC=%d' % c, 'ATT=%d' % a], funcs=F, cost=2) for b, c in ALLPC for a in (0, 1)]
J += [dv('H_attr', '_%d_%d_%d' % (b, c, a), ['BPP=%d' % b, 'BPC=%d' % c, 'ATT=%d' % a], funcs=['ilCopyImageAttr', 'ilCloseImage', 'iFree'], cost=2) for b, c in ALLPC for a in (0, 1)]
P = dict(level='proof', harness=['P03.c'], native=['H_copy', 'H_attr', 'H_names'], jobs=J,
  assumptions=['images below 2 GiB', 'by name (ilCloneCurImage, ilCopyImage): native search only (bounded); both are ilTexImage (P01) followed by ilCopyImageAttr (proved)', 'the copy is of the image itself; sub-images are not copied, and the copy has none'])
