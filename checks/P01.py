from common import *
TN = ['ub', 'us', 'ui', 'f', 'd', 'b', 's', 'i', 'h']
E = dict(nomodel=['ilSetError'])
TF = dict(H_tex=['ilTexImage', 'ilTexImage_', 'ilInitImage', 'iIsValidSize', 'ilCloseImage', 'ilGetBpcType', 'ilSetError'], H_surf=['ilTexImageSurface', 'ilTexImageSurface_', 'ilInitImage', 'iIsValidSize'], H_new=['ilNewImageFull', 'ilInitImage', 'iIsValidSize', 'ilCloseImage'])
J = [dv(h, '_%d_%s' % (b, TN[t]), ['BPP=%d' % b, 'TYP=%d' % t], funcs=TF[h], opts=E if h != 'H_new' else {}, thorough=b != 1 + (t + i) % 4) for i, h in enumerate(TF) for b in (1, 2, 3, 4) for t in range(9)]
J += cases('H_blank', ALLPC, funcs=['ilNewImage', 'ilGetFormatBpp', 'ilGetTypeBpc', 'ilInitImage', 'iIsValidSize', 'ilCloseImage'])
J += cases('H_resize', ALLPC, funcs=['ilResizeImage', 'iIsValidSize'], opts=E)
J += cases('H_setdata', [(b, c) for b, c in ALLPC if b in (1, 4)], funcs=['ilSetData', 'ilTexSubImage_'], opts=E)
J += [dv('H_type', '', [], funcs=['ilTexImage', 'ilTexImageSurface', 'ilGetBpcType'], opts=E)]
P = dict(level='proof', harness=['P01.c'], native=['H_tex', 'H_surf', 'H_type', 'H_new', 'H_blank', 'H_resize', 'H_setdata'], jobs=J,
  assumptions=['the image that is redefined is below 2 GiB and has no sub-images (P03 and P04 look at chains)', 'the allocator either fails or returns a buffer of the requested size (the model of ialloc; the error it records on failure: native runs)'])
