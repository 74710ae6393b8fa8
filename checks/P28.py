from common import *
B = ['il_files.cpp', 'il_error.cpp', 'il_alloc.cpp', 'il_endian.cpp', 'il_internal.cpp', 'il_devil.cpp', 'il_utility.cpp']
T = [('blp', 'Blp'), ('bmp', 'Bmp'), ('dcx', 'Dcx'), ('dds', 'Dds'), ('gif', 'Gif'), ('hdr', 'Hdr'), ('icns', 'Icns'), ('ilbm', 'Ilbm'), ('iwi', 'Iwi'), ('jpeg', 'Jpeg'), ('lif', 'Lif'), ('mdl', 'Mdl'), ('mp3', 'Mp3'), ('pcx', 'Pcx'), ('pic', 'Pic'), ('png', 'Png'), ('psd', 'Psd'), ('psp', 'Psp'), ('scitex', 'Scitex'), ('sgi', 'Sgi'), ('sun', 'Sun'), ('targa', 'Tga'), ('tiff', 'Tiff'), ('tpl', 'Tpl'), ('vtf', 'Vtf'), ('xpm', 'Xpm')]
def c(f, t, **o): return dict(dict(h='H_valid', engine='cbmc', srcs=B + ['il_%s.cpp' % f], case='_' + t, defs=['FN=ilIsValid%sF' % t, 'FNL=ilIsValid%sL' % t], unwind=34, external=['png_sig_cmp', 'atof'], timeout=200, replay='H_stream', funcs=['ilIsValid%sF' % t, 'iIsValid' + t]), **o)
def few(j): j['defs'].append('FEW=1'); return j
J = [c(f, t) for f, t in T] + [dict(h='H_type', engine='cbmc', srcs=['il_io.cpp', 'il_error.cpp'], defs=['EXT_STUB=1'], unwind=90, timeout=400, external=['.*'], replay='H_ext', funcs=['ilTypeFromExt'], cost=60),
  dict(h='H_last', engine='cbmc', srcs=['il_internal.cpp'], defs=['XNL=24'], unwind=26, timeout=400, level='bounded', bound='file names of at most 24 characters', external=['.*'], replay='H_ext', funcs=['iGetExtension'])] + [few(c(f, t, partial=True, unwind=4, thorough=True, level='bounded', bound='headers of at most 3 elements')) for f, t in (('dicom', 'Dicom'), ('fits', 'Fits'))] + [dict(h='H_which', engine='cbmc', srcs=B + ['il_io.cpp'], defs=[], unwind=6, external=['ilIsValid.*F'], timeout=200, replay='H_stream', funcs=['ilIsValidF', 'ilDetermineTypeF'])]
P = dict(level='proof', harness=['P28.c'], native=['H_stream', 'H_ext'], jobs=J,
  assumptions=['streams shorter than 2^30 bytes; the callbacks of the stream keep their contract (a read stores at most what was asked for)', 'the checks for PNM and KTX files (not in the C subset that goto-cc reads), and those that need libraries that are not built in (EXR, JP2): native search only (bounded)', 'FITS and DICOM headers of at most 3 elements, thorough tier (bounded)', 'file names of at most 24 characters in the proof of iGetExtension (bounded); extensions of every length in that of ilTypeFromExt', 'ilIsValidF and ilDetermineTypeF: the checks for the single types by their contract (proved one by one by H_valid)', 'png_sig_cmp and atof by the contract that they have no effect', 'streams in memory: P17 (nothing outside the lump is read) and native search'])
