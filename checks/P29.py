from common import *
ST = {'ilFixImage':'s_true','iWriteLump':'c_write','iReadLump':'c_read'}
STT = dict(ST, **{'iPutcLump':'c_putc','iGetcLump':'c_getc','ipad':'c_pad','iGetString':'s_string','iGetInt':'s_rle','iGetHint':'s_rle','ilCharStrLen':'s_len'})
J = []
for nb in (1, 3, 4):
    for bc in (1, 2, 4): J.append(dv('H_rawany', '_%d_%d' % (nb, bc), ['NB=%d' % nb, 'BC=%d' % bc], opts=dict(stubs=ST), funcs=['iSaveRawInternal', 'iLoadRawInternal']))
    J.append(dv('H_tgaany', '_%d' % nb, ['NB=%d' % nb], opts=dict(stubs=STT, max_unroll=60), funcs=['iSaveTargaInternal', 'iLoadTargaInternal', 'iReadUnmapTga', 'iReadBwTga', 'iGetTgaHead', 'iCheckTarga']))
P = dict(level='proof', harness=['P29.c'], native=['H_raw','H_tga','H_bmp','H_sgi','H_pnm'], jobs=J,
  assumptions=['proved for every size and content: RAW images of 1, 3 and 4 channels and 8, 16 and 32 bits, and uncompressed Targa images (luminance, BGR, BGRA, lower-left origin, no comments), saved and loaded',
   'for those proofs the memory I/O is replaced by its contract (proved by P17), ilFixImage by "does nothing" (its parts are proved by P02 and P03), and integer and string settings by their defaults (P11, P12)',
   'BMP, SGI, PNM, run-length encoding, palettes, upper-left origins, swapped colour orders and the predicted size are not proved: the same round trip is executed on the real code for generated images up to 40x12 (bounded)',
   'allocation sizes as in the other checks: images below 2 GB'])
