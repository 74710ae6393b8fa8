from common import *
SUB = [('il_rle.cpp', r'while\s*\(\s*n > 0\s*\)', 'while( n > 0 && st_once() )'), ('il_rle.cpp', r'\*DestWidth = RLEBufSize;', '*DestWidth = RLEBufSize; st_n = n; st_p = p; st_q = q;')]
J = [dict(h='H_step', engine='cbmc', case='_%s%d' % (('tga', 'sgi')[m], b), defs=['MODE=%d' % m, 'BPP=%d' % b], srcs=['il_error.cpp'], unwind=515, subst=SUB, funcs=['ilRleCompressLine', 'CountDiffPixels', 'CountSamePixels', 'GetPix'], timeout=800, replay='H_line', thorough=(m, b) not in ((0, 1), (0, 3), (0, 4), (1, 1))) for m in (0, 1) for b in (1, 2, 3, 4)]
P = dict(level='proof', harness=['P20.c'], native=['H_line', 'H_image', 'H_bad'], jobs=J,
  assumptions=['one iteration of the loop over the packets of a line, from any state and for every content of the at most 128 pixels it may look at (the copy of il_rle.cpp that CBMC verifies ends the loop after one iteration and exposes its final state); that a line is the concatenation of its packets is a manual induction',
    'lines shorter than 2^31 pixels', 'ilRleCompress (all lines of an image) and reads beyond the end of a short line: native search with AddressSanitizer (bounded)', 'the BMP scheme, which no saver uses, is not part of the property'])
