from common import *
R = ['iSetInputLump', 'iReadLump', 'iSeekRLump', 'iTellRLump']; W = ['iSetOutputLump', 'iWriteLump', 'iSeekWLump', 'iTellWLump']
P = dict(level='proof', harness=['P17.c'], native=['H_read', 'H_read_err', 'H_seek', 'H_seekw', 'H_putc', 'H_write', 'H_write_err', 'H_seq'],
  jobs=[dv('H_read', '_e%s' % e, ['ESZ=%d' % e] if e != 'any' else [], funcs=R) for e in (0, 1, 2, 3, 4, 8, 'any')] + [dv('H_write', '_e%s' % e, ['ESZ=%d' % e] if e != 'any' else [], funcs=W) for e in (0, 1, 2, 3, 4, 8, 'any')]
   + [dv('H_read_err', funcs=R + ['ilSetError'], opts=dict(nomodel=['ilSetError'])), dv('H_write_err', funcs=W + ['ilSetError'], opts=dict(nomodel=['ilSetError'])), dv('H_getc', funcs=['iGetcLump']), dv('H_eof', funcs=['iEofLump']), dv('H_seek', funcs=R[2:]), dv('H_seekw', funcs=W[2:]), dv('H_putc', funcs=['iPutcLump'])],
  native_secs=4,
  assumptions=['lump size at least 1 (0 means "size unknown" in this API) and below 2 GiB', 'requested byte counts below 2 GiB'])
