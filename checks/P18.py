def c(h, f): return dict(h=h, engine='cbmc', srcs=['il_endian.cpp', 'il_files.cpp', 'il_error.cpp', 'il_size.cpp', 'il_alloc.cpp'], unwind=26, funcs=f, flags=['--drop-unused-functions'])
P = dict(level='proof', harness=['P18.c'], native=['H_get16', 'H_get32', 'H_getflt', 'H_save16', 'H_save32', 'H_saveflt', 'H_swap', 'H_round'],
  jobs=[c('H_get16', ['GetLittleUShort', 'GetLittleShort', 'GetBigUShort', 'GetBigShort', 'iReadLump']), c('H_get32', ['GetLittleUInt', 'GetLittleInt', 'GetBigUInt', 'GetBigInt']), c('H_getflt', ['GetLittleFloat', 'GetBigFloat', 'GetLittleDouble', 'GetBigDouble']),
        c('H_save16', ['SaveLittleUShort', 'SaveLittleShort', 'SaveBigUShort', 'SaveBigShort', 'iWriteLump']), c('H_save32', ['SaveLittleUInt', 'SaveLittleInt', 'SaveBigUInt', 'SaveBigInt']), c('H_saveflt', ['SaveLittleFloat', 'SaveBigFloat', 'SaveLittleDouble', 'SaveBigDouble']),
        c('H_swap', ['iSwapUShort', 'iSwapShort', 'iSwapUInt', 'iSwapInt', 'iSwapFloat', 'iSwapDouble']), c('H_round', [])], native_secs=3,
  assumptions=['little-endian host (this sandbox)', 'values are read from and written to memory lumps; loops are unwound to the width of the value with unwinding assertions, so the proofs are complete'])
