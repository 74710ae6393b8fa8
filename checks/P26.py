S = ['il_utility.cpp', 'il_states.cpp', 'il_stack.cpp', 'il_error.cpp', 'il_alloc.cpp']
def c(h, f, **k): return dict(dict(h=h, engine='cbmc', srcs=S, unwind=34, funcs=f), **k)
P = dict(level='proof', harness=['P26.c'], native=['H_format', 'H_formatbpp', 'H_type', 'H_typebpc', 'H_pal', 'H_pow2', 'H_query'],
  jobs=[c('H_format', ['ilGetBppFormat', 'ilGetFormatBpp']), c('H_formatbpp', ['ilGetFormatBpp']), c('H_type', ['ilGetBpcType', 'ilGetTypeBpc']), c('H_typebpc', ['ilGetTypeBpc']), c('H_pal', ['ilGetBppPal', 'ilGetPalBaseType']),
        c('H_pow2', ['ilNextPower2']), c('H_query', ['ilGetInteger', 'ilGetIntegerv', 'iGetIntegervImage'])], native_secs=2,
  assumptions=['ilNextPower2 loops at most 32 times: unwound with unwinding assertions, so complete'])
