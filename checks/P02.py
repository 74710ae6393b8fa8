from common import *
S = ['il_devil.cpp', 'il_internal.cpp', 'il_alloc.cpp', 'il_error.cpp', 'il_utility.cpp']
def c(h, case='', defs=(), **k): return dict(dict(h=h, engine='cbmc', srcs=S, case=case, defs=list(defs), unwind=6, unwindset=['c_recalloc.0:26'], malloc_fail=True, level='bounded', bound='table of 8..24 names, 3 free names', subst=[('il_stack.cpp', r'#define I_STACK_INCREMENT 1024', '#define I_STACK_INCREMENT 8'), ('il_stack.cpp', r'\bilRecalloc\((?!void)', 'c_recalloc(')], timeout=300), **k)
P = dict(level='model_checking', harness=['P02.c'], native=['H_hist', 'H_recalloc'],
  jobs=[c('H_gen', '_1', ['NUM=1'], funcs=['ilGenImages', 'ilIsImage']), c('H_gen', '_2', ['NUM=2'], funcs=['ilGenImages'], thorough=True),
        c('H_bind', '_in', ['ALO=0', 'AHI=7'], funcs=['ilBindImage', 'iUnfreeName', 'ilGetCurName', 'ilGetCurImage']), c('H_bind', '_grow', ['ALO=8', 'AHI=23'], funcs=['ilBindImage', 'iEnlargeStack', 'ilRecalloc']),
        c('H_bind', '_huge', ['ALO=0x10000000u', 'AHI=0xffffffffu'], funcs=['ilBindImage', 'iEnlargeStack']),
        c('H_del', funcs=['ilDeleteImages']), c('H_is', funcs=['ilIsImage']),
        dv('H_recalloc', funcs=['ilRecalloc'], opts=dict(nomodel=['ilSetError'])), c('H_init', funcs=['iSetImage0', 'iBindImageTemp'])],
  assumptions=['bounded: the table of names holds 8 slots (16 or 24 after it grows) instead of a multiple of 1024 (I_STACK_INCREMENT is replaced by 8 in the copy that CBMC verifies), at most 3 names on the list of free names; one operation from an arbitrary state that satisfies the table invariant, histories by induction; ilGenImages for one or two names, ilDeleteImages for two',
    'ilRecalloc by its contract inside the table proofs (proved for every size by H_recalloc)', 'ilInit has been called; initialisation itself uses (binds) name 1', 'contents of the images: native search over histories (bounded)'],
  note='one-step induction from arbitrary states of the name table, bounded to 8..24 slots and 3 free names (CBMC); ilRecalloc for every size (dv); long histories only by native search: bounded, not a proof')
