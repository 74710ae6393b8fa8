// Case parameters: fixed per obligation in the prover, free in native runs.
#ifndef CASE_H
#define CASE_H
#include "img.h"
#ifdef BPP
#define S_BPP BPP
#else
#define S_BPP nd_rng("bpp", 1, 4)
#endif
#ifdef BPC
#define S_BPC BPC
#else
#define S_BPC (1u << nd_rng("bpc", 0, 3))
#endif
extern ILuint ilCurrentPos;
// representation invariant of the state stack
#define STATE_OK ASSUME(ilCurrentPos < 32)
static ILenum fmt_of(ILuint bpp) { return bpp == 1 ? IL_LUMINANCE : bpp == 2 ? IL_LUMINANCE_ALPHA : bpp == 3 ? IL_RGB : IL_RGBA; }
static ILenum typ_of(ILuint bpc) { return bpc == 1 ? IL_UNSIGNED_BYTE : bpc == 2 ? IL_UNSIGNED_SHORT : bpc == 4 ? IL_UNSIGNED_INT : IL_DOUBLE; }
#endif
