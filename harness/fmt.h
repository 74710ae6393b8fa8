// Pixel formats and sample types: channel positions, full scale values.
#ifndef FMT_H
#define FMT_H
#include "case.h"
#define NF 7
static const ILenum FM[NF] = { IL_RGB, IL_RGBA, IL_BGR, IL_BGRA, IL_LUMINANCE, IL_LUMINANCE_ALPHA, IL_ALPHA };
#define NT 9
static const ILenum TY[NT] = { IL_UNSIGNED_BYTE, IL_UNSIGNED_SHORT, IL_UNSIGNED_INT, IL_FLOAT, IL_DOUBLE, IL_BYTE, IL_SHORT, IL_INT, IL_HALF };
static ILuint bpp_of(ILenum f) { return f == IL_RGB || f == IL_BGR ? 3 : f == IL_RGBA || f == IL_BGRA ? 4 : f == IL_LUMINANCE_ALPHA ? 2 : 1; }
static ILuint bpc_of(ILenum t) { return t == IL_BYTE || t == IL_UNSIGNED_BYTE ? 1 : t == IL_SHORT || t == IL_UNSIGNED_SHORT || t == IL_HALF ? 2 : t == IL_DOUBLE ? 8 : 4; }
static int has_alpha(ILenum f) { return f == IL_RGBA || f == IL_BGRA || f == IL_LUMINANCE_ALPHA || f == IL_ALPHA; }
static int is_col(ILenum f) { return f == IL_RGB || f == IL_BGR || f == IL_RGBA || f == IL_BGRA; }
static int is_bgr(ILenum f) { return f == IL_BGR || f == IL_BGRA; }
// position of red (0), green (1), blue (2), luminance (3), alpha (4) inside a pixel of format f
static ILuint pos(ILenum f, int ch) {
	if (ch == 4) return bpp_of(f) - 1;
	if (ch == 3) return 0;
	return is_bgr(f) ? 2 - ch : ch;
}
static unsigned long full(ILenum t) {
	switch (t) { case IL_FLOAT: return 0x3f800000UL; case IL_DOUBLE: return 0x3ff0000000000000UL; case IL_HALF: return 0x3c00; }
	switch (bpc_of(t)) { case 1: return 0xff; case 2: return 0xffff; default: return 0xffffffffUL; }
}
static ILfloat bits_f(unsigned long u) { union { ILuint u; ILfloat f; } x; x.u = (ILuint)u; return x.f; }
static ILdouble bits_d(unsigned long u) { union { unsigned long u; ILdouble d; } x; x.u = u; return x.d; }
static unsigned long f_bits(ILfloat f) { union { ILuint u; ILfloat f; } x; x.f = f; return x.u; }
static unsigned long d_bits(ILdouble d) { union { unsigned long u; ILdouble d; } x; x.d = d; return x.u; }
static void put_s(void *p, ILuint bpc, unsigned long i, unsigned long v) {
	switch (bpc) { case 1: ((ILubyte *)p)[i] = (ILubyte)v; break; case 2: ((ILushort *)p)[i] = (ILushort)v; break; case 4: ((ILuint *)p)[i] = (ILuint)v; break; default: ((unsigned long *)p)[i] = v; }
}
#ifndef VRT_DV
// edge values in some of the samples (native runs)
static void edges(ILubyte *b, ILuint n, ILuint bpc, ILenum t) { ILuint i; if (nd_rng("edge", 0, 1)) for (i = 0; i < n; i++) if (nd_rng("e", 0, 2)) put_s(b, bpc, i, nd_rng("z", 0, 2) ? full(t) : 0); }
#else
#define edges(b, n, bpc, t) ((void)0)
#endif
#endif
