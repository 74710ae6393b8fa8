// P14: clearing fills the whole image with the clear colour.
#include "fmt.h"
#include <limits.h>
#ifdef SF
#define S_SF FM[SF]
#else
#define S_SF FM[nd_rng("sf", 0, NF - 1)]
#endif
#ifdef TYP
#define S_TY TY[TYP]
#else
#define S_TY TY[nd_rng("ty", 0, NT - 1)]
#endif
static ILfloat c01(ILfloat v) { return v < 0.0f ? 0.0f : v > 1.0f ? 1.0f : v; }
// any finite float; natively often an interesting one
static ILfloat nd_col(const char *n) {
#if defined(VRT_CBMC) || defined(VRT_DV)
	ILfloat f = nd_f32(n); ASSUME(f == f);
#else
	ILfloat f = nd_rng("ck", 0, 3) ? (nd_irng("ci", -50, 1050) / 1000.0f) : nd_f32(n); ASSUME(f == f);
#endif
	return f;
}
// in the VC generator the clear colour is arbitrary to begin with
#ifdef VRT_DV
#define SETCOL(r, g, b, a) ((void)0)
#else
#define SETCOL(r, g, b, a) ilClearColour(r, g, b, a)
#endif
// every sample of every pixel is the one of the clear colour; nothing else changes
H(H_clear) {
	ILenum sf = S_SF, t = S_TY; ILuint sb = bpp_of(sf), bc = bpc_of(t), k, c; ILimage *p = mk_img("data", sb, bc, sf, t); unsigned long n; ILubyte col[32]; ILfloat r, g, b, a;
	n = (unsigned long)W_ * H_ * D_;
	r = nd_col("r"); g = nd_col("g"); b = nd_col("b"); a = nd_col("a");
	SETCOL(r, g, b, a);
	ilGetClear(col, sf, t);
	k = nd_rng("k", 0, (ILuint)n - 1); c = nd_rng("c", 0, sb - 1);
	ilSetCurImage(p);
	if (ilClearImage()) {
		COVER("cleared");
		CHECK(get_s(p->Data, bc, (unsigned long)k * sb + c) == get_s(col, bc, c), "every sample of every pixel is the clear colour's");
	}
	CHECK(p->Format == sf && p->Type == t && p->Bpp == sb && p->Bpc == bc && p->Width == W_ && p->Height == H_ && p->Depth == D_ && p->Bps == W_ * sb * bc && p->SizeOfPlane == p->Bps * H_ && p->SizeOfData == p->SizeOfPlane * D_ && p->Pal.Palette == NULL, "image description unchanged");
	ilSetCurImage(NULL); fr_img(p);
}
// colour index: every index zero, and the palette's colour zero is the clear colour
H(H_index) {
	ILimage *p = mk_img("data", 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE); unsigned long n; ILubyte col[4]; ILuint k, c;
	n = (unsigned long)W_ * H_ * D_;
	p->Pal.PalSize = 3 * nd_rng("np", 1, 256); p->Pal.PalType = IL_PAL_RGB24; p->Pal.Palette = (ILubyte *)nd_buf("pal", p->Pal.PalSize);
	SETCOL(nd_col("r"), nd_col("g"), nd_col("b"), nd_col("a"));
	ilGetClear(col, IL_RGBA, IL_UNSIGNED_BYTE);
	k = nd_rng("k", 0, (ILuint)n - 1); c = nd_rng("c", 0, 3);
	ilSetCurImage(p);
	if (ilClearImage()) {
		COVER("cleared");
		CHECK(p->Data[k] == 0, "every index is zero");
		CHECK(p->Pal.PalType == IL_PAL_RGBA32 && p->Pal.PalSize == 4 && p->Pal.Palette[c] == col[c], "entry zero is the clear colour");
	}
	CHECK(p->Format == IL_COLOUR_INDEX && p->Bpp == 1 && p->SizeOfData == W_ * H_ * D_, "image description unchanged");
	ilSetCurImage(NULL); fr_img(p);
}
// the clear colour in a format and type is the colour that was set, clamped to 0..1
static int is_val(ILenum t, const ILubyte *b, ILuint i, ILfloat v) {
	unsigned long s = get_s(b, bpc_of(t), i); ILdouble m, q;
	switch (t) {
		case IL_FLOAT: return bits_f(s) == v;
		case IL_DOUBLE: return bits_d(s) == (ILdouble)v;
		case IL_HALF: { ILfloat h = bits_f(ilHalfToFloat((ILushort)s)); return h >= 0 && h <= 1 && h - v <= 0.00049f && v - h <= 0.00049f && (v != 1.0f || h == 1.0f); }
	}
	m = (ILdouble)full(t); q = v * m;
	// rounded either way; the ends of the range exactly
	if (v == 0.0f) return s == 0;
	if (v == 1.0f) return s == full(t);
	if (bpc_of(t) == 4) return (ILdouble)s >= q - 257.0 && (ILdouble)s <= q + 257.0;
	return (ILdouble)s > q - 1.01 && (ILdouble)s < q + 1.01;
}
H(H_value) {
	ILenum sf = S_SF, t = S_TY; ILuint sb = bpp_of(sf), bc = bpc_of(t), c, i; ILubyte col[40]; ILfloat v[4], want;
	for (c = 0; c < 4; c++) v[c] = nd_col("v");
	for (i = 0; i < 40; i++) col[i] = 0xA5;
#ifdef CH
	c = CH;
#else
	c = nd_rng("c", 0, sb - 1);
#endif
	ilClearColour(v[0], v[1], v[2], v[3]);
	ilGetClear(col, sf, t);
	COVER("got");
	if (has_alpha(sf) && c == sb - 1) want = c01(v[3]);
	else if (is_col(sf)) want = c01(v[is_bgr(sf) ? 2 - c : c]);
	else if (v[0] == v[1] && v[1] == v[2]) want = c01(v[0]);
	else {
#ifdef VRT_CBMC
		want = 0; ASSUME(0);
#else
		// a grey is exact, any other colour is weighted
		ILdouble l = 0.212671 * c01(v[0]) + 0.715160 * c01(v[1]) + 0.072169 * c01(v[2]), e = 0.00002, s; unsigned long u = get_s(col, bc, c);
		switch (t) { case IL_FLOAT: s = bits_f(u); break; case IL_DOUBLE: s = bits_d(u); break; case IL_HALF: s = bits_f(ilHalfToFloat((ILushort)u)); e = 0.001; break; default: s = (ILdouble)u / (ILdouble)full(t); e += 1.0 / (ILdouble)full(t); }
		CHECK(s >= l - e && s <= l + e, "luminance of the clear colour");
		return;
#endif
	}
	CHECK(is_val(t, col, c, want), "the sample is the clamped component");
	i = nd_rng("i", 0, 39); if (i >= sb * bc) CHECK(col[i] == 0xA5, "nothing beyond the pixel is written");
}

// the integer and half samples say the same as the float ones
H(H_agree) {
	ILenum sf = S_SF, t = S_TY; ILuint sb = bpp_of(sf), bc = bpc_of(t), c; ILfloat v[4]; ILubyte *col = (ILubyte *)nd_buf("col", sb * bc); unsigned long s;
	c = nd_rng("c", 0, sb - 1);
	SETCOL(nd_col("r"), nd_col("g"), nd_col("b"), nd_col("a"));
	ilGetClear(v, sf, IL_FLOAT);
	ilGetClear(col, sf, t);
	COVER("got");
	s = get_s(col, bc, c);
#ifdef VRT_DV
	// exactly the formula of the code; the tolerance is applied when a candidate is replayed
	CHECK(s == (t == IL_HALF ? ilFloatToHalf((ILuint)f_bits(v[c])) : t == IL_FLOAT ? f_bits(v[c]) : t == IL_DOUBLE ? d_bits(v[c]) : bc == 1 ? (ILubyte)(v[c] * UCHAR_MAX) : bc == 2 ? (ILushort)(v[c] * USHRT_MAX) : (ILuint)((ILdouble)v[c] * UINT_MAX)), "the sample is the component");
#else
	CHECK(is_val(t, col, c, v[c]), "the sample is the component");
#endif
	free(col);
}
