// P09: pixel format conversion (same sample type), and the in-place channel operations.
#include "fmt.h"
#define W0 0.212671f
#define W1 0.715160f
#define W2 0.072169f
#ifdef VRT_DV
// exact: one rounding sequence of the weighted sum, accumulated in float or in double
static unsigned long lum_f(ILenum t, unsigned long a, ILfloat wa, unsigned long b, ILfloat wb, unsigned long c, ILfloat wc) {
	ILfloat f = 0;
	if (t == IL_FLOAT) { f += bits_f(a) * wa; f += bits_f(b) * wb; f += bits_f(c) * wc; return f_bits(f); }
	switch (bpc_of(t)) {
		case 1: f += (ILubyte)a * wa; f += (ILubyte)b * wb; f += (ILubyte)c * wc; return (ILubyte)f;
		case 2: f += (ILushort)a * wa; f += (ILushort)b * wb; f += (ILushort)c * wc; return (ILushort)f;
		default: f += (ILuint)a * wa; f += (ILuint)b * wb; f += (ILuint)c * wc; return f >= 4294967295.0 ? 0xffffffffU : (ILuint)f;
	}
}
static unsigned long lum_d(ILenum t, unsigned long a, ILfloat wa, unsigned long b, ILfloat wb, unsigned long c, ILfloat wc) {
	ILdouble d = 0;
	if (t == IL_FLOAT) { d += bits_f(a) * wa; d += bits_f(b) * wb; d += bits_f(c) * wc; return f_bits((ILfloat)d); }
	if (t == IL_DOUBLE) { d += bits_d(a) * wa; d += bits_d(b) * wb; d += bits_d(c) * wc; return d_bits(d); }
	d += (ILuint)a * wa; d += (ILuint)b * wb; d += (ILuint)c * wc; return d >= 4294967295.0 ? 0xffffffffU : (ILuint)d;
}
static int dbl_sum(ILenum sf, ILenum df, ILenum t) { return t == IL_DOUBLE || ((bpc_of(t) == 4) && (has_alpha(sf) || (sf == IL_BGR && df == IL_LUMINANCE))); }
static int lum_ok(ILenum sf, ILenum df, ILenum t, unsigned long r, unsigned long g, unsigned long b, unsigned long l) {
	if (dbl_sum(sf, df, t)) return l == (is_bgr(sf) ? lum_d(t, b, W2, g, W1, r, W0) : lum_d(t, r, W0, g, W1, b, W2));
	return l == (is_bgr(sf) ? lum_f(t, b, W2, g, W1, r, W0) : lum_f(t, r, W0, g, W1, b, W2));
}
#else
static double val(ILenum t, unsigned long u) {
	switch (t) { case IL_FLOAT: return bits_f(u); case IL_DOUBLE: return bits_d(u); case IL_HALF: return bits_f(ilHalfToFloat((ILushort)u)); }
	return (double)u;
}
static int lum_ok(ILenum sf, ILenum df, ILenum t, unsigned long r, unsigned long g, unsigned long b, unsigned long l) {
	double R = val(t, r), G = val(t, g), B = val(t, b), L = val(t, l), e, m;
	if (R != R || G != G || B != B || L != L) return 1;
	e = R * W0 + G * W1 + B * W2;
	m = (R < 0 ? -R : R) + (G < 0 ? -G : G) + (B < 0 ? -B : B);
	if (t == IL_HALF) { if (m > 60000) return 1; m = m * 0.002 + 1e-6; }
	else if (t == IL_FLOAT) { if (m > 1e38) return 1; m = m * 1e-5 + 1e-38; }
	else if (t == IL_DOUBLE) { if (m > 1e307) return 1; m = m * 1e-6 + 1e-300; }
	else m = m * 1e-5 + 1.0;
	return L - e <= m && e - L <= m;
}
#endif
#ifdef TYP
#ifndef SF
#define SF 0
#define DF 0
#endif
#ifndef AL
#define AL 0
#define BG 0
#endif
#define S_SF FM[SF]
#define S_DF FM[DF]
#define S_TY TY[TYP]
#else
#define S_SF FM[nd_rng("sf", 0, NF - 1)]
#define S_DF FM[nd_rng("df", 0, NF - 1)]
#define S_TY TY[nd_rng("ty", 0, NT - 1)]
#endif
// the channels a pixel of format df must have, given the pixel s[] of format sf
static void check_px(ILenum sf, ILenum df, ILenum t, const void *src, unsigned long k, const void *dst, unsigned long kd) {
	ILuint bc = bpc_of(t), sb = bpp_of(sf), db = bpp_of(df); int c;
#define SRC(ch) get_s(src, bc, k * sb + pos(sf, ch))
#define DST(ch) get_s(dst, bc, kd * db + pos(df, ch))
	if (is_col(df)) {
		if (is_col(sf)) for (c = 0; c < 3; c++) CHECK(DST(c) == SRC(c), "colour sample kept");
		else for (c = 0; c < 3; c++) CHECK(DST(c) == (sf == IL_ALPHA ? 0 : SRC(3)), "luminance replicated (black for alpha only)");
	} else if (df != IL_ALPHA) {
		if (is_col(sf)) CHECK(lum_ok(sf, df, t, SRC(0), SRC(1), SRC(2), DST(3)), "luminance is the weighted sum");
		else CHECK(DST(3) == (sf == IL_ALPHA ? 0 : SRC(3)), "luminance kept");
	}
	if (has_alpha(df)) CHECK(DST(4) == (has_alpha(sf) ? SRC(4) : df == IL_ALPHA ? 0 : full(t)), "alpha kept, or opaque when new");
#undef SRC
#undef DST
}
H(H_buf) {
	ILenum sf = S_SF, df = S_DF, t = S_TY; ILuint sb = bpp_of(sf), bc = bpc_of(t), n = nd_dim("pixels", 3, 70), k; ILubyte *b, *r; unsigned long old, i;
	ASSUME(!((sf == IL_ALPHA && df == IL_LUMINANCE) ));
	small_enough(n, 4, 1, bc);
	b = (ILubyte *)nd_buf("data", n * sb * bc); edges(b, n * sb, bc, t);
	k = nd_rng("k", 0, n - 1); i = nd_rng("i", 0, n * sb - 1); old = get_s(b, bc, i);
	r = (ILubyte *)ilConvertBuffer(n * sb * bc, sf, df, t, t, NULL, b);
	if (r != NULL) {
		COVER("converted");
		CHECK(r != b, "a new buffer");
		check_px(sf, df, t, b, k, r, k);
		ifree(r);
	}
	CHECK(get_s(b, bc, i) == old, "source unchanged");
	free(b);
}
static const ILenum CF[4] = { IL_RGB, IL_RGBA, IL_BGR, IL_BGRA };
static void image_op(int op, ILenum sf, ILenum df, ILenum t) {
	ILuint sb = bpp_of(sf), db = bpp_of(df), bc = bpc_of(t), x; ILimage *p = mk_img("data", sb, bc, sf, t); ILboolean r; unsigned long n, old[4]; int c;
	n = (unsigned long)W_ * H_ * D_; ASSUME(n * 4 * bc <= 0x7fffffffUL);
	x = nd_rng("k", 0, (ILuint)n - 1);
	ASSUME(x < n);
	for (c = 0; c < 4; c++) old[c] = c < (int)sb ? get_s(p->Data, bc, (unsigned long)x * sb + c) : 0;
	ilSetCurImage(p);
	switch (op) { case 0: r = iFastConvert(df); if (r) p->Format = df; break; case 1: r = ilAddAlpha(); break; case 2: r = ilRemoveAlpha(); break; default: r = ilSwapColours(); }
	COVER("done");
	if (r) {
		CHECK(p->Format == df && p->Bpp == db && p->Bpc == bc && p->Type == t, "format updated");
		CHECK(p->Width == W_ && p->Height == H_ && p->Depth == D_, "size kept");
		CHECK(p->Bps == W_ * db * bc && p->SizeOfPlane == p->Bps * H_ && p->SizeOfData == p->SizeOfPlane * D_, "sizes consistent");
		for (c = 0; c < 3; c++) CHECK(get_s(p->Data, bc, (unsigned long)x * db + pos(df, c)) == old[pos(sf, c)], "colour sample kept");
		if (has_alpha(df)) CHECK(get_s(p->Data, bc, (unsigned long)x * db + 3) == (has_alpha(sf) ? old[3] : full(t)), "alpha kept, or opaque when new");
	} else {
		CHECK(p->Format == sf && p->Bpp == sb, "refused: format kept");
		for (c = 0; c < 4; c++) if (c < (int)sb) CHECK(get_s(p->Data, bc, (unsigned long)x * sb + c) == old[c], "refused: pixels kept");
	}
	ilSetCurImage(NULL); fr_img(p);
}
#ifdef TYP
#define I_TY TY[TYP]
#define I_A AL
#define I_B BG
#else
#define I_TY TY[nd_rng("ty", 0, NT - 1)]
#define I_A nd_rng("al", 0, 1)
#define I_B nd_rng("bg", 0, 1)
#endif
H(H_fast) { ILuint a = I_A, b = I_B; image_op(0, CF[a + 2 * b], CF[a + 2 * !b], I_TY); }
H(H_swap) { ILuint a = I_A, b = I_B; image_op(3, CF[a + 2 * b], CF[a + 2 * !b], I_TY); }
H(H_add) { ILuint b = I_B; ILenum t = I_TY; image_op(1, CF[2 * b], CF[1 + 2 * b], t); }
H(H_rem) { ILuint b = I_B; ILenum t = I_TY; image_op(2, CF[1 + 2 * b], CF[2 * b], t); }
