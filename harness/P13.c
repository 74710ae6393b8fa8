// P13: reading and replacing the alpha channel.
#include "fmt.h"
#ifdef SF
#define S_SF FM[SF]
#else
#define S_SF FM[nd_rng("sf", 0, NF - 1)]
#endif
#ifdef TYP
#define S_TY TY[TYP]
#else
#define S_TY TY[nd_rng("ty", 0, NT - 1)]
#endif
#ifdef DTY
#define D_TY TY[DTY]
#else
#define D_TY TY[nd_rng("dty", 0, NT - 1)]
#endif
// the alpha of every pixel, in the requested type
H(H_get) {
	ILenum sf = S_SF, t = S_TY, dt = D_TY; ILuint sb = bpp_of(sf), bc = bpc_of(t), k, i; ILimage *p = mk_img("data", sb, bc, sf, t); ILubyte *r, one[8], *r1 = NULL; unsigned long n, old;
	n = (unsigned long)W_ * H_ * D_; ASSUME(n * 4 * 8 <= 0x7fffffffUL);
	edges(p->Data, (ILuint)(n * sb), bc, t);
	k = nd_rng("k", 0, (ILuint)n - 1); i = nd_rng("i", 0, (ILuint)n * sb - 1); old = get_s(p->Data, bc, i);
	if (has_alpha(sf) && t != dt) {
		put_s(one, bc, 0, get_s(p->Data, bc, (unsigned long)k * sb + pos(sf, 4)));
		r1 = (ILubyte *)ilConvertBuffer(bc, IL_ALPHA, IL_ALPHA, t, dt, NULL, one); ASSUME(r1 != NULL);
	}
	ilSetCurImage(p);
	r = ilGetAlpha(dt);
	if (r != NULL) {
		COVER("alpha");
		CHECK(r != p->Data, "a new buffer");
		if (!has_alpha(sf)) CHECK(get_s(r, bpc_of(dt), k) == full(dt), "opaque where the format has no alpha");
		else if (t == dt) CHECK(get_s(r, bc, k) == get_s(p->Data, bc, (unsigned long)k * sb + pos(sf, 4)), "the alpha of the pixel");
		else CHECK(get_s(r, bpc_of(dt), k) == get_s(r1, bpc_of(dt), 0), "the alpha of the pixel, converted");
		ifree(r);
	}
	CHECK(p->Format == sf && p->Type == t && p->Bpp == sb && p->Bpc == bc && p->Width == W_ && p->Height == H_ && p->Depth == D_, "image unchanged");
	CHECK(get_s(p->Data, bc, i) == old, "pixels unchanged");
	if (r1) ifree(r1);
	ilSetCurImage(NULL); fr_img(p);
}
static unsigned long want_alpha(ILenum t, ILdouble a) {
	if (a < 0) a = 0; if (a > 1) a = 1;
	switch (t) {
		case IL_FLOAT: return f_bits((ILfloat)a);
		case IL_DOUBLE: return d_bits(a);
		case IL_HALF: return ilFloatToHalf((ILuint)f_bits((ILfloat)a));
	}
	switch (bpc_of(t)) { case 1: return (ILubyte)(a * 255.0 + .5); case 2: return (ILushort)(a * 65535.0 + .5); default: return (ILuint)(a * 4294967295.0 + .5); }
}
// a constant alpha for every pixel; the colours stay
H(H_set) {
	ILenum sf = S_SF, t = S_TY, df; ILuint sb = bpp_of(sf), bc = bpc_of(t), k, db; ILimage *p = mk_img("data", sb, bc, sf, t); unsigned long n, old[4]; ILdouble a; ILboolean r; int c;
	n = (unsigned long)W_ * H_ * D_; ASSUME(n * 4 * bc <= 0x7fffffffUL);
	a = nd_rng("ak", 0, 4) ? nd_rng("a", 0, 1000) / 1000.0 : nd_f64("af"); ASSUME(a == a);
	k = nd_rng("k", 0, (ILuint)n - 1);
	for (c = 0; c < 4; c++) old[c] = c < (int)sb ? get_s(p->Data, bc, (unsigned long)k * sb + c) : 0;
	df = sf == IL_RGB ? IL_RGBA : sf == IL_BGR ? IL_BGRA : sf == IL_LUMINANCE ? IL_LUMINANCE_ALPHA : sf; db = bpp_of(df);
	STATE_OK; ilSetCurImage(p); ilDisable(IL_USE_KEY_COLOUR);
	r = ilSetAlpha(a);
	if (r) {
		COVER("set");
		CHECK(p->Format == df && p->Type == t && p->Bpp == db && p->Bpc == bc, "format has an alpha channel, type kept");
		CHECK(p->Width == W_ && p->Height == H_ && p->Depth == D_, "size kept");
		CHECK(p->Bps == W_ * db * bc && p->SizeOfPlane == p->Bps * H_ && p->SizeOfData == p->SizeOfPlane * D_, "sizes consistent");
		for (c = 0; c < (int)db - 1; c++) CHECK(get_s(p->Data, bc, (unsigned long)k * db + c) == old[c], "colour sample unchanged");
		CHECK(get_s(p->Data, bc, (unsigned long)k * db + db - 1) == want_alpha(t, a), "alpha is the given opacity");
	} else {
		CHECK(p->Format == sf && p->Bpp == sb, "on failure the format is kept");
		for (c = 0; c < 4; c++) if (c < (int)sb) CHECK(get_s(p->Data, bc, (unsigned long)k * sb + c) == old[c], "on failure the pixels are kept");
	}
	ilSetCurImage(NULL); fr_img(p);
}
