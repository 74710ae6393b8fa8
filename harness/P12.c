// P12: palette conversion and expansion preserve colours.
#include "fmt.h"
static const ILenum PT[6] = { IL_PAL_RGB24, IL_PAL_RGB32, IL_PAL_RGBA32, IL_PAL_BGR24, IL_PAL_BGR32, IL_PAL_BGRA32 };
#ifdef SP
#define S_SP SP
#else
#define S_SP nd_rng("sp", 0, 5)
#endif
#ifdef DP
#define S_DP DP
#else
#define S_DP nd_rng("dp", 0, 5)
#endif
#ifdef DF
#define S_DF FM[DF]
#else
#define S_DF FM[nd_rng("df", 0, NF - 1)]
#endif
#ifdef DTY
#define D_TY TY[DTY]
#else
#define D_TY TY[nd_rng("dty", 0, NT - 1)]
#endif
static ILuint pbpp(int p) { return p == 0 || p == 3 ? 3 : 4; }
static int palpha(int p) { return p == 2 || p == 5; }
static ILuint ppos(int p, int ch) { return ch < 3 && p >= 3 ? 2 - ch : ch; }
static ILubyte col(const ILubyte *pal, int p, ILuint k, int ch) { return ch == 3 && !palpha(p) ? 255 : pal[k * pbpp(p) + ppos(p, ch)]; }
// a palette of n whole entries, perhaps followed by the beginning of another one
static ILuint mk_pal(ILpal *q, int p, ILuint lim) {
	ILuint n = nd_rng("n", 1, lim), x = nd_rng("rest", 0, pbpp(p) - 1);
	q->PalType = PT[p]; q->PalSize = n * pbpp(p) + x; q->Palette = (ILubyte *)nd_buf("pal", q->PalSize);
	return n;
}
static void same_pal(const ILubyte *want, const ILpal *c, int d, ILuint n, ILuint k) {
	CHECK(c->PalType == PT[d] && c->PalSize == n * pbpp(d), "layout requested, same number of entries");
	CHECK(c->Palette[k * pbpp(d) + ppos(d, 0)] == want[0] && c->Palette[k * pbpp(d) + ppos(d, 1)] == want[1] && c->Palette[k * pbpp(d) + ppos(d, 2)] == want[2], "red, green and blue kept");
	if (palpha(d)) CHECK(c->Palette[k * pbpp(d) + 3] == want[3], "alpha kept, or opaque when new");
}
H(H_pal) {
	int s = S_SP, d = S_DP; ILpal q, o, *c; ILuint n, k, i; ILubyte want[4], old;
	FAULTS_OFF(); n = mk_pal(&q, s, VRT_BOUND(4, 300, 500000000)); o = q;
	k = nd_rng("k", 0, n - 1); i = nd_rng("i", 0, q.PalSize - 1); old = q.Palette[i];
	want[0] = col(q.Palette, s, k, 0); want[1] = col(q.Palette, s, k, 1); want[2] = col(q.Palette, s, k, 2); want[3] = col(q.Palette, s, k, 3);
	CLRERR; FAULTS(); c = iConvertPal(&q, PT[d]); FAULTS_OFF();
	CHECK(q.Palette == o.Palette && q.PalSize == o.PalSize && q.PalType == o.PalType && q.Palette[i] == old, "source unchanged");
	if (c) {
		COVER("converted"); CHECK(c->Palette != q.Palette, "a palette of its own");
		same_pal(want, c, d, n, k); ifree(c->Palette); ifree(c);
	}
	free(q.Palette);
}
// the palette of the current image
H(H_cur) {
	int s = S_SP, d = S_DP; ILpal o; ILimage *p; ILuint n, k, j; ILubyte want[4], pix; ILboolean r; ILenum bad;
	FAULTS_OFF(); p = mk_img("data", 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE); n = mk_pal(&p->Pal, s, VRT_BOUND(4, 300, 500000000)); o = p->Pal;
	k = nd_rng("k", 0, n - 1); j = nd_rng("j", 0, p->SizeOfData - 1); pix = p->Data[j];
	want[0] = col(o.Palette, s, k, 0); want[1] = col(o.Palette, s, k, 1); want[2] = col(o.Palette, s, k, 2); want[3] = col(o.Palette, s, k, 3);
	ilSetCurImage(p); CLRERR;
#ifdef BADPAL
	bad = nd_u32("bad"); ASSUME(bad < IL_PAL_RGB24 || bad > IL_PAL_BGRA32);
#else
	bad = nd_rng("isbad", 0, 9) == 0 ? nd_u32("bad") : PT[d];
	ASSUME(bad == PT[d] || bad < IL_PAL_RGB24 || bad > IL_PAL_BGRA32);
#endif
	FAULTS(); r = ilConvertPal(bad); FAULTS_OFF();
	CHECK(p->Data[j] == pix, "pixels unchanged");
	CHECK(!r || bad == PT[d], "no other layout accepted");
	if (r) { COVER("converted"); same_pal(want, &p->Pal, d, n, k); }
	else { COVER("refused"); CHECK(p->Pal.PalType == o.PalType && p->Pal.PalSize == o.PalSize && p->Pal.Palette == o.Palette && o.Palette[k * pbpp(s)] == (s >= 3 ? want[2] : want[0]), "unchanged on failure"); }
	ilSetCurImage(NULL); fr_img(p);
}
// copying a palette
H(H_copy) {
	int s = S_SP; ILpal q, c; ILuint i; ILubyte v; ILboolean r;
	FAULTS_OFF(); mk_pal(&q, s, VRT_BOUND(4, 300, 500000000)); i = nd_rng("i", 0, q.PalSize - 1); v = q.Palette[i];
	CLRERR; FAULTS(); r = iCopyPalette(&c, &q); FAULTS_OFF();
	CHECK(q.Palette[i] == v, "source unchanged");
	if (r) { COVER("copied"); CHECK(c.PalType == q.PalType && c.PalSize == q.PalSize && c.Palette != q.Palette && c.Palette[i] == v, "equal and of its own"); ifree(c.Palette); }
	free(q.Palette);
}
// expansion of an image: the channels of every pixel are those of its palette entry
H(H_img) {
	int s = S_SP, ch; ILenum df = S_DF, dt = D_TY; ILimage *p, o; ILuint n, j, db = bpp_of(df), px; ILubyte want[4], w8[4]; ILboolean r; ILubyte *one; (void)0;
	FAULTS_OFF(); p = mk_img("data", 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE); ASSUME((unsigned long)W_ * H_ * D_ * 32 <= 0x7fffffffUL);
	n = mk_pal(&p->Pal, s, VRT_BOUND(4, 256, 256)); o = *p;
	j = nd_rng("j", 0, p->SizeOfData - 1); HINT(j * db);
#ifndef VRT_DV
	if (nd_rng("in", 0, 7)) p->Data[j] = nd_rng("ix", 0, n - 1);
#endif
	px = p->Data[j];
	ASSUME(px < n);
	want[0] = col(p->Pal.Palette, s, px, 0); want[1] = col(p->Pal.Palette, s, px, 1); want[2] = col(p->Pal.Palette, s, px, 2); want[3] = col(p->Pal.Palette, s, px, 3);
	ilSetCurImage(p); STATE_OK; ilDisable(IL_USE_KEY_COLOUR); CLRERR;
	FAULTS(); r = ilConvertImage(df, dt); FAULTS_OFF();
	if (r) {
		COVER("expanded");
		CHECK(p->Format == df && p->Type == dt && p->Bpp == db && p->Bpc == bpc_of(dt) && p->SizeOfData == W_ * H_ * D_ * db * bpc_of(dt), "format and size");
		CHECK(p->Pal.Palette == NULL && p->Pal.PalSize == 0 && p->Pal.PalType == IL_PAL_NONE, "no palette any more");
		// the colour in unsigned bytes, in the channel order of the format
		w8[0] = w8[1] = w8[2] = w8[3] = 0;
		if (is_col(df)) { w8[pos(df, 0)] = want[0]; w8[pos(df, 1)] = want[1]; w8[pos(df, 2)] = want[2]; if (db == 4) w8[3] = want[3]; }
		else if (df == IL_ALPHA) w8[0] = want[3];
		else { w8[0] = (ILubyte)(want[0] * 0.212671f + want[1] * 0.715160f + want[2] * 0.072169f); w8[1] = want[3]; }
		if (dt == IL_UNSIGNED_BYTE) { for (ch = 0; ch < (int)db; ch++) CHECK(p->Data[j * db + ch] == w8[ch], "the colour of the palette entry"); }
		else {
			one = (ILubyte *)ilConvertBuffer(db, df, df, IL_UNSIGNED_BYTE, dt, NULL, w8);  // P10
			if (one) { for (ch = 0; ch < (int)db; ch++) CHECK(get_s(p->Data, bpc_of(dt), (unsigned long)j * db + ch) == get_s(one, bpc_of(dt), ch), "the colour of the palette entry in another type"); ifree(one); }
		}
	} else { COVER("failed"); CHECK(p->Data == o.Data && p->Data[j] == px && p->Pal.Palette == o.Pal.Palette && p->Format == IL_COLOUR_INDEX, "unchanged on failure"); }
	ilSetCurImage(NULL); fr_img(p);
}
// giving the current image a palette
H(H_reg) {
	int s = S_SP; ILpal q, o; ILimage *p; ILuint i; ILubyte v; ILuint which = nd_rng("which", 0, 1);
	FAULTS_OFF(); p = mk_img("data", 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
	if (nd_rng("had", 0, 1)) { p->Pal.PalType = IL_PAL_RGB24; p->Pal.PalSize = 6; p->Pal.Palette = (ILubyte *)ialloc(6); ASSUME(p->Pal.Palette != NULL); }
	o = p->Pal;
	mk_pal(&q, s, VRT_BOUND(4, 300, 500000000)); i = nd_rng("i", 0, q.PalSize - 1); v = q.Palette[i];
	ilSetCurImage(p); CLRERR; FAULTS();
	if (which) ilSetPal(&q); else ilRegisterPal(q.Palette, q.PalSize, q.PalType);
	FAULTS_OFF();
	CHECK(q.Palette[i] == v, "source unchanged");
	if (p->Pal.Palette == o.Palette) { COVER("failed"); CHECK(p->Pal.PalSize == o.PalSize && p->Pal.PalType == o.PalType, "unchanged when memory runs out"); }
	else { COVER("set"); CHECK(p->Pal.PalType == q.PalType && p->Pal.PalSize == q.PalSize && p->Pal.Palette != q.Palette && p->Pal.Palette[i] == v, "the palette given"); }
	ilSetCurImage(NULL); free(q.Palette); fr_img(p);
}
