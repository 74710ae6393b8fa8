// P23: cropping.
#include "fmt.h"
#ifdef SF
#define S_SF FM[SF]
#else
#define S_SF FM[nd_rng("sf", 0, NF - 1)]
#endif
#ifdef TYP
#define S_TY TY[TYP]
#else
#define S_TY TY[nd_rng("ty", 0, NT - 1)]
#endif
#ifndef IL_HARD
extern ILimage *iluCurImage;
#endif
static int inside(ILuint off, ILuint size, ILuint n) { return (unsigned long)off + size <= n; }
// one image, any window: a window inside is cut out, any other is refused
static void crop(ILuint xo, ILuint yo, ILuint zo, ILuint w, ILuint h, ILuint d, ILimage *p, ILenum sf, ILenum t) {
	ILuint px = bpp_of(sf) * bpc_of(t), x, y, z, s, z0, nd, ix, iy, iz; ILboolean r; unsigned long old, i, j; ILuint want; ILenum org = nd_rng("org", 0, 1) ? IL_ORIGIN_UPPER_LEFT : IL_ORIGIN_LOWER_LEFT; ILubyte *data = p->Data;
	p->Origin = org; p->Duration = 77;
	z0 = zo <= 1 ? 0 : zo; nd = zo <= 1 ? D_ : d;   // up to a z offset of 1 every slice is kept
	// a pixel of the window
	x = nd_u32("x"); y = nd_u32("y"); z = nd_u32("z"); s = nd_rng("s", 0, px - 1);
#if !defined(VRT_DV)
	if (w) x %= w; if (h) y %= h; if (nd) z %= nd;
#endif
	ix = nd_rng("ix", 0, W_ - 1); iy = nd_rng("iy", 0, H_ - 1); iz = nd_rng("iz", 0, D_ - 1);
	i = (((unsigned long)iz * H_ + iy) * W_ + ix) * px + s; old = p->Data[i];
	ilSetCurImage(p); CLRERR; FAULTS();
	HINT(1);
	if (inside(xo, w, W_) && inside(yo, h, H_) && inside(z0, nd, D_) && w && h && nd) {
		ASSUME(x < w && y < h && z < nd);
		small_enough(w, h, nd, px);   // follows from the image being small enough
		ASSUME(ix == xo + x); ASSUME(iy == yo + y); ASSUME(iz == z0 + z);
		j = (((unsigned long)z * h + y) * w + x) * px + s; want = (ILuint)old;
		r = iluCrop(xo, yo, zo, w, h, d);
		FAULTS_OFF();
		if (r) {
			COVER("cropped");
			CHECK(p->Width == w && p->Height == h && p->Depth == nd && p->Bps == w * px && p->SizeOfPlane == p->Bps * h && p->SizeOfData == p->SizeOfPlane * nd, "exactly the window's size");
			CHECK(p->Format == sf && p->Type == t && p->Bpp == bpp_of(sf) && p->Bpc == bpc_of(t) && p->Origin == org && p->Duration == 77, "same format, type and origin");
			CHECK(p->Data[j] == want, "every pixel is the one at the offset position");
		} else {
#ifndef VRT_DV
			CHECK(ilGetError() != IL_NO_ERROR, "a failure is an error");
#endif
			CHECK(p->Width == W_ && p->Height == H_ && p->Depth == D_ && p->Data == data && p->Data[i] == old, "and leaves the image");
		}
	} else {
		HINT(2);
		r = iluCrop(xo, yo, zo, w, h, d);
		FAULTS_OFF();
		COVER("refused");
		CHECK(r == IL_FALSE && ilGetError() != IL_NO_ERROR, "a window that is not inside is refused with an error");
		CHECK(p->Width == W_ && p->Height == H_ && p->Depth == D_ && p->Data == data && p->Data[i] == old && p->Format == sf && p->Type == t && p->Origin == org, "and leaves the image");
	}
	ilSetCurImage(NULL); fr_img(p);
}
#ifdef VRT_DV
#define OFF(n, nb) nd_u32(n)
#define SIZ(n, nb) nd_u32(n)
#define BIG 0x7fffffffu
#else
#define OFF(n, nb) (nd_rng("k" n, 0, 19) ? nd_rng(n, 0, nb) : nd_rng("m" n, 0, 1) ? 0xffffffffu - nd_rng(n, 0, nb) : nd_u32(n))
#define SIZ(n, nb) OFF(n, nb)
#endif
static ILimage *src(ILenum sf, ILenum t, int dims) {
	ILuint w, h, d;
#ifdef VRT_DV
	w = dims & 1 ? nd_rng("w", 1, BIG) : 1; h = dims & 2 ? nd_rng("h", 1, BIG) : 1; d = dims & 4 ? nd_rng("d", 1, BIG) : 1;
#else
	w = nd_rng("w", 1, 12); h = nd_rng("h", 1, 6); d = nd_rng("d", 1, 4);
#endif
	W_ = w; H_ = h; D_ = d; small_enough(w, h, d, bpp_of(sf) * bpc_of(t));
	return mk_img0("data", w, h, d, bpp_of(sf), bpc_of(t), sf, t);
}
#ifndef DIMS
#define DIMS 7
#endif
#ifdef ZO
#define S_ZO ZO
#elif defined(ZHI)
#define S_ZO (2 + nd_rng("zo", 0, 0xfffffff0u))
#else
#define S_ZO OFF("zo", 5)
#endif
H(H_crop) { ILenum sf = S_SF, t = S_TY; ILimage *p = src(sf, t, DIMS); ILuint xo = OFF("xo", 12), yo = OFF("yo", 6), zo = S_ZO, w = SIZ("cw", 12), h = SIZ("ch", 6), d = SIZ("cd", 4); crop(xo, yo, zo, w, h, d, p, sf, t); }
#if !defined(VRT_DV) && !defined(VRT_CBMC)
// colour-index images keep their palette
H(H_index) {
	ILuint w = nd_rng("w", 1, 9), h = nd_rng("h", 1, 6), cw = nd_rng("cw", 1, 9), chh = nd_rng("ch", 1, 6), xo = nd_rng("xo", 0, 8), yo = nd_rng("yo", 0, 5), x, y, k; ILimage *p; ILubyte pal[12], *old;
	ilResetMemory(); p = mk_img0("data", w, h, 1, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE); p->Pal.PalType = IL_PAL_RGB24; p->Pal.PalSize = 12; p->Pal.Palette = (ILubyte *)nd_buf("pal", 12); memcpy(pal, p->Pal.Palette, 12);
	old = (ILubyte *)malloc(w * h); memcpy(old, p->Data, w * h);
	ilSetCurImage(p); CLRERR;
	if (inside(xo, cw, w) && inside(yo, chh, h)) {
		COVER("index");
		CHECK(iluCrop(xo, yo, 0, cw, chh, 1), "cropped");
		CHECK(p->Format == IL_COLOUR_INDEX && p->Pal.PalType == IL_PAL_RGB24 && p->Pal.PalSize == 12 && p->Pal.Palette && !memcmp(p->Pal.Palette, pal, 12), "same palette");
		for (y = 0; y < chh; y++) for (x = 0; x < cw; x++) CHECK(p->Data[y * cw + x] == old[(y + yo) * w + x + xo], "every index");
	} else { CHECK(!iluCrop(xo, yo, 0, cw, chh, 1) && ilGetError() != IL_NO_ERROR, "refused"); for (k = 0; k < w * h; k++) CHECK(p->Data[k] == old[k], "unchanged"); }
	free(old); ilSetCurImage(NULL); fr_img(p);
}
#endif
