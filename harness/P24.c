// P24: enlarging the canvas.
#include "fmt.h"
#ifdef SF
#define S_SF FM[SF]
#else
#define S_SF FM[nd_rng("sf", 0, NF - 1)]
#endif
#ifdef TYP
#define S_TY TY[TYP]
#else
#define S_TY TY[nd_rng("ty", 0, NT - 1)]
#endif
static const ILenum PL[5] = { ILU_LOWER_LEFT, ILU_LOWER_RIGHT, ILU_UPPER_LEFT, ILU_UPPER_RIGHT, ILU_CENTER };
#ifdef PLC
#define S_PL PLC
#else
#define S_PL nd_rng("pl", 0, 4)
#endif
#ifdef ORG
#define S_ORG ORG
#else
#define S_ORG nd_rng("org", 0, 1)
#endif
#ifdef VRT_DV
#define SIZ(n, nb, base) nd_u32(n)
#define BIG 0x7fffffffu
#define SETCOL ((void)0)
#else
#define SIZ(n, nb, base) (nd_rng("k" n, 0, 19) ? (base) + nd_irng(n, -1, nb) : nd_u32(n))
#define SETCOL ilClearColour(nd_rng("cr", 0, 255) / 255.0f, nd_rng("cg", 0, 255) / 255.0f, nd_rng("cb", 0, 255) / 255.0f, nd_rng("ca", 0, 255) / 255.0f)
#endif
#ifndef DIMS
#define DIMS 7
#endif
H(H_canvas) {
	ILenum sf = S_SF, t = S_TY; ILuint bc = bpc_of(t), px = bpp_of(sf) * bc, w, h, d, nw, nh, nd, x, y, z, ox, oy, ax, ay, s, pl = S_PL, up = S_ORG; unsigned long i, j, old; ILimage *p; ILubyte col[32], *data; ILboolean r; ILenum org = up ? IL_ORIGIN_UPPER_LEFT : IL_ORIGIN_LOWER_LEFT;
#ifdef VRT_DV
	w = DIMS & 1 ? nd_rng("w", 1, BIG) : 1; h = DIMS & 2 ? nd_rng("h", 1, BIG) : 1; d = DIMS & 4 ? nd_rng("d", 1, BIG) : 1;
#else
	w = nd_rng("w", 1, 9); h = nd_rng("h", 1, 6); d = nd_rng("d", 1, 3);
#endif
	W_ = w; H_ = h; D_ = d; small_enough(w, h, d, px);
	p = mk_img0("data", w, h, d, bpp_of(sf), bc, sf, t); p->Origin = org; p->Duration = 77; data = p->Data;
	nw = SIZ("nw", 9, w); nh = DIMS & 2 ? SIZ("nh", 6, h) : 1; nd = DIMS & 4 ? SIZ("nd", 3, d) : 1;
	SETCOL; iluImageParameter(ILU_PLACEMENT, PL[pl]);
	ilSetCurImage(p); CLRERR; FAULTS();
	s = nd_rng("s", 0, bpp_of(sf) - 1);
	if (nw < w || nh < h || nd < d) {
		i = nd_u32("i"); ASSUME(i < p->SizeOfData); old = p->Data[i];
		r = iluEnlargeCanvas(nw, nh, nd); FAULTS_OFF();
		COVER("refused");
		CHECK(r == IL_FALSE && ilGetError() != IL_NO_ERROR, "a smaller target is refused with an error");
		CHECK(p->Width == w && p->Height == h && p->Depth == d && p->Data == data && p->Data[i] == old && p->Format == sf && p->Type == t && p->Origin == org, "and leaves the image");
	} else {
		ILuint ih, iw, id; unsigned long t1, t2, t3;
		HINT(1);
		t1 = (unsigned long)nw * px; t2 = 0; t3 = 0;
		if (t1 <= 0x7fffffffUL) { t2 = t1 * nh; if (t2 <= 0x7fffffffUL) t3 = t2 * nd; }
#ifdef VRT_DV
		ASSUME(t1 <= 0x7fffffffUL); ASSUME(t2 <= 0x7fffffffUL); ASSUME(t3 <= 0x7fffffffUL);
#else
		if (!t3 || t3 > 0x7fffffffUL || t3 <= 0x100000UL) ; else { ilResetMemory(); ilSetCurImage(NULL); fr_img(p); return; }   // large canvases take long
#endif
		ilGetClear(col, sf, t);
		// a pixel of the new image, and the one of the old image that lands there
		x = nd_u32("x"); y = nd_u32("y"); z = nd_u32("z");
#if !defined(VRT_DV)
		x %= nw; y %= nh; z %= nd;
#endif
		ASSUME(x < nw && y < nh && z < nd);
		ax = pl == 1 || pl == 3 ? nw - w : pl == 4 ? (nw - w) / 2 : 0;
		ay = pl == 4 ? (nh - h) / 2 : (pl >= 2) != (up != 0) ? nh - h : 0;
		iw = nd_rng("iw", 0, w - 1); ih = nd_rng("ih", 0, h - 1); id = nd_rng("id", 0, d - 1);
		j = (((unsigned long)z * nh + y) * nw + x) * bpp_of(sf) + s;
		i = (((unsigned long)id * h + ih) * w + iw) * bpp_of(sf) + s; old = get_s(p->Data, bc, i);
		r = iluEnlargeCanvas(nw, nh, nd);
		FAULTS_OFF();
#ifndef VRT_DV
		if (!t3) CHECK(!r, "a canvas whose size cannot be represented is refused");
#endif
		if (r) {
			CHECK(p->Width == nw && p->Height == nh && p->Depth == nd && p->Bps == nw * px && p->SizeOfPlane == p->Bps * nh && p->SizeOfData == p->SizeOfPlane * nd, "exactly the requested size");
			CHECK(p->Format == sf && p->Type == t && p->Bpp == bpp_of(sf) && p->Bpc == bc && p->Origin == org && p->Duration == 77, "same format, type and origin");
			if (x >= ax && (unsigned long)x < (unsigned long)ax + w && y >= ay && (unsigned long)y < (unsigned long)ay + h && z < d) {
				COVER("old");
				ASSUME((unsigned long)ax + iw == x); ASSUME((unsigned long)ay + ih == y); ASSUME(id == z);
				CHECK(get_s(p->Data, bc, j) == old, "the old image is unchanged at the selected place");
			} else {
				COVER("clear");
				if (z >= d) { HINT(2); CHECK(get_s(p->Data, bc, j) == get_s(col, bc, s), "every other pixel is the clear colour"); }
				else if (y < ay) { HINT(3); CHECK(get_s(p->Data, bc, j) == get_s(col, bc, s), "every other pixel is the clear colour"); }
				else if ((unsigned long)y >= (unsigned long)ay + h) { HINT(4); CHECK(get_s(p->Data, bc, j) == get_s(col, bc, s), "every other pixel is the clear colour"); }
				else { HINT(5); CHECK(get_s(p->Data, bc, j) == get_s(col, bc, s), "every other pixel is the clear colour"); }
			}
		} else {
#ifndef VRT_DV
			CHECK(ilGetError() != IL_NO_ERROR, "a failure is an error");
#endif
			CHECK(p->Width == w && p->Height == h && p->Depth == d && p->Data == data && get_s(p->Data, bc, i) == old, "and leaves the image");
		}
	}
	ilSetCurImage(NULL); fr_img(p);
}
#if !defined(VRT_DV) && !defined(VRT_CBMC)
// colour-index images keep their palette, the other pixels are index 0
H(H_index) {
	ILuint w = nd_rng("w", 1, 6), h = nd_rng("h", 1, 5), nw = w + nd_rng("cw", 0, 5), nh = h + nd_rng("ch", 0, 4), pl = S_PL, up = S_ORG, x, y, ax, ay; ILimage *p; ILubyte pal[12], *old;
	ilResetMemory(); p = mk_img0("data", w, h, 1, 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE); p->Pal.PalType = IL_PAL_RGB24; p->Pal.PalSize = 12; p->Pal.Palette = (ILubyte *)nd_buf("pal", 12); memcpy(pal, p->Pal.Palette, 12); p->Origin = up ? IL_ORIGIN_UPPER_LEFT : IL_ORIGIN_LOWER_LEFT;
	old = (ILubyte *)malloc(w * h); memcpy(old, p->Data, w * h); iluImageParameter(ILU_PLACEMENT, PL[pl]);
	ilSetCurImage(p); CLRERR; COVER("index");
	ax = pl == 1 || pl == 3 ? nw - w : pl == 4 ? (nw - w) / 2 : 0; ay = pl == 4 ? (nh - h) / 2 : (pl >= 2) != (up != 0) ? nh - h : 0;
	CHECK(iluEnlargeCanvas(nw, nh, 1), "enlarged");
	CHECK(p->Format == IL_COLOUR_INDEX && p->Pal.PalType == IL_PAL_RGB24 && p->Pal.PalSize == 12 && p->Pal.Palette && !memcmp(p->Pal.Palette, pal, 12), "same palette");
	for (y = 0; y < nh; y++) for (x = 0; x < nw; x++) CHECK(p->Data[y * nw + x] == (x >= ax && x < ax + w && y >= ay && y < ay + h ? old[(y - ay) * w + x - ax] : 0), "every index");
	free(old); ilSetCurImage(NULL); fr_img(p);
}
#endif
