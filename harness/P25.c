// P25: negation, alpha inversion and colour swapping.
#include "fmt.h"
#ifdef SF
#define S_SF FM[SF]
#else
#define S_SF FM[nd_rng("sf", 0, NF - 1)]
#endif
#ifdef TYP
#define S_TY TY[TYP]
#else
#define S_TY TY[nd_rng("ty", 0, NT - 1)]
#endif
#ifdef VRT_DV
extern ILpointi *RegionPointsi; extern ILpointf *RegionPointsf; extern ILuint PointNum;
#define NOREGION do { RegionPointsi = NULL; RegionPointsf = NULL; PointNum = 0; } while (0)
#else
#define NOREGION ((void)0)
#endif
static unsigned long ones(ILuint bc) { return bc == 1 ? 0xff : bc == 2 ? 0xffff : bc == 4 ? 0xffffffffUL : ~0UL; }
#define SAME_DESC(f) CHECK(p->Format == (f) && p->Type == t && p->Bpp == sb && p->Bpc == bc && p->Width == W_ && p->Height == H_ && p->Depth == D_ && p->Bps == W_ * sb * bc && p->SizeOfPlane == p->Bps * H_ && p->SizeOfData == p->SizeOfPlane * D_ && p->Origin == IL_ORIGIN_LOWER_LEFT && p->Pal.Palette == NULL, "image description unchanged")
static int integral(ILenum t) { return t != IL_FLOAT && t != IL_DOUBLE && t != IL_HALF; }
// every sample complemented; twice is the identity
H(H_neg) {
	ILenum sf = S_SF, t = S_TY; ILuint sb = bpp_of(sf), bc = bpc_of(t), c, k; ILimage *p; unsigned long n, i, old; ILboolean r;
	ASSUME(integral(t)); p = mk_img("data", sb, bc, sf, t); n = (unsigned long)W_ * H_ * D_;
	k = nd_rng("k", 0, (ILuint)n - 1); c = nd_rng("c", 0, sb - 1); i = (unsigned long)k * sb + c; old = get_s(p->Data, bc, i);
	NOREGION; ilSetCurImage(p); r = iluNegative();
	COVER("negated");
	CHECK(r, "done"); CHECK(get_s(p->Data, bc, i) == (old ^ ones(bc)), "every sample is the complement");
#ifndef VRT_DV
	CHECK(iluNegative() && get_s(p->Data, bc, i) == old, "negating again restores it");
#endif
	SAME_DESC(sf); ilSetCurImage(NULL); fr_img(p);
}
// a palette: every byte of every entry, and no index
H(H_negpal) {
	ILimage *p = mk_img("data", 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE); ILuint k, i; ILubyte old, ix; ILboolean r;
	p->Pal.PalType = IL_PAL_RGB24 + nd_rng("pt", 0, 5); p->Pal.PalSize = nd_rng("np", 1, VRT_BOUND(9, 1024, 0x7fffffffu)); p->Pal.Palette = (ILubyte *)nd_buf("pal", p->Pal.PalSize);
	k = nd_rng("k", 0, p->Pal.PalSize - 1); old = p->Pal.Palette[k]; i = nd_rng("i", 0, p->SizeOfData - 1); ix = p->Data[i];
	NOREGION; ilSetCurImage(p); r = iluNegative();
	COVER("negated");
	CHECK(r, "done"); CHECK(p->Pal.Palette[k] == (ILubyte)~old, "every byte of the palette is the complement");
	CHECK(p->Data[i] == ix, "no index changes");
	CHECK(p->Format == IL_COLOUR_INDEX && p->SizeOfData == W_ * H_ * D_, "image description unchanged");
	ilSetCurImage(NULL); fr_img(p);
}
// alpha complemented, colours kept; formats without alpha are refused
H(H_alpha) {
	ILenum sf = S_SF, t = S_TY; ILuint sb = bpp_of(sf), bc = bpc_of(t), c, k; ILimage *p; unsigned long n, i, old, now; ILboolean r; int al = has_alpha(sf) && sf != IL_ALPHA;
	ASSUME(t != IL_HALF); p = mk_img("data", sb, bc, sf, t); n = (unsigned long)W_ * H_ * D_;
	k = nd_rng("k", 0, (ILuint)n - 1); c = nd_rng("c", 0, sb - 1); i = (unsigned long)k * sb + c; old = get_s(p->Data, bc, i);
	ilSetCurImage(p); CLRERR; r = iluInvertAlpha(); now = get_s(p->Data, bc, i);
	if (!al) { COVER("refused"); CHECK(!r && !NOERR, "a format without alpha is refused"); CHECK(now == old, "and nothing changes"); }
	else {
		CHECK(r, "done");
		if (c != sb - 1) { COVER("colour"); CHECK(now == old, "colour samples unchanged"); }
		else if (integral(t)) { COVER("alpha"); CHECK(now == (old ^ ones(bc)), "every alpha is the complement"); }
		else {
			COVER("alpha");
#ifndef VRT_DV
			if (t == IL_FLOAT) { ILfloat v = bits_f(old), w = bits_f(now); CHECK(v != v ? w != w : w == 1.0f - v, "every alpha is the complement"); }
			else { ILdouble v = bits_d(old), w = bits_d(now); CHECK(v != v ? w != w : w == 1.0 - v, "every alpha is the complement"); }
#endif
		}
	}
	SAME_DESC(sf); ilSetCurImage(NULL); fr_img(p);
}
// red and blue exchanged
H(H_swap) {
	ILenum sf = S_SF, t = S_TY, df = sf == IL_RGB ? IL_BGR : sf == IL_RGBA ? IL_BGRA : sf == IL_BGR ? IL_RGB : sf == IL_BGRA ? IL_RGBA : 0; ILuint sb = bpp_of(sf), bc = bpc_of(t), c, k; ILimage *p; unsigned long n, j, old; ILboolean r;
	FAULTS_OFF(); p = mk_img("data", sb, bc, sf, t); n = (unsigned long)W_ * H_ * D_;
	k = nd_rng("k", 0, (ILuint)n - 1); c = nd_rng("c", 0, sb - 1);
	j = df ? (unsigned long)k * sb + (c < 3 ? 2 - c : c) : (unsigned long)k * sb + c; old = get_s(p->Data, bc, (unsigned long)k * sb + c);
	ilSetCurImage(p); CLRERR; FAULTS(); r = iluSwapColours(); FAULTS_OFF();
	if (r) {
		COVER("swapped"); CHECK(df != 0, "a format without colours is refused");
		CHECK(get_s(p->Data, bc, j) == old, "red and blue exchanged, alpha kept, in every pixel"); SAME_DESC(df);
	} else {
		COVER("refused");
		if (!df) CHECK(!NOERR, "an error");
		CHECK(get_s(p->Data, bc, (unsigned long)k * sb + c) == old, "the image is unchanged"); SAME_DESC(sf);
	}
	ilSetCurImage(NULL); fr_img(p);
}
// or in every palette entry
static const ILenum PT[6] = { IL_PAL_RGB24, IL_PAL_RGB32, IL_PAL_RGBA32, IL_PAL_BGR24, IL_PAL_BGR32, IL_PAL_BGRA32 };
#ifdef SP
#define S_SP SP
#else
#define S_SP nd_rng("sp", 0, 5)
#endif
H(H_swappal) {
	int s = S_SP, b = s == 0 || s == 3 ? 3 : 4; ILimage *p; ILuint n, k, c, i; ILubyte old, ix; ILboolean r;
	FAULTS_OFF(); p = mk_img("data", 1, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE); n = nd_rng("n", 1, VRT_BOUND(4, 300, 500000000));
	p->Pal.PalType = PT[s]; p->Pal.PalSize = n * b; p->Pal.Palette = (ILubyte *)nd_buf("pal", n * b);
	k = nd_rng("k", 0, n - 1); c = nd_rng("c", 0, b - 1); old = p->Pal.Palette[k * b + c]; i = nd_rng("i", 0, p->SizeOfData - 1); ix = p->Data[i];
	ilSetCurImage(p); CLRERR; FAULTS(); r = iluSwapColours(); FAULTS_OFF();
	if (r) {
		COVER("swapped"); CHECK(p->Pal.PalType == PT[(s + 3) % 6] && p->Pal.PalSize == n * b, "the other order, as many entries");
		if (c < 3) CHECK(p->Pal.Palette[k * b + 2 - c] == old, "red and blue exchanged in every entry");
		else if (s == 2 || s == 5) CHECK(p->Pal.Palette[k * b + c] == old, "alpha kept");
	} else CHECK(p->Pal.PalType == PT[s] && p->Pal.PalSize == n * b && p->Pal.Palette[k * b + c] == old, "unchanged");
	CHECK(p->Data[i] == ix, "no index changes");
	ilSetCurImage(NULL); fr_img(p);
}
