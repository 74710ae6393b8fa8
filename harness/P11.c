// P11: converting an image leaves its geometry and identity intact.
#include "fmt.h"
#ifdef SF
#define S_SF FM[SF]
#else
#define S_SF FM[nd_rng("sf", 0, NF - 1)]
#endif
#ifdef TYP
#define S_TY TY[TYP]
#else
#define S_TY TY[nd_rng("ty", 0, NT - 1)]
#endif
#ifdef DF
#define S_DF FM[DF]
#else
#define S_DF FM[nd_rng("df", 0, NF - 1)]
#endif
#ifdef DTY
#define D_TY TY[DTY]
#else
#define D_TY TY[nd_rng("dty", 0, NT - 1)]
#endif
static ILimage *mk(ILuint i, ILenum f, ILenum t) {
	ILimage *p = mk_img(i ? "data2" : "data", bpp_of(f), bpc_of(t), f, t);
	ASSUME((unsigned long)W_ * H_ * D_ * 32 <= 0x7fffffffUL);  // also after the conversion
	p->Origin = nd_rng("org", 0, 1) ? IL_ORIGIN_UPPER_LEFT : IL_ORIGIN_LOWER_LEFT;
	p->Duration = nd_u32("dur"); p->OffX = nd_u32("ox"); p->OffY = nd_u32("oy"); p->CubeFlags = nd_u32("cf");
	return p;
}
static void same_id(ILimage *p, ILimage *o) {
	CHECK(p->Width == o->Width && p->Height == o->Height && p->Depth == o->Depth, "size kept");
	CHECK(p->Origin == o->Origin && p->Duration == o->Duration && p->OffX == o->OffX && p->OffY == o->OffY && p->CubeFlags == o->CubeFlags, "origin, position and duration kept");
	CHECK(p->Next == o->Next && p->Mipmaps == o->Mipmaps && p->Faces == o->Faces && p->Layers == o->Layers, "chains kept");
	CHECK(p->Profile == o->Profile && p->ProfileSize == o->ProfileSize, "profile kept");
}
static void consistent(ILimage *p, ILenum f, ILenum t) {
	CHECK(p->Format == f && p->Type == t && p->Bpp == bpp_of(f) && p->Bpc == bpc_of(t), "format, type, channels and sample size agree");
	CHECK(p->Bps == p->Width * p->Bpp * p->Bpc && p->SizeOfPlane == p->Bps * p->Height && p->SizeOfData == p->SizeOfPlane * p->Depth, "sizes agree");
}
static ILboolean not_offered(ILenum sf, ILenum df) { return sf == IL_ALPHA && df == IL_LUMINANCE; }
#ifdef WHICH
#define WHICH_ WHICH
#else
#define WHICH_ nd_rng("which", 0, 1)
#endif
#ifdef CHAIN
#define CHN CHAIN
#else
#define CHN nd_rng("chain", 0, 1)
#endif
H(H_conv) {
	ILenum sf = S_SF, t = S_TY, df = S_DF, dt = D_TY, sf2, t2; ILimage *p0, *p1 = NULL, o0, o1, *q, *m; ILuint k, c, j, n, two = CHN, w; ILubyte one[32], *r1 = NULL; ILboolean r; unsigned long old = 0;
	FAULTS_OFF();
	p0 = mk(0, sf, t); sf2 = sf; t2 = t;
	if (two) {
#ifdef SAME2
		sf2 = df; t2 = dt;
#elif defined(SF2)
		sf2 = FM[SF2]; t2 = TY[TYP2];
#elif !defined(SF)
		sf2 = S_SF; t2 = S_TY;
#endif
		p1 = mk(1, sf2, t2); p0->Next = p1;
	}
	// something hangs on the image
	m = mk_img0("mip", 1, 1, 1, bpp_of(sf), bpc_of(t), sf, t); p0->Mipmaps = m;
	w = two ? WHICH_ : 0; if (w) q = p1; else q = p0;
	o0 = *p0; if (two) o1 = *p1;
	n = q->Width * q->Height * q->Depth; k = nd_rng("k", 0, n - 1); c = nd_rng("c", 0, bpp_of(df) - 1);
	j = nd_rng("j", 0, n * q->Bpp - 1); old = get_s(q->Data, q->Bpc, j);
#ifndef NOVAL
	for (j = 0; j < q->Bpp; j++) put_s(one, q->Bpc, j, get_s(q->Data, q->Bpc, (unsigned long)k * q->Bpp + j));
	if (!not_offered(q->Format, df)) { r1 = (ILubyte *)ilConvertBuffer(q->Bpp * q->Bpc, q->Format, df, q->Type, dt, NULL, one); ASSUME(r1 != NULL); }
	j = nd_rng("j2", 0, n * q->Bpp - 1); old = get_s(q->Data, q->Bpc, j);
#endif
	STATE_OK; CLRERR; ilSetCurImage(p0); ilDisable(IL_USE_KEY_COLOUR);
	FAULTS();
	r = ilConvertImage(df, dt);
	FAULTS_OFF();
	same_id(p0, &o0); if (two) same_id(p1, &o1);
	CHECK(iCurImage == p0 && m->Format == sf && m->Type == t, "the binding and the sub-images are untouched");
	if (r) {
		COVER("converted");
		consistent(p0, df, dt); if (two) consistent(p1, df, dt);
		CHECK(!not_offered(sf, df) , "alpha to luminance is not offered");
#ifndef NOVAL
		CHECK(get_s(q->Data, bpc_of(dt), (unsigned long)k * bpp_of(df) + c) == get_s(r1, bpc_of(dt), c), "every pixel is converted");
#endif
		get_s(q->Data, bpc_of(dt), (unsigned long)n * bpp_of(df) - 1);
	} else {
		consistent(p0, sf, t); if (two) consistent(p1, sf2, t2);
		CHECK(p0->Data == o0.Data && (!two || p1->Data == o1.Data), "after a failure the buffers are the old ones");
		CHECK(get_s(q->Data, q->Bpc, j) == old, "after a failure the pixels are the old ones");
	}
	ilSetCurImage(NULL); if (r1) ifree(r1);
	free(m->Data); free(m); if (two) fr_img(p1); fr_img(p0);
}
#if !defined(VRT_DV) && !defined(VRT_CBMC)
// to colour index (quantization): geometry, and every index has an entry
H(H_quant) {
	ILenum sf = S_SF, t = S_TY; ILimage *p, o; ILuint k; ILboolean r; ILubyte v0;
	FAULTS_OFF(); ilInit(); ilSetInteger(IL_QUANTIZATION_MODE, nd_rng("qm", 0, 1) ? IL_WU_QUANT : IL_NEU_QUANT); 
	p = mk(0, sf, t); o = *p; v0 = p->Data[0];
	ilSetCurImage(p);
	r = ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE);
	same_id(p, &o);
	if (r) {
		COVER("quantized");
		CHECK(p->Format == IL_COLOUR_INDEX && p->Type == IL_UNSIGNED_BYTE && p->Bpp == 1 && p->Bpc == 1 && p->Bps == p->Width && p->SizeOfPlane == p->Bps * p->Height && p->SizeOfData == p->SizeOfPlane * p->Depth, "layout");
		CHECK(p->Pal.Palette != NULL && ilGetBppPal(p->Pal.PalType) != 0, "there is a palette");
		for (k = 0; k < p->SizeOfData; k++) CHECK((p->Data[k] + 1u) * ilGetBppPal(p->Pal.PalType) <= p->Pal.PalSize, "every index has an entry");
	} else CHECK(p->Data == o.Data && p->Data[0] == v0 && p->Format == sf && p->Type == t && p->SizeOfData == o.SizeOfData, "unchanged on failure");
	ilSetCurImage(NULL); fr_img(p);
}
#endif
// unknown formats and types are refused
#if !defined(VRT_DV)
static int known_f(ILenum f) { return f == IL_COLOUR_INDEX || f == IL_RGB || f == IL_RGBA || f == IL_BGR || f == IL_BGRA || f == IL_LUMINANCE || f == IL_LUMINANCE_ALPHA || f == IL_ALPHA; }
#define KNOWN_F(f) known_f(f)
#define BAD_F (nd_rng("dfk", 0, 1) ? nd_u32("df") : nd_rng("dfi", 0, NF) == NF ? IL_COLOUR_INDEX : FM[nd_rng("dfj", 0, NF - 1)])
#define BAD_T (nd_rng("dtk", 0, 1) ? nd_u32("dt") : TY[nd_rng("dti", 0, NT - 1)])
#elif defined(DF)
#define KNOWN_F(f) 1
#define BAD_F FM[DF]
#define BAD_T nd_u32("dt")
#elif defined(DFCI)
#define KNOWN_F(f) 1
#define BAD_F IL_COLOUR_INDEX
#define BAD_T nd_u32("dt")
#else
#define KNOWN_F(f) 0
static ILenum bad_f(void) { ILenum f = nd_u32("df"); ASSUME(f != IL_COLOUR_INDEX && f != IL_RGB && f != IL_RGBA && f != IL_BGR && f != IL_BGRA && f != IL_LUMINANCE && f != IL_LUMINANCE_ALPHA && f != IL_ALPHA); return f; }
#define BAD_F bad_f()
#define BAD_T TY[DTY]
#endif
H(H_bad) {
	ILenum sf = S_SF, t = S_TY, df = BAD_F, dt = BAD_T; ILimage *p, o;  ILboolean r; ILuint j; unsigned long old;
	FAULTS_OFF();
	p = mk(0, sf, t); o = *p; j = nd_rng("j", 0, W_ * H_ * D_ * p->Bpp - 1); old = get_s(p->Data, p->Bpc, j);
	if (KNOWN_F(df)) { ASSUME(dt != IL_BYTE && dt != IL_UNSIGNED_BYTE && dt != IL_SHORT && dt != IL_UNSIGNED_SHORT && dt != IL_INT && dt != IL_UNSIGNED_INT && dt != IL_FLOAT && dt != IL_DOUBLE && dt != IL_HALF); }
	STATE_OK; CLRERR; ilSetCurImage(p); ilDisable(IL_USE_KEY_COLOUR);
	r = ilConvertImage(df, dt);
	COVER("refused");
	CHECK(!r, "refused");
	same_id(p, &o); consistent(p, sf, t);
	CHECK(p->Data == o.Data && get_s(p->Data, p->Bpc, j) == old, "unchanged");
	ilSetCurImage(NULL); fr_img(p);
}
