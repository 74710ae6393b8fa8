// P01: image layout is always consistent with its buffer.
#include "fmt.h"
#ifdef TYP
#define S_TY TY[TYP]
#else
#define S_TY TY[nd_rng("ty", 0, NT - 1)]
#endif
// the allocation model of the VC generator reports no error of its own
#ifdef VRT_DV
#define REPORTED(ok) ((ok) || !NOERR)
#else
#define REPORTED(ok) (!NOERR)
#endif
static ILuint Wn, Hn, Dn; static unsigned long Tot;
static ILuint dim(const char *n) {
#if defined(VRT_DV) || defined(VRT_CBMC)
	return nd_u32(n);
#else
	return nd_rng("dk", 0, 5) ? nd_rng(n, 0, 40) : nd_rng("dh", 0, 2) ? nd_u32(n) : (1u << nd_rng("ds", 0, 31)) + nd_irng("dd", -1, 1);
#endif
}
// chooses the sizes; 1 if the total size is representable
static int shape(ILuint bpp, ILuint bpc) {
	unsigned long a, b, c;
	Wn = dim("w"); Hn = dim("h"); Dn = dim("d");
	a = (unsigned long)(Wn ? Wn : 1) * (bpp * bpc); if (a > 0xffffffffUL) return 0;
	b = a * (Hn ? Hn : 1); if (b > 0xffffffffUL) return 0;
	c = b * (Dn ? Dn : 1); if (c > 0xffffffffUL) return 0;
	Tot = c; return 1;
}
#define W1 (Wn ? Wn : 1)
#define H1 (Hn ? Hn : 1)
#define D1 (Dn ? Dn : 1)
static void layout(ILimage *p, ILuint bpp, ILuint bpc) {
	CHECK(p->Width == W1 && p->Height == H1 && p->Depth == D1, "the requested size");
	CHECK(p->Bpp == bpp && p->Bpc == bpc, "the requested channels and sample size");
	CHECK(p->Bps == (unsigned long)W1 * bpp * bpc, "bytes per row");
	CHECK(p->SizeOfPlane == (unsigned long)p->Bps * H1, "bytes per slice");
	CHECK(p->SizeOfData == Tot, "total bytes");
	CHECK(p->Data != NULL, "there is a buffer");
	p->Data[Tot - 1] = 1;  // ... of that size
	p->Data[nd_rng("at", 0, (ILuint)Tot - 1)] = 2;
}
static ILubyte *src_of(int ok) {
	if (!ok || Tot > (unsigned long)VRT_BOUND(64, 1 << 16, 0xffffffffUL)) return NULL;
	return nd_rng("src", 0, 1) ? (ILubyte *)nd_buf("px", Tot) : NULL;
}
static void tex(int surface) {
	ILenum t = S_TY, f = nd_u32("f"); ILuint bpp = nd_rng("bpp", 1, 4), bc = bpc_of(t), i = 0; ILimage *p = mk_img("data", 3, 1, IL_RGB, IL_UNSIGNED_BYTE), *nx = NULL; ILubyte *s, v = 0, v0, v1 = 0; ILboolean r; int ok; ILuint j; ILenum org = IL_ORIGIN_UPPER_LEFT; ILuint ow = W_, oh = H_, od = D_;
#ifdef BPP
	bpp = BPP;
#endif
	p->Origin = org;
	j = nd_rng("j", 0, p->SizeOfData - 1); v0 = p->Data[j];
	if (surface) { nx = (ILimage *)icalloc(1, sizeof(ILimage)); ASSUME(nx != NULL); p->Next = nx; }
	ok = shape(bpp, bc); s = src_of(ok);
	if (s) { i = nd_rng("i", 0, (ILuint)Tot - 1); v = s[i]; }
	CLRERR; ilSetCurImage(p);
	r = surface ? ilTexImageSurface(Wn, Hn, Dn, (ILubyte)bpp, f, t, s) : ilTexImage(Wn, Hn, Dn, (ILubyte)bpp, f, t, s);
	if (r) {
		COVER("defined");
		CHECK(ok, "only representable sizes are accepted");
		if (s) { v1 = p->Data[i]; CHECK(v1 == v, "the caller's pixels"); }
		CHECK(p->Format == f && p->Type == t, "format and type");
		layout(p, bpp, bc);
		CHECK(p->Origin == (surface ? IL_ORIGIN_UPPER_LEFT : IL_ORIGIN_LOWER_LEFT), "origin");
		CHECK(p->Next == nx && p->Mipmaps == NULL && p->Faces == NULL && p->Layers == NULL && p->Pal.Palette == NULL && p->Profile == NULL && p->AnimList == NULL && p->DxtcData == NULL, "no stale attachments");
	} else {
		CHECK(REPORTED(ok), "a failure is reported");
		if (!ok) {
			CHECK(p->Width == ow && p->Height == oh && p->Depth == od && p->Bpp == 3 && p->Bpc == 1 && p->SizeOfData == ow * oh * od * 3, "a refused shape leaves the image as it was");
			CHECK(p->Data[j] == v0, "and its pixels");
		}
	}
	ilSetCurImage(NULL); if (s) free(s); if (nx) ifree(nx); fr_img(p);
}
H(H_tex) { tex(0); }
H(H_surf) { tex(1); }
// an unknown type is refused
H(H_type) {
	ILenum t = nd_u32("t"); ILimage *p = mk_img("data", 3, 1, IL_RGB, IL_UNSIGNED_BYTE); int i, known = 0; ILubyte *d = p->Data; ILboolean r; ILuint bpp = nd_rng("bpp", 0, 5);
	for (i = 0; i < NT; i++) if (t == TY[i]) known = 1;
	ASSUME(!known || bpp == 0);
	CLRERR; ilSetCurImage(p);
	r = nd_rng("surf", 0, 1) ? ilTexImageSurface(2, 2, 1, (ILubyte)bpp, IL_RGB, t, NULL) : ilTexImage(2, 2, 1, (ILubyte)bpp, IL_RGB, t, NULL);
	COVER("refused");
	CHECK(!r && !NOERR, "refused with an error");
	CHECK(p->Data == d && p->Width == W_ && p->Height == H_ && p->Depth == D_ && p->Bpp == 3 && p->Bpc == 1, "the image is as it was");
	ilSetCurImage(NULL); fr_img(p);
}
H(H_new) {
	ILenum t = S_TY, f = nd_u32("f"); ILuint bpp = nd_rng("bpp", 1, 4), bc = bpc_of(t), i = 0; ILimage *p; ILubyte *s, v = 0; int ok;
#ifdef BPP
	bpp = BPP;
#endif
	ok = shape(bpp, bc); s = src_of(ok);
	if (s) { i = nd_rng("i", 0, (ILuint)Tot - 1); v = s[i]; }
	p = ilNewImageFull(Wn, Hn, Dn, (ILubyte)bpp, f, t, s);
	if (p) {
		COVER("created");
		CHECK(ok, "only representable sizes are accepted");
		if (s) CHECK(p->Data[i] == v, "the caller's pixels");
		CHECK(p->Format == f && p->Type == t, "format and type");
		layout(p, bpp, bc);
		CHECK(p->Next == NULL && p->Mipmaps == NULL && p->Faces == NULL && p->Layers == NULL && p->Pal.Palette == NULL && p->Profile == NULL && p->AnimList == NULL && p->DxtcData == NULL, "nothing attached");
		ilCloseImage(p);
	}
	if (s) free(s);
}
H(H_blank) {
	ILuint bpp = nd_rng("bpp", 1, 4), bc = 1u << nd_rng("bpc", 0, 3); ILimage *p; int ok;
#ifdef BPC
	bc = BPC; 
#endif
#ifdef BPP
	bpp = BPP;
#endif
	ok = shape(bpp, bc);
	p = ilNewImage(Wn, Hn, Dn, (ILubyte)bpp, (ILubyte)bc);
	if (p) {
		COVER("created");
		CHECK(ok, "only representable sizes are accepted");
		CHECK(p->Format == ilGetFormatBpp((ILubyte)bpp) && p->Type == ilGetTypeBpc((ILubyte)bc) && bpc_of(p->Type) == bc && bpp_of(p->Format) == bpp, "format and type fit the channels and the sample size");
		layout(p, bpp, bc);
		ilCloseImage(p);
	}
}
H(H_resize) {
	ILuint bpp = nd_rng("bpp", 1, 4), bc = 1u << nd_rng("bpc", 0, 3); ILimage *p = mk_img("data", 3, 1, IL_RGB, IL_UNSIGNED_BYTE); ILubyte *d = p->Data; int ok; ILboolean r; ILuint ow = W_, oh = H_, od = D_;
#ifdef BPC
	bc = BPC; 
#endif
#ifdef BPP
	bpp = BPP;
#endif
	ok = shape(bpp, bc);
	CLRERR;
	r = ilResizeImage(p, Wn, Hn, Dn, (ILubyte)bpp, (ILubyte)bc);
	if (r) {
		COVER("resized");
		CHECK(ok, "only representable sizes are accepted");
		layout(p, bpp, bc);
	} else {
		CHECK(REPORTED(ok), "a failure is reported");
		if (!ok) CHECK(p->Data == d && p->Width == ow && p->Height == oh && p->Depth == od && p->Bpp == 3 && p->Bpc == 1, "a refused shape leaves the image as it was");
	}
	fr_img(p);
}
// replacing the pixels keeps the layout
H(H_setdata) {
	ILuint bpp = nd_rng("bpp", 1, 4), bc = 1u << nd_rng("bpc", 0, 3), i; ILimage *p; ILubyte *s, v; ILboolean r;
#ifdef BPC
	bc = BPC; 
#endif
#ifdef BPP
	bpp = BPP;
#endif
	p = mk_img("data", bpp, bc, fmt_of(bpp), typ_of(bc));
	s = (ILubyte *)nd_buf("px", p->SizeOfData); i = nd_rng("i", 0, p->SizeOfData - 1); v = s[i];
	CLRERR; ilSetCurImage(p);
	r = ilSetData(s);
	COVER("set");
	CHECK(r, "accepted");
	CHECK(p->Data[i] == v && p->Data != s, "the caller's pixels, copied");
	CHECK(p->Width == W_ && p->Height == H_ && p->Depth == D_ && p->Bpp == bpp && p->Bpc == bc && p->SizeOfData == W_ * H_ * D_ * bpp * bc, "layout kept");
	CHECK(!ilSetData(NULL) && !NOERR, "no data is refused");
	ilSetCurImage(NULL); free(s); fr_img(p);
}
