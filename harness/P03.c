// P03: copying an image yields an equal, independent image.
#include "fmt.h"
#ifdef BPP
#define B_ BPP
#define C_ BPC
#else
#define B_ nd_rng("bpp", 1, 4)
#define C_ (1u << nd_rng("bpc", 0, 3))
#endif
#ifdef ATT
#define A_(n) ATT
#else
#define A_(n) nd_rng(n, 0, 1)
#endif
// an image with any layout and, or not, a palette, a profile and an animation list
static ILimage *src_img(void) {
	ILuint b = B_, c = C_; ILimage *p;
#ifdef VRT_DV
	p = mk_img("data", b, c, nd_u32("fmt"), typ_of(c));
#else
	{ ILenum t; do t = TY[nd_rng("ty", 0, NT - 1)]; while (bpc_of(t) != c); p = mk_img("data", b, c, b == 1 && nd_rng("ci", 0, 1) ? IL_COLOUR_INDEX : fmt_of(b), t); }
#endif
	p->Origin = nd_rng("org", 0, 1) ? IL_ORIGIN_UPPER_LEFT : IL_ORIGIN_LOWER_LEFT;
	p->Duration = nd_u32("dur"); p->OffX = nd_u32("ox"); p->OffY = nd_u32("oy"); p->CubeFlags = nd_u32("cf");
	if (A_("pal")) { p->Pal.PalSize = nd_rng("psz", 1, 1024); p->Pal.PalType = IL_PAL_RGB24; p->Pal.Palette = (ILubyte *)nd_buf("palette", p->Pal.PalSize); }
	if (A_("prof")) { p->ProfileSize = nd_rng("prsz", 1, 200); p->Profile = nd_buf("profile", p->ProfileSize); }
	if (A_("anim")) { p->AnimSize = nd_rng("asz", 1, 20); p->AnimList = (ILuint *)nd_buf("animlist", p->AnimSize * sizeof(ILuint)); }
	return p;
}
typedef struct { ILuint i, pi, ri, ai; ILubyte v, pv, rv, av; } Probe;
static void probe(Probe *q, ILimage *p) {
	q->i = nd_rng("i", 0, p->SizeOfData - 1); q->v = p->Data[q->i];
	q->pi = q->ri = q->ai = 0; q->pv = q->rv = q->av = 0;
	if (p->Pal.Palette) { q->pi = nd_rng("pi", 0, p->Pal.PalSize - 1); q->pv = p->Pal.Palette[q->pi]; }
	if (p->Profile) { q->ri = nd_rng("ri", 0, p->ProfileSize - 1); q->rv = ((ILubyte *)p->Profile)[q->ri]; }
	if (p->AnimList) { q->ai = nd_rng("ai", 0, p->AnimSize * 4 - 1); q->av = ((ILubyte *)p->AnimList)[q->ai]; }
}
static void contents(const Probe *q, ILimage *p) {
	CHECK(p->Data[q->i] == q->v, "pixels");
	if (p->Pal.Palette) CHECK(p->Pal.Palette[q->pi] == q->pv, "palette");
	if (p->Profile) CHECK(((ILubyte *)p->Profile)[q->ri] == q->rv, "profile");
	if (p->AnimList) CHECK(((ILubyte *)p->AnimList)[q->ai] == q->av, "animation list");
}
static void same_attr(ILimage *c, const ILimage *p) {
	CHECK(c->Width == p->Width && c->Height == p->Height && c->Depth == p->Depth, "size");
	CHECK(c->Bpp == p->Bpp && c->Bpc == p->Bpc && c->Format == p->Format && c->Type == p->Type && c->Origin == p->Origin, "format, type and origin");
	CHECK(c->Bps == p->Bps && c->SizeOfPlane == p->SizeOfPlane && c->SizeOfData == p->SizeOfData, "sizes");
	CHECK(c->Duration == p->Duration && c->OffX == p->OffX && c->OffY == p->OffY && c->CubeFlags == p->CubeFlags, "duration, position and cube flags");
	CHECK(c->Pal.PalSize == p->Pal.PalSize && c->Pal.PalType == p->Pal.PalType && (c->Pal.Palette != NULL) == (p->Pal.Palette != NULL), "palette layout");
	CHECK(c->ProfileSize == p->ProfileSize && (c->Profile != NULL) == (p->Profile != NULL), "profile size");
	CHECK(c->AnimSize == p->AnimSize && (c->AnimList != NULL) == (p->AnimList != NULL), "animation list size");
}
static void unchanged(ILimage *p, const ILimage *o) {
	same_attr(p, o);
	CHECK(p->Data == o->Data && p->Pal.Palette == o->Pal.Palette && p->Profile == o->Profile && p->AnimList == o->AnimList && p->Next == o->Next && p->Mipmaps == o->Mipmaps && p->Faces == o->Faces && p->Layers == o->Layers, "source untouched");
}
static void apart(ILimage *c, ILimage *p) {
	CHECK(c->Data != p->Data && c->Data != NULL, "pixels of its own");
	CHECK(c->Pal.Palette == NULL || c->Pal.Palette != p->Pal.Palette, "palette of its own");
	CHECK(c->Profile == NULL || c->Profile != p->Profile, "profile of its own");
	CHECK(c->AnimList == NULL || c->AnimList != p->AnimList, "animation list of its own");
	CHECK((c->Next == NULL || c->Next != p->Next) && (c->Mipmaps == NULL || c->Mipmaps != p->Mipmaps) && (c->Faces == NULL || c->Faces != p->Faces) && (c->Layers == NULL || c->Layers != p->Layers), "no shared sub-images");
}
static void drop(ILimage *p) { if (p->Profile) ifree(p->Profile); if (p->AnimList) ifree(p->AnimList); fr_img(p); }
H(H_copy) {
	ILimage *p = src_img(), o, *c; Probe q; ILubyte nv;
	FAULTS_OFF(); probe(&q, p); o = *p;
	FAULTS(); c = ilCopyImage_(p); FAULTS_OFF();
	unchanged(p, &o); contents(&q, p);
	if (c != NULL) {
		COVER("copied");
		same_attr(c, p); contents(&q, c); apart(c, p);
		// writing to one does not show in the other
		nv = nd_u8("nv"); c->Data[q.i] = nv; CHECK(p->Data[q.i] == q.v, "independent of the copy");
		ilCloseImage(c);
		contents(&q, p);
	}
	drop(p);
}
// attributes over an image that has attributes of its own
H(H_attr) {
	ILimage *p = src_img(), o, *c; Probe q; ILuint pw = W_, ph = H_, pd = D_; ILboolean r; ILubyte v0; ILuint k;
	FAULTS_OFF(); probe(&q, p); o = *p;
	c = mk_img("data2", 3, 1, IL_RGB, IL_UNSIGNED_BYTE); k = nd_rng("k", 0, c->SizeOfData - 1); v0 = c->Data[k];
	if (nd_rng("dpal", 0, 1)) { c->Pal.PalSize = 6; c->Pal.PalType = IL_PAL_RGB24; c->Pal.Palette = (ILubyte *)ialloc(6); }
	if (nd_rng("dprof", 0, 1)) { c->ProfileSize = 5; c->Profile = ialloc(5); }
	if (nd_rng("danim", 0, 1)) { c->AnimSize = 2; c->AnimList = (ILuint *)ialloc(8); }
	ASSUME((c->Pal.PalSize == 0 || c->Pal.Palette) && (c->ProfileSize == 0 || c->Profile) && (c->AnimSize == 0 || c->AnimList));
	FAULTS(); r = ilCopyImageAttr(c, p); FAULTS_OFF();
	unchanged(p, &o); contents(&q, p);
	CHECK(c->Data[k] == v0, "the pixels of the destination are not part of the attributes");
	if (r) {
		COVER("copied");
		same_attr(c, p); apart(c, p);
		if (p->Pal.Palette) CHECK(c->Pal.Palette[q.pi] == q.pv, "palette");
		if (p->Profile) CHECK(((ILubyte *)c->Profile)[q.ri] == q.rv, "profile");
		if (p->AnimList) CHECK(((ILubyte *)c->AnimList)[q.ai] == q.av, "animation list");
	}
	if (c->Profile) ifree(c->Profile); if (c->AnimList) ifree(c->AnimList); fr_img(c);
	drop(p); (void)pw; (void)ph; (void)pd;
}
// by name: clone the current image, or copy the image of another name over the current one
static ILuint name_of(ILimage **q) { ILuint n = ilGenImage(); ASSUME(n != 0); ilBindImage(n); ASSUME(iCurImage != NULL && ilGetCurName() == n); *q = iCurImage; return n; }
ILimage *ilGetCurImage(void);
// the image of the name, filled with the contents of p
static int fill_img(ILimage *t, ILimage *p) {
	return ilTexImage_(t, p->Width, p->Height, p->Depth, p->Bpp, p->Format, p->Type, p->Data) && ilCopyImageAttr(t, p);
}
H(H_names) {
	ILimage *p = src_img(), *s, *o, *c, so; Probe q; ILuint sn, on, r, i; ILboolean ok; ILubyte *od, ov; int clone = nd_rng("clone", 0, 1), self = nd_rng("self", 0, 3) == 0, sub = nd_rng("sub", 0, 3);
	FAULTS_OFF();
	ilInit(); probe(&q, p);
	for (i = nd_rng("before", 0, 3); i > 0; i--) ilGenImage();
	on = name_of(&o); o->Next = ilNewImage(2, 1, 1, 1, 1); ASSUME(o->Next != NULL);
	ASSUME(ilTexImage(3, 2, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, NULL)); ASSUME(o->Next == NULL); o->Data[5] = ov = nd_u8("ov"); od = o->Data;
	sn = name_of(&s); ASSUME(ilTexImage(1, 1, 1, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE, NULL));
	if (sub == 1) { s->Next = ilNewImage(2, 1, 1, 1, 1); ASSUME(s->Next != NULL); s = s->Next; }
	ASSUME(fill_img(s, p)); so = *s;
	if (clone) {
		// the current image may be the next one in the chain of the image bound
		ilBindImage(sn); if (sub == 1) ilActiveImage(1); ASSUME(ilGetCurImage() == s); CLRERR;
		FAULTS(); r = ilCloneCurImage(); FAULTS_OFF();
		CHECK(ilGetCurName() == sn && ilGetCurImage() == s, "binding as before");
		unchanged(s, &so); contents(&q, s);
		if (r != 0) {
			COVER("cloned"); CHECK(r != sn && r != on && ilIsImage(r), "a new name");
			ilBindImage(r); c = ilGetCurImage(); CHECK(c != NULL && c != s && c != o, "a new image");
			if (c != NULL && c != s && c != o) { same_attr(c, s); contents(&q, c); apart(c, s); }
			ilDeleteImage(r); contents(&q, s);
		} else CHECK(!NOERR, "failure reported");
		CHECK(o->Data == od && od[5] == ov, "other images untouched");
	} else if (sub != 1) {
		// onto another image, a sub-image of another image, or itself
		ILuint into = self ? sn : on; c = self ? s : o;
		if (sub == 2 && !self) { o->Next = ilNewImage(2, 1, 1, 1, 1); ASSUME(o->Next != NULL); c = o->Next; }
		ilBindImage(into); if (c == o->Next) ilActiveImage(1); ASSUME(ilGetCurImage() == c); CLRERR;
		FAULTS(); ok = ilCopyImage(sn); FAULTS_OFF();
		CHECK(ilGetCurName() == into && ilGetCurImage() == c, "binding as before");
		unchanged(s, &so); contents(&q, s);
		if (ok) { COVER("copied over"); same_attr(c, s); contents(&q, c); if (!self) apart(c, s); }
		else CHECK(!NOERR, "failure reported");
		if (c != o) CHECK(o->Data == od && od[5] == ov, "other images untouched");
	}
	ilShutDown();
	drop(p);
}
