// P04: selecting sub-images.
#include "img.h"
#ifndef CH_
#define CH_ 0
#endif
#ifndef SUB_
#define SUB_ 0
#endif
#ifndef MAXCH
#define MAXCH 3
#endif
static const ILenum NUMS[4] = { IL_NUM_IMAGES, IL_NUM_FACES, IL_NUM_LAYERS, IL_NUM_MIPMAPS };
static const ILenum ACTS[4] = { IL_ACTIVE_IMAGE, IL_ACTIVE_FACE, IL_ACTIVE_LAYER, IL_ACTIVE_MIPMAP };
static ILboolean select_(int c, ILuint k) { return c == 0 ? ilActiveImage(k) : c == 1 ? ilActiveFace(k) : c == 2 ? ilActiveLayer(k) : ilActiveMipmap(k); }
static ILimage **link_(ILimage *p, int c) { return c == 0 ? &p->Next : c == 1 ? &p->Faces : c == 2 ? &p->Layers : &p->Mipmaps; }
static ILint geti(ILenum m) { ILint v = -7; ilGetIntegerv(m, &v); return v; }
static ILimage *ch[4][MAXCH + 1]; static ILuint len[4];
static void same_links(void) { int c; ILuint k; for (c = 0; c < 4; c++) for (k = 0; k <= MAXCH; k++) if (k <= len[c]) CHECK(*link_(ch[c][k], c) == (k < len[c] ? ch[c][k + 1] : NULL), "the chains are unchanged"); }
static void probe(int c, ILuint k, int based) {
	ILimage *cur = iCurImage; ILboolean r;
	CHECK(geti(NUMS[c]) == (ILint)len[c], "the reported number is the length of the chain");
	CLRERR; r = select_(c, k);
	if (k <= len[c]) {
		COVER("selected");
		CHECK(r == IL_TRUE, "an existing image can be selected"); CHECK(iCurImage == ch[c][k] && ilGetCurImage() == ch[c][k], "exactly that image is current");
		CHECK(NOERR, "without an error");
		if (based) CHECK(geti(ACTS[c]) == (ILint)k, "the reported active number is the selected one");
	} else {
		COVER("refused");
		CHECK(r == IL_FALSE, "an image beyond the chain is refused"); CHECK(ilGetError() != IL_NO_ERROR, "with an error"); CHECK(iCurImage == cur, "the current image is unchanged");
	}
	same_links();
}
#ifdef VRT_CBMC
#include "x_il_stack.cpp"   // src-IL/src/il_stack.cpp, with a table of 8 names
extern ILint ilErrorPlace;
#undef CLRERR
#define CLRERR (ilErrorPlace = -1)
ILboolean ILAPIENTRY ilDefaultImage(void) { return IL_TRUE; }
static ILimage *img(void) { ILimage *p = (ILimage *)malloc(sizeof(ILimage)); __CPROVER_assume(p != 0); memset(p, 0, sizeof *p); return p; }
static ILimage *tab_[8];
static ILimage *setup(void) {
	int c; ILuint k; ILimage *base = img();
	ImageStack = tab_; StackSize = 8; LastUsed = 8; OnExit = IL_TRUE; CurName = 5; tab_[5] = base; tab_[0] = img(); iCurImage = base;
	for (c = 0; c < 4; c++) { len[c] = nd_rng("len", 0, MAXCH); ch[c][0] = base; for (k = 1; k <= MAXCH; k++) { ch[c][k] = img(); if (k <= len[c]) *link_(ch[c][k - 1], c) = ch[c][k]; } }
#ifndef NODECOY
	// the images of a chain may have sub-images of the other kinds
	for (c = 0; c < 4; c++) for (k = 1; k <= MAXCH; k++) { int o; for (o = 0; o < 4; o++) if (o != c && nd_rng("decoy", 0, 1)) *link_(ch[c][k], o) = img(); }
#endif
	CLRERR;
	return base;
}
H(H_select) { ILuint k = nd_u32("k"); setup(); probe(CH_, k, 1); }
// from a frame of an animation that has chains of its own: numbering starts at the current image
H(H_sub) {
	ILuint k = nd_u32("k"); int c; ILimage *base = setup(), *root = img();
	*link_(root, SUB_) = base; tab_[5] = root; iCurImage = base;
	probe(CH_, k, 0);
}
H(H_none) { ILuint k = nd_u32("k"); setup(); iCurImage = NULL; CHECK(select_(CH_, k) == IL_FALSE && ilErrorPlace >= 0 && iCurImage == NULL, "no current image: an error"); COVER("none"); }
// creating n sub-images makes that chain n long and leaves the others
H(H_create) {
	ILuint n = nd_rng("n", 0, MAXCH), r, k; ILimage *base, *p; int c = CH_, o; ILenum t = c == 0 ? IL_SUB_NEXT : c == 2 ? IL_SUB_LAYER : IL_SUB_MIPMAP;
	base = setup();
	r = ilCreateSubImage(t, n);
	COVER("created");
	CHECK(iCurImage == base && CurName == 5 && tab_[5] == base, "the current image stays");
	CHECK(r <= n && (r == n || ilErrorPlace >= 0), "all of them, or an error");
	if (n == 0) { CHECK(r == 0, "nothing to create"); same_links(); return; }
	for (p = base, k = 0; k < MAXCH + 1 && *link_(p, c); k++) { p = *link_(p, c); for (o = 0; o < 4; o++) if (o != c) CHECK(*link_(p, o) == NULL, "a new image has no sub-images of its own"); }
	CHECK(k == r, "the chain has the created length");
	len[c] = 0; ch[c][0] = base;
	for (o = 0; o < 4; o++) if (o != c) for (k = 0; k <= MAXCH; k++) if (k <= len[o]) CHECK(*link_(ch[o][k], o) == (k < len[o] ? ch[o][k + 1] : NULL), "other chains are unchanged");
}
#else
static ILubyte mk_; 
static void fill(ILimage *p) { p->Data[0] = ++mk_; }
H(H_walk) {
	ILuint k, n = nd_rng("n", 1, 6), i; int c; ILuint id; ILimage *base;
	ilResetMemory(); id = ilGenImage(); ilBindImage(id); base = iCurImage;
	for (c = 0; c < 4; c++) {
		len[c] = nd_rng("len", 0, MAXCH); ch[c][0] = base;
		if (c == 1) { for (k = 1; k <= len[c]; k++) ch[c][k - 1]->Faces = ilNewImage(1, 1, 1, 1, 1), ch[c][k] = ch[c][k - 1]->Faces; continue; }
		CHECK(ilCreateSubImage(c == 0 ? IL_SUB_NEXT : c == 2 ? IL_SUB_LAYER : IL_SUB_MIPMAP, len[c]) == len[c], "sub-images created");
		for (k = 1; k <= len[c]; k++) { ch[c][k] = *link_(ch[c][k - 1], c); CHECK(ch[c][k] != NULL, "the chain has the created length"); }
	}
	for (c = 0; c < 4; c++) for (k = 1; k <= len[c]; k++) { int o; for (o = 0; o < 4; o++) if (o != c && nd_rng("decoy", 0, 2) == 0) *link_(ch[c][k], o) = ilNewImage(1, 1, 1, 1, 1); }
	for (i = 0; i < n; i++) {
		c = nd_rng("c", 0, 3); k = nd_u32s("k", MAXCH + 2);
		ilBindImage(id); CHECK(iCurImage == base, "binding selects the base image");
		probe(c, k, 1);
	}
	ilBindImage(id);
	{ ILuint f; for (f = 0; f < 4; f++) { c = nd_rng("pc", 0, 3); if (select_(c, nd_rng("pk", 0, MAXCH))) { ILimage *p = iCurImage; int d; for (d = 0; d < 4; d++) { ILimage *q = p; len[d] = 0; ch[d][0] = p; while ((q = *link_(q, d)) && len[d] < MAXCH) ch[d][++len[d]] = q; } k = nd_u32s("k2", MAXCH + 1); probe(nd_rng("c2", 0, 3), k, 0); } } }
	ilDeleteImage(id); ilBindImage(1);
}
// creating sub-images: contents and chains stay apart
H(H_make) {
	ILuint n = nd_rng("n", 0, 4), r, k, id; int c = nd_rng("c", 0, 2); ILenum t = c == 0 ? IL_SUB_NEXT : c == 1 ? IL_SUB_MIPMAP : IL_SUB_LAYER; ILenum m = c == 0 ? IL_NUM_IMAGES : c == 1 ? IL_NUM_MIPMAPS : IL_NUM_LAYERS;
	int i;
	ilResetMemory(); id = ilGenImage(); ilBindImage(id);
	if (nd_rng("pre", 0, 1)) ilCreateSubImage(t, nd_rng("pn", 1, 3));
	CLRERR; FAULTS(); r = ilCreateSubImage(t, n); FAULTS_OFF();
	COVER("create");
	CHECK(r <= n && (r == n || ilGetError() != IL_NO_ERROR), "all of them, or an error");
	if (n) CHECK(geti(m) == (ILint)r, "the chain has the created length");
	for (i = 0; i < 4; i++) if (NUMS[i] != m) CHECK(geti(NUMS[i]) == 0, "other chains are unchanged");
	
	ilDeleteImage(id); ilBindImage(1);
}
// registering them
H(H_reg) {
	ILuint n = nd_rng("n", 0, 4), id; int c = nd_rng("c", 0, 2), i; ILboolean r; ILenum m = c == 0 ? IL_NUM_IMAGES : c == 1 ? IL_NUM_MIPMAPS : IL_NUM_FACES; ILimage *base;
	ilResetMemory(); id = ilGenImage(); ilBindImage(id); base = iCurImage;
	if (nd_rng("pre", 0, 1)) { if (c == 2) ilRegisterNumFaces(2); else ilCreateSubImage(c == 0 ? IL_SUB_NEXT : IL_SUB_MIPMAP, nd_rng("pn", 1, 3)); }
	CLRERR; FAULTS(); r = c == 0 ? ilRegisterNumImages(n) : c == 1 ? ilRegisterMipNum(n) : ilRegisterNumFaces(n); FAULTS_OFF();
	COVER("registered");
	CHECK(r || ilGetError() != IL_NO_ERROR, "or an error"); CHECK(iCurImage == base, "the current image stays");
	CHECK(geti(m) == (ILint)(r ? n : 0), "the chain has the registered length");
	for (i = 0; i < 4; i++) if (NUMS[i] != m) CHECK(geti(NUMS[i]) == 0, "other chains are unchanged");
	if (r && n) { ILuint k = nd_rng("k", 0, 5); ILboolean q = c == 0 ? ilActiveImage(k) : c == 1 ? ilActiveMipmap(k) : ilActiveFace(k); CHECK(q == (k <= n), "every one of them can be selected"); }
	ilDeleteImage(id); ilBindImage(1);
}
#endif
