// P27: overlaying one image on another changes exactly the overlap.
#include "fmt.h"
#ifdef SF
#define S_SF FM[SF]
#define S_TY TY[TYP]
#define D_DF FM[DF]
#define D_TY TY[DTY]
#else
#define S_SF FM[nd_rng("sf", 0, NF - 1)]
#define S_TY TY[nd_rng("ty", 0, NT - 1)]
#define D_DF FM[nd_rng("df", 0, NF - 1)]
#define D_TY TY[nd_rng("dty", 0, NT - 1)]
#endif
#ifndef ORG
#define S_ORG nd_rng("sorg", 0, 1)
#define D_ORG nd_rng("dorg", 0, 1)
#else
#define S_ORG (ORG & 1)
#define D_ORG (ORG >> 1)
#endif
static ILenum org_of(int u) { return u ? IL_ORIGIN_UPPER_LEFT : IL_ORIGIN_LOWER_LEFT; }
// Names: the image stack is represented by its contract (P02): binding a name makes its image current.
static ILimage *im_s, *im_d;
#if defined(VRT_DV)
static ILuint bound;
extern "C" {
__attribute__((used)) void c_ilBindImage(ILuint n) { bound = n; iCurImage = n == 1 ? im_d : n == 2 ? im_s : NULL; }
__attribute__((used)) ILuint c_ilGetCurName(void) { if (iCurImage == NULL) return 0; return bound; }
}
#define BOUND bound
#define NS 2
#define ND 1
static void names(void) { bound = 1; iCurImage = im_d; }
static void unnames(void) {}
#else
static ILuint NS, ND;
static ILimage keep_s, keep_d;
#define BOUND ilGetCurName()
// the images generated lend their contents
static void lend(ILimage *to, ILimage *p) { *to = *p; }
static void names(void) {
	ilInit();
	NS = ilGenImage(); ND = ilGenImage();
	ilBindImage(NS); keep_s = *ilGetCurImage(); lend(ilGetCurImage(), im_s); free(im_s); im_s = ilGetCurImage();
	ilBindImage(ND); keep_d = *ilGetCurImage(); lend(ilGetCurImage(), im_d); free(im_d); im_d = ilGetCurImage();
}
static void unnames(void) {
	ILimage s = *im_s, d = *im_d;
	*im_s = keep_s; *im_d = keep_d; im_s = (ILimage *)malloc(sizeof s); im_d = (ILimage *)malloc(sizeof d); *im_s = s; *im_d = d;
	ilShutDown();
}
#endif
static unsigned long at(ILimage *p, ILuint x, ILuint y, ILuint z, ILuint px) {  // from the upper left
	if (p->Origin == IL_ORIGIN_LOWER_LEFT) y = p->Height - 1 - y;
	return (((unsigned long)z * p->Height + y) * p->Width + x) * px;
}
#ifndef AXIS
#define AXIS 7
#endif
// AXIS: the dimensions that are arbitrary (the others are 1)
static ILimage *pic(const char *nm, ILenum f, ILenum t) {
	W_ = AXIS & 1 ? nd_dim("w", CB, 40) : 1; H_ = AXIS & 2 ? nd_dim("h", CB, 12) : 1; D_ = AXIS & 4 ? nd_dim("d", 2, 4) : 1;
	small_enough(W_, H_, D_, bpp_of(f) * bpc_of(t));
	return mk_img0(nm, W_, H_, D_, bpp_of(f), bpc_of(t), f, t);
}
// position p of a region is in the region and, with the offset of the region, in the image
static int inside(long p, ILuint region, ILuint off, ILuint size) {
	if (p < 0) { HINT(0); return 0; }
	if (p >= (long)region) { HINT(1); return 0; }
	if (p + (long)off >= (long)size) { HINT(2); return 0; }
	return 1;
}
static void blit(int overlay) {
	ILenum sf = S_SF, st = S_TY, df = D_DF, dt = D_TY; ILuint spx = bpp_of(sf) * bpc_of(st), dpx = bpp_of(df) * bpc_of(dt);
	ILuint sw, sh, sd, w, h, d, x, y, z, b, sb, j, k; ILimage so, dd; unsigned long i, ik; ILubyte old, oldk, srcv, conv; ILubyte *C = NULL; ILboolean r; int blend, al;
	ILint dx = 0, dy = 0, dz = 0; ILuint sx = 0, sy = 0, sz = 0, rw, rh, rd; long px, py, pz; int in;
	FAULTS_OFF();
	im_s = pic("src", sf, st); sw = W_; sh = H_; sd = D_;
	ASSUME((unsigned long)sw * sh * sd * 32 <= 0x7fffffffUL);
	im_d = pic("dst", df, dt); w = W_; h = H_; d = D_;
	im_s->Origin = org_of(S_ORG); im_d->Origin = org_of(D_ORG);
	names();
	STATE_OK; ilDisable(IL_USE_KEY_COLOUR);
#ifdef BLEND
	blend = BLEND;
#else
	blend = nd_rng("blend", 0, 1);
#endif
	if (blend) ilEnable(IL_BLIT_BLEND); else ilDisable(IL_BLIT_BLEND);
	al = blend && (sf == IL_RGBA || sf == IL_BGRA || sf == IL_LUMINANCE_ALPHA) && df != IL_ALPHA;
	rw = sw; rh = sh; rd = sd;
	if (AXIS & 1) { dx = nd_i32s("dx", 45); if (!overlay) { sx = nd_u32s("sx", 45); rw = nd_u32s("rw", 45); } }
	if (AXIS & 2) { dy = nd_i32s("dy", 15); if (!overlay) { sy = nd_u32s("sy", 15); rh = nd_u32s("rh", 15); } }
	if (AXIS & 4) { dz = nd_i32s("dz", 5); if (!overlay) { sz = nd_u32s("sz", 5); rd = nd_u32s("rd", 5); } }
	// a byte of the destination, and the region position it belongs to
	x = AXIS & 1 ? nd_rng("x", 0, w - 1) : 0; y = AXIS & 2 ? nd_rng("y", 0, h - 1) : 0; z = AXIS & 4 ? nd_rng("z", 0, d - 1) : 0; b = nd_rng("b", 0, dpx - 1);
	i = at(im_d, x, y, z, dpx) + b; HINT(i);
	old = im_d->Data[i];
	px = (long)x - dx; py = (long)y - dy; pz = (long)z - dz;
	in = 1;
	if ((AXIS & 1) && !inside(px, rw, sx, sw)) in = 0;
	if ((AXIS & 2) && !inside(py, rh, sy, sh)) in = 0;
	if ((AXIS & 4) && !inside(pz, rd, sz, sd)) in = 0;
	k = nd_rng("k", 0, im_s->SizeOfData - 1); srcv = im_s->Data[k];
	so = *im_s; dd = *im_d; conv = 0;
	// the conversion of a whole buffer is the subject of P09 and P10
	if (in) {
		ik = at(im_s, (ILuint)px + sx, (ILuint)py + sy, (ILuint)pz + sz, dpx) + b;
#if defined(SAME)
		conv = im_s->Data[ik];
#else
		C = (ILubyte *)ilConvertBuffer(im_s->SizeOfData, sf, df, st, dt, &im_s->Pal, im_s->Data);
		if (C) { conv = C[ik]; ifree(C); }
#endif
	}
	CLRERR; FAULTS();
	if (overlay) r = ilOverlayImage(NS, dx, dy, dz); else r = ilBlit(NS, dx, dy, dz, sx, sy, sz, rw, rh, rd);
	FAULTS_OFF();
	CHECK(iCurImage == im_d && BOUND == ND, "binding as before");
	CHECK(im_s->Data == so.Data && im_s->Width == so.Width && im_s->Height == so.Height && im_s->Depth == so.Depth && im_s->Format == so.Format && im_s->Type == so.Type && im_s->Origin == so.Origin && im_s->SizeOfData == so.SizeOfData, "source as before");
	CHECK(im_s->Data[k] == srcv, "source pixels as before");
	CHECK(im_d->Data == dd.Data && im_d->Width == w && im_d->Height == h && im_d->Depth == d && im_d->Format == df && im_d->Type == dt && im_d->SizeOfData == dd.SizeOfData, "destination keeps its size and format");
	if (!r) CHECK(im_d->Data[i] == old, "nothing changed on failure");
	else if (in) {
		COVER("covered");
#if !defined(SAME)
		if (C)
#endif
		if (!al) CHECK(im_d->Data[i] == conv, "covered: the source pixel in the format of the destination");
		else if (has_alpha(df) && b >= dpx - bpc_of(dt) && dt != IL_HALF) CHECK(im_d->Data[i] == old, "blended: alpha kept");
	} else { COVER("outside"); CHECK(im_d->Data[i] == old, "not covered: unchanged"); }
	unnames(); fr_img(im_s); fr_img(im_d);
}
H(H_blit) { blit(0); }
H(H_over) { blit(1); }
