// Arbitrary well-formed images for contract harnesses.
#ifndef IMG_H
#define IMG_H
#include "vrt.h"
#include "IL/ilu.h"
#ifdef __cplusplus
extern "C" {
#endif
#ifdef VRT_DV
void vrt_hint(unsigned long x);
#define HINT(x) vrt_hint((unsigned long)(x))
#else
#define HINT(x) ((void)0)
#endif
#ifdef __cplusplus
}
#endif
extern ILimage *iCurImage;
// start from an empty error queue (any queue state is equivalent, see P05)
#ifdef VRT_DV
extern ILint ilErrorPlace;
#define CLRERR do { ilErrorPlace = -1; } while (0)
#else
#define CLRERR do { while (ilGetError() != IL_NO_ERROR) ; } while (0)
#endif
#define NOERR (ilGetError() == IL_NO_ERROR)
// w,h,d pixels of bpp channels of bpc bytes; the caller has chosen the sizes
static ILimage *mk_img0(const char *nm, ILuint w, ILuint h, ILuint d, ILuint bpp, ILuint bpc, ILenum fmt, ILenum typ) {
	ILimage *p = (ILimage *)nd_buf("image", sizeof(ILimage));
	ILuint bps = w * bpp * bpc, pl = bps * h;
	memset(p, 0, sizeof(ILimage));
	p->Width = w; p->Height = h; p->Depth = d; p->Bpp = (ILubyte)bpp; p->Bpc = (ILubyte)bpc; p->Bps = bps;
	p->SizeOfPlane = pl; p->SizeOfData = pl * d; p->Format = fmt; p->Type = typ; p->Origin = IL_ORIGIN_LOWER_LEFT;
	p->Pal.PalType = IL_PAL_NONE; p->DxtcFormat = IL_DXT_NO_COMP;
	p->Data = (ILubyte *)nd_buf(nm, p->SizeOfData);
	return p;
}
// total size below 2 GiB, as for every image the allocator can hold with 32-bit sizes
static void small_enough(ILuint w, ILuint h, ILuint d, ILuint px) {
	unsigned long a = (unsigned long)w * px; ASSUME(a <= 0x7fffffffUL);
	a = a * h; ASSUME(a <= 0x7fffffffUL);
	a = a * d; ASSUME(a <= 0x7fffffffUL);
}
// failing allocations: any in the VC generator; in native runs sometimes, from the n-th on or just the n-th
#if !defined(VRT_DV) && !defined(VRT_CBMC)
static long fa_left; static int fa_once;
static void *ILAPIENTRY fa_alloc(const ILsizei n) { if (fa_left-- == 0) { if (!fa_once) fa_left = 0; return NULL; } return malloc(n); }
static void ILAPIENTRY fa_free(const void *p) { free((void *)p); }
static void FAULTS(void) { if (nd_rng("fa", 0, 2) == 0) { fa_left = nd_rng("fan", 0, 12); fa_once = nd_rng("fao", 0, 1); ilSetMemory(fa_alloc, fa_free); } else ilResetMemory(); }
static void FAULTS_OFF(void) { ilResetMemory(); }
#else
#define FAULTS() ((void)0)
#define FAULTS_OFF() ((void)0)
#endif
#ifndef CB
#define CB 3
#endif
static ILuint W_, H_, D_;
static ILimage *mk_img(const char *nm, ILuint bpp, ILuint bpc, ILenum fmt, ILenum typ) {
	ILuint w = nd_dim("w", CB, 40), h = nd_dim("h", CB, 12), d = nd_dim("d", 2, 4);
	W_ = w; H_ = h; D_ = d;
	small_enough(w, h, d, bpp * bpc);
	return mk_img0(nm, w, h, d, bpp, bpc, fmt, typ);
}
static void fr_img(ILimage *p) { if (p->Data) ifree(p->Data); if (p->Pal.Palette) ifree(p->Pal.Palette); free(p); }
// sample number i of a buffer of bpc-byte samples, as raw bits
static unsigned long get_s(const void *p, ILuint bpc, unsigned long i) {
	switch (bpc) { case 1: return ((const ILubyte *)p)[i]; case 2: return ((const ILushort *)p)[i]; case 4: return ((const ILuint *)p)[i]; default: return ((const unsigned long *)p)[i]; }
}
#endif
