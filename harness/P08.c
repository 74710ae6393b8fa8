// P08: flip and mirror, for every image size, pixel size and sample position.
#include "img.h"
#ifdef VRT_DV
ILubyte *iFlipNewBuffer(ILubyte *, ILuint, ILuint, ILuint);
#else
ILubyte *iFlipNewBuffer(ILubyte *, ILuint, ILuint, ILuint);
#endif
// case parameters: fixed per obligation in the prover, free in native runs
#ifdef BPP
#define S_BPP BPP
#else
#define S_BPP nd_rng("bpp", 1, 4)
#endif
#ifdef BPC
#define S_BPC BPC
#else
#define S_BPC (1u << nd_rng("bpc", 0, 3))
#endif
// iFlipBuffer: rows of every plane reversed, in place
H(H_flipbuf) {
	ILuint n = nd_dim("linesize", 4, 9000), h = nd_dim("lines", 4, 9), d = nd_dim("depth", 2, 3), x, y, z; ILubyte *b, old;
	small_enough(n, h, d, 1);
	b = (ILubyte *)nd_buf("data", n * h * d);
	x = nd_rng("x", 0, n - 1); y = nd_rng("y", 0, h - 1); z = nd_rng("z", 0, d - 1);
	old = b[(z * h + y) * n + x];
	iFlipBuffer(b, d, n, h);
	COVER("flip");
	CHECK(b[(z * h + (h - 1 - y)) * n + x] == old, "row y becomes row h-1-y of the same plane");
	free(b);
}
// iFlipNewBuffer: the same permutation into a new buffer; the source is unchanged
H(H_flipnew) {
	ILuint n = nd_dim("linesize", 4, 300), h = nd_dim("lines", 4, 9), d = nd_dim("depth", 2, 3), x, y, z; ILubyte *b, *r, old;
	small_enough(n, h, d, 1);
	b = (ILubyte *)nd_buf("data", n * h * d);
	x = nd_rng("x", 0, n - 1); y = nd_rng("y", 0, h - 1); z = nd_rng("z", 0, d - 1);
	old = b[(z * h + y) * n + x];
	r = iFlipNewBuffer(b, d, n, h);
	if (r != NULL) {
		COVER("flip");
		CHECK(r[(z * h + (h - 1 - y)) * n + x] == old, "row y becomes row h-1-y of the same plane");
		ifree(r);
	}
	CHECK(b[(z * h + y) * n + x] == old, "source unchanged");
	free(b);
}
static void same_shape(ILimage *p, ILuint w, ILuint h, ILuint d, ILuint bpp, ILuint bpc, ILenum f, ILenum t) {
	CHECK(p->Width == w && p->Height == h && p->Depth == d, "size unchanged");
	CHECK(p->Bpp == bpp && p->Bpc == bpc && p->Format == f && p->Type == t, "pixel layout unchanged");
	CHECK(p->Bps == w * bpp * bpc && p->SizeOfPlane == p->Bps * h && p->SizeOfData == p->SizeOfPlane * d, "sizes unchanged");
}
// iluFlipImage on the current image
H(H_flipimg) {
	ILuint bpp = S_BPP, bpc = S_BPC, x, y, z, s; ILimage *p = mk_img("data", bpp, bpc, IL_RGBA, IL_UNSIGNED_BYTE); unsigned long old; ILboolean r;
	x = nd_rng("x", 0, W_ - 1); y = nd_rng("y", 0, H_ - 1); z = nd_rng("z", 0, D_ - 1); s = nd_rng("s", 0, bpp - 1);
	ilSetCurImage(p);
	old = get_s(p->Data, bpc, (((unsigned long)z * H_ + y) * W_ + x) * bpp + s);
	r = iluFlipImage();
	COVER("flip");
	CHECK(r, "succeeds");
	CHECK(get_s(p->Data, bpc, (((unsigned long)z * H_ + (H_ - 1 - y)) * W_ + x) * bpp + s) == old, "pixel (x,y,z) moves to (x,h-1-y,z)");
	same_shape(p, W_, H_, D_, bpp, bpc, IL_RGBA, IL_UNSIGNED_BYTE);
	CHECK(p->Origin == IL_ORIGIN_LOWER_LEFT, "origin unchanged");
	ilSetCurImage(NULL); fr_img(p);
}
H(H_mirror) {
	ILuint bpp = S_BPP, bpc = S_BPC, x, y, z, s; ILimage *p = mk_img("data", bpp, bpc, IL_RGBA, IL_UNSIGNED_BYTE); unsigned long old; ILboolean r;
	x = nd_rng("x", 0, W_ - 1); y = nd_rng("y", 0, H_ - 1); z = nd_rng("z", 0, D_ - 1); s = nd_rng("s", 0, bpp - 1);
	ilSetCurImage(p);
	old = get_s(p->Data, bpc, (((unsigned long)z * H_ + y) * W_ + x) * bpp + s);
	r = iluMirror();
	COVER("mirror");
	if (r) CHECK(get_s(p->Data, bpc, (((unsigned long)z * H_ + y) * W_ + (W_ - 1 - x)) * bpp + s) == old, "pixel (x,y,z) moves to (w-1-x,y,z)");
	else CHECK(get_s(p->Data, bpc, (((unsigned long)z * H_ + y) * W_ + x) * bpp + s) == old, "on failure the image is unchanged");
	same_shape(p, W_, H_, D_, bpp, bpc, IL_RGBA, IL_UNSIGNED_BYTE);
	ilSetCurImage(NULL); fr_img(p);
}
