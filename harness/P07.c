// P07: writing a block of pixels in the image's own format and type, at signed offsets.
#include "case.h"
static void set_block(ILint xo, ILint yo, ILint zo, ILuint w, ILuint h, ILuint d, ILuint bpp, ILuint bpc, ILimage *p) {
	ILuint x, y, z, s, px = bpp * bpc; ILubyte *src; unsigned long old, k, i, sold;
	long bx, by, bz; ILuint sx, sy, sz;
	small_enough(w, h, d, px);
	src = (ILubyte *)nd_buf("src", w * h * d * px);
	x = nd_rng("x", 0, W_ - 1); y = nd_rng("y", 0, H_ - 1); z = nd_rng("z", 0, D_ - 1); s = nd_rng("s", 0, px - 1);
	i = (((unsigned long)z * H_ + y) * W_ + x) * px + s;
	old = p->Data[i];
	sx = nd_rng("sx", 0, w - 1); sy = nd_rng("sy", 0, h - 1); sz = nd_rng("sz", 0, d - 1);
	k = (((unsigned long)sz * h + sy) * w + sx) * px + s;
	sold = src[k];
	STATE_OK; ilSetCurImage(p); ilDisable(IL_ORIGIN_SET);
	ilSetPixels(xo, yo, zo, w, h, d, fmt_of(bpp), typ_of(bpc), src);
	COVER("write");
	CHECK(src[k] == sold, "source block not changed");
	CHECK(p->Width == W_ && p->Height == H_ && p->Depth == D_ && p->Bpp == bpp && p->Bpc == bpc, "image size not changed");
	bx = (long)x - xo; by = (long)y - yo; bz = (long)z - zo;
	if (bx >= 0 && bx < (long)w && by >= 0 && by < (long)h && bz >= 0 && bz < (long)d)
		CHECK(p->Data[i] == src[(((unsigned long)bz * h + by) * w + bx) * px + s], "covered pixel equals the source pixel");
	else CHECK(p->Data[i] == old, "uncovered pixel keeps its value");
	ilSetCurImage(NULL); free(src); fr_img(p);
}
// sign cases: the prover splits negative and non-negative offsets into separate obligations
#ifdef SX
#define SGN(v, c) if (c) { ASSUME((v) < 0); } else { ASSUME((v) >= 0); }
#else
#define SX 0
#define SY 0
#define SZ 0
#define SGN(v, c)
#endif
#define SETUP ILuint bpp = S_BPP, bpc = S_BPC; ILimage *p = mk_img("data", bpp, bpc, fmt_of(bpp), typ_of(bpc));
H(H_row) { SETUP ILint xo = nd_i32s("xo", 45); ILuint w = nd_dim("bw", 4, 65); set_block(xo, 0, 0, w, 1, 1, bpp, bpc, p); }
H(H_plane) { SETUP ILint xo = nd_i32s("xo", 45), yo = nd_i32s("yo", 15); SGN(xo, SX) SGN(yo, SY) ILuint w = nd_dim("bw", 4, 65), h = nd_dim("bh", 4, 25); set_block(xo, yo, 0, w, h, 1, bpp, bpc, p); }
H(H_box) { SETUP ILint xo = nd_i32s("xo", 45), yo = nd_i32s("yo", 15), zo = nd_i32s("zo", 5); SGN(xo, SX) SGN(yo, SY) SGN(zo, SZ) ILuint w = nd_dim("bw", 4, 65), h = nd_dim("bh", 4, 25), d = nd_dim("bd", 3, 9); set_block(xo, yo, zo, w, h, d, bpp, bpc, p); }
