// P06: reading a block of pixels in the image's own format and type.
#include "case.h"
static void copy_block(ILuint xo, ILuint yo, ILuint zo, ILuint w, ILuint h, ILuint d, ILuint bpp, ILuint bpc, ILimage *p) {
	ILuint x, y, z, s, px = bpp * bpc, r; ILubyte *dst; unsigned long old, k, i, j;
	ILuint ix, iy, iz; unsigned long iold;
	small_enough(w, h, d, px);
	dst = (ILubyte *)nd_buf("dst", w * h * d * px);
	x = nd_rng("x", 0, w - 1); y = nd_rng("y", 0, h - 1); z = nd_rng("z", 0, d - 1); s = nd_rng("s", 0, px - 1);
	k = (((unsigned long)z * h + y) * w + x) * px + s;
	old = dst[k];
	ix = nd_rng("ix", 0, W_ - 1); iy = nd_rng("iy", 0, H_ - 1); iz = nd_rng("iz", 0, D_ - 1);
	i = (((unsigned long)iz * H_ + iy) * W_ + ix) * px + s;
	iold = p->Data[i];
	STATE_OK; ilSetCurImage(p); ilDisable(IL_ORIGIN_SET);
	r = ilCopyPixels(xo, yo, zo, w, h, d, fmt_of(bpp), typ_of(bpc), dst);
	COVER("read");
	CHECK(p->Data[i] == iold, "image not changed");
	CHECK(p->Width == W_ && p->Height == H_ && p->Depth == D_, "image size not changed");
	if (xo < W_ && yo < H_ && zo < D_) {
		CHECK(r == w * h * d * px, "returns the number of bytes of the block");
		if (x < W_ - xo && y < H_ - yo && z < D_ - zo) {
			j = (((unsigned long)(z + zo) * H_ + (y + yo)) * W_ + (x + xo)) * px + s;
			CHECK(dst[k] == p->Data[j], "block position holds the image pixel");
		} else CHECK(dst[k] == old, "position beyond the image edge untouched");
	} else CHECK(dst[k] == old, "block outside the image: destination untouched");
	ilSetCurImage(NULL); free(dst); fr_img(p);
}
#define SETUP ILuint bpp = S_BPP, bpc = S_BPC; ILimage *p = mk_img("data", bpp, bpc, fmt_of(bpp), typ_of(bpc));
H(H_row) { SETUP ILuint xo = nd_u32s("xo", 45), w = nd_dim("bw", 4, 45); copy_block(xo, 0, 0, w, 1, 1, bpp, bpc, p); }
H(H_plane) { SETUP ILuint xo = nd_u32s("xo", 45), yo = nd_u32s("yo", 15), w = nd_dim("bw", 4, 45), h = nd_dim("bh", 4, 15); copy_block(xo, yo, 0, w, h, 1, bpp, bpc, p); }
H(H_box) { SETUP ILuint xo = nd_u32s("xo", 45), yo = nd_u32s("yo", 15), zo = nd_u32s("zo", 5), w = nd_dim("bw", 4, 45), h = nd_dim("bh", 4, 15), d = nd_dim("bd", 3, 5); copy_block(xo, yo, zo, w, h, d, bpp, bpc, p); }
