// P21: texture blocks.
#include "img.h"
#if defined(VRT_CBMC) || defined(VRT_DV)
#include "x_il_dds.cpp"
#else
#include "il_dds.h"
#endif
#ifdef KIND
#define S_KIND KIND
#else
#define S_KIND nd_rng("kind", 0, 4)
#endif
enum { DXT1, DXT3, DXT5, A1N, D3C };
static ILuint size_of(int k) { return k == DXT1 || k == A1N ? 8 : 16; }
static ILuint chan_of(int k) { return k == A1N ? 1 : k == D3C ? 3 : 4; }
static ILuint ex5(ILuint v) { return (v << 3) | (v >> 2); }
static ILuint ex6(ILuint v) { return (v << 2) | (v >> 4); }
static ILuint comp(const ILubyte *b, ILuint c) { ILuint w = b[0] | b[1] << 8; return c == 0 ? ex5(w >> 11) : c == 1 ? ex6((w >> 5) & 63) : ex5(w & 31); }
// channel c (0: red) of texel t = 4 * row + column of the colour block b
static ILuint colour(const ILubyte *b, ILuint t, ILuint c, int dxt1) {
	ILuint a = comp(b, c), d = comp(b + 2, c), code = (b[4 + t / 4] >> (2 * (t % 4))) & 3, four = !dxt1 || (b[0] | b[1] << 8) > (b[2] | b[3] << 8);
	switch (code) {
		case 0: return a;
		case 1: return d;
		case 2: return four ? (2 * a + d + 1) / 3 : (a + d) / 2;
		default: return four ? (a + 2 * d + 1) / 3 : 0;
	}
}
static ILuint opaque(const ILubyte *b, ILuint t) { return (b[0] | b[1] << 8) > (b[2] | b[3] << 8) || ((b[4 + t / 4] >> (2 * (t % 4))) & 3) != 3; }
// value v of texel t of the interpolated block b; slack: the distance from the exact value stays below one
static int ramp(const ILubyte *b, ILuint t, ILuint v, int slack) {
	ILuint i = 3 * t, code = ((b[2 + i / 8] | (i / 8 < 5 ? b[3 + i / 8] : 0) << 8) >> (i % 8)) & 7, n = b[0] > b[1] ? 7 : 5, e; ILint d;
	if (code == 0) return v == b[0];
	if (code == 1) return v == b[1];
	if (n == 5 && code >= 6) return v == (code == 6 ? 0u : 255u);
	if (!slack) {
		if (n == 7) switch (code) {
			case 2: return v == (ILubyte)((6 * b[0] + 1 * b[1] + 3) / 7);
			case 3: return v == (ILubyte)((5 * b[0] + 2 * b[1] + 3) / 7);
			case 4: return v == (ILubyte)((4 * b[0] + 3 * b[1] + 3) / 7);
			case 5: return v == (ILubyte)((3 * b[0] + 4 * b[1] + 3) / 7);
			case 6: return v == (ILubyte)((2 * b[0] + 5 * b[1] + 3) / 7);
			default: return v == (ILubyte)((1 * b[0] + 6 * b[1] + 3) / 7);
		}
		switch (code) {
			case 2: return v == (ILubyte)((4 * b[0] + 1 * b[1] + 2) / 5);
			case 3: return v == (ILubyte)((3 * b[0] + 2 * b[1] + 2) / 5);
			case 4: return v == (ILubyte)((2 * b[0] + 3 * b[1] + 2) / 5);
			default: return v == (ILubyte)((1 * b[0] + 4 * b[1] + 2) / 5);
		}
	}
	e = (n + 1 - code) * b[0] + (code - 1) * b[1];
	d = (ILint)(v * n) - (ILint)e;
	return d < (ILint)n && d > -(ILint)n;
}
// the pixel p of texel t of block b; the texel's channel c
static int texel_ok(int k, const ILubyte *b, ILuint t, const ILubyte *p, ILuint c) {
	ILint x, y, q, s;
	switch (k) {
		case DXT1: return p[c] == (c == 3 ? (opaque(b, t) ? 255u : 0u) : colour(b, t, c, 1));
		case DXT3: return p[c] == (c == 3 ? ((b[t / 2] >> (4 * (t % 2))) & 15) * 17u : colour(b + 8, t, c, 0));
		case DXT5: return c == 3 ? ramp(b, t, p[3], 0) : p[c] == colour(b + 8, t, c, 0);
		case A1N: return ramp(b, t, p[0], 1);
		default:
			if (c == 1) return ramp(b, t, p[1], 1);
			if (c == 0) return ramp(b + 8, t, p[0], 1);
			// the third component of the unit vector, 127.5 the zero: within the rounding of the integer square root (at most one too small)
			x = p[0]; y = p[1]; q = 127 * 128 - (x - 127) * (x - 128) - (y - 127) * (y - 128); s = (ILint)p[2] - 128;
			if (q <= 0) return p[2] == 127;
			return s >= 0 && s * s <= q && (s + 2) * (s + 2) > q;
	}
}
#if defined(VRT_CBMC) || defined(VRT_DV)
static ILboolean run(int k, ILimage *p, ILubyte *blk) {
	Image = p; CompData = blk; Width = p->Width; Height = p->Height; Depth = p->Depth;
	return k == DXT1 ? DecompressDXT1(p, blk) : k == DXT3 ? DecompressDXT3(p, blk) : k == DXT5 ? DecompressDXT5(p, blk) : k == A1N ? DecompressAti1n() : Decompress3Dc();
}
#ifdef VRT_CBMC
// whole images of a few sizes: the blocks are taken in order, each once
#define NB (((WW + 3) / 4) * ((HH + 3) / 4) * DD)
#define BS (KIND == DXT1 || KIND == A1N ? 8 : 16)
#define CH (KIND == A1N ? 1 : KIND == D3C ? 3 : 4)
static ILubyte DATA[WW * HH * DD * CH], BLK[NB * BS], BL0[NB * BS]; static ILimage IM;
H(H_image) {
	ILuint n = CH, hb = (HH + 3) / 4, wb = (WW + 3) / 4, i, px, py, pz, c; ILimage *p = &IM;
	p->Width = WW; p->Height = HH; p->Depth = DD; p->Bpp = n; p->Bpc = 1; p->Bps = WW * n; p->SizeOfPlane = p->Bps * HH; p->SizeOfData = p->SizeOfPlane * DD;
	p->Data = DATA; p->Type = IL_UNSIGNED_BYTE; p->Format = n == 4 ? IL_RGBA : n == 3 ? IL_RGB : IL_LUMINANCE;
	for (i = 0; i < NB * BS; i++) BL0[i] = BLK[i] = nd_u8("b");
	CHECK(run(KIND, p, BLK), "decoded");
	px = nd_rng("px", 0, WW - 1); py = nd_rng("py", 0, HH - 1); pz = nd_rng("pz", 0, DD - 1); c = nd_rng("c", 0, n - 1);
#ifdef CC
	ASSUME(c == CC); c = CC;
#endif
	CHECK(texel_ok(KIND, BL0 + ((pz * hb + py / 4) * wb + px / 4) * BS, py % 4 * 4 + px % 4, DATA + pz * p->SizeOfPlane + py * p->Bps + px * n, c), "every texel has the value its block defines");
	COVER("image");
}
#endif
#elif !defined(VRT_DV)
static void check_all(int k, const ILubyte *blk, const ILimage *p, ILuint w, ILuint h, ILuint d) {
	ILuint x, y, z, c, n = chan_of(k), hb = (h + 3) / 4, wb = (w + 3) / 4;
	for (z = 0; z < d; z++) for (y = 0; y < h; y++) for (x = 0; x < w; x++) for (c = 0; c < n; c++)
		CHECK(texel_ok(k, blk + ((z * hb + y / 4) * wb + x / 4) * size_of(k), y % 4 * 4 + x % 4, p->Data + z * p->SizeOfPlane + y * p->Bps + x * n, c), "every texel has the value its block defines");
}
static void vary(ILubyte *b, ILuint n) { ILuint i; if (nd_rng("vary", 0, 2) == 0) for (i = 0; i < n; i++) if (nd_rng("v", 0, 3) == 0) b[i] = (ILubyte)(nd_rng("vv", 0, 1) ? 255 : 0); if (nd_rng("eq", 0, 3) == 0) for (i = 0; i + 16 <= n; i += 8) { b[i] = b[i + 2]; b[i + 1] = b[i + 3]; } }
// the decompressors of surfaces on exact buffers
H(H_image) {
	int k = (int)nd_rng("kind", 0, 2); ILimage *p; ILubyte *b, *b0; ILuint n;
	p = mk_img("img", 4, 1, IL_RGBA, IL_UNSIGNED_BYTE);
	n = ((W_ + 3) / 4) * ((H_ + 3) / 4) * D_ * size_of(k); b = (ILubyte *)nd_buf("blk", n); vary(b, n); b0 = (ILubyte *)malloc(n); memcpy(b0, b, n);
	CHECK(k == DXT1 ? DecompressDXT1(p, b) : k == DXT3 ? DecompressDXT3(p, b) : DecompressDXT5(p, b), "decoded"); COVER("image");
	CHECK(!memcmp(b, b0, n), "the blocks are not changed");
	check_all(k, b0, p, W_, H_, D_);
	fr_img(p); free(b); free(b0);
}
static void le(ILubyte *p, ILuint v) { p[0] = (ILubyte)v; p[1] = (ILubyte)(v >> 8); p[2] = (ILubyte)(v >> 16); p[3] = (ILubyte)(v >> 24); }
// through the loader: .dds files with and without a linear size, volumes
H(H_dds) {
	int k = S_KIND; ILuint w = nd_dim("w", 4, 40), h = nd_dim("h", 4, 12), d = nd_rng("d", 1, 3), n = ((w + 3) / 4) * ((h + 3) / 4) * d * size_of(k), id, ns, lin = nd_rng("lin", 0, 1); ILubyte *f, *b; ILimage *p;
	static const char *FCC[] = { "DXT1", "DXT3", "DXT5", "ATI1", "ATI2" };
	ILenum e;
	ilInit(); while (ilGetError() != IL_NO_ERROR) ;
	b = (ILubyte *)nd_buf("blk", n); vary(b, n);
	f = (ILubyte *)calloc(1, 128 + n); memcpy(f, "DDS ", 4); le(f + 4, 124); le(f + 8, 0x1007 | (lin ? 0x80000 : 0) | (d > 1 ? 0x800000 : 0)); le(f + 12, h); le(f + 16, w); le(f + 20, lin ? n / d : 0); le(f + 24, d);
	le(f + 76, 32); le(f + 80, 4); memcpy(f + 84, FCC[k], 4); le(f + 108, 0x1000 | (d > 1 ? 8 : 0)); le(f + 112, d > 1 ? 0x200000 : 0); memcpy(f + 128, b, n);
	id = ilGenImage(); ilBindImage(id); ns = nd_rng("keep", 0, 1); ilSetInteger(IL_KEEP_DXTC_DATA, (ILint)ns);
	CHECK(ilLoadL(IL_DDS, f, 128 + n), "loaded"); COVER("dds");
	e = ilGetError(); CHECK(e == IL_NO_ERROR, "without an error");
	p = iCurImage;
	CHECK(p->Width == w && p->Height == h && p->Depth == d && p->Bpp == chan_of(k) && p->Bpc == 1 && p->SizeOfData == w * h * d * chan_of(k), "the size of the image");
	check_all(k, b, p, w, h, d);
	ilSetInteger(IL_KEEP_DXTC_DATA, IL_FALSE); ilDeleteImage(id); free(b); free(f);
}
#endif
#ifdef VRT_DV
// One block of an image of any size: the loops over the blocks start there and end after one block (see the
// substitutions in checks/P21.py). An image is the sequence of its blocks.
H(H_any) {
	int k = S_KIND; ILimage *p; ILubyte *b; ILuint x, y, z, n = chan_of(k);
	p = mk_img("img", n, 1, n == 4 ? IL_RGBA : n == 3 ? IL_RGB : IL_LUMINANCE, IL_UNSIGNED_BYTE);
	b = (ILubyte *)nd_buf("blk", size_of(k));
	x = nd_u32("bx"); y = nd_u32("by"); z = nd_u32("bz");
	ASSUME(x < W_ && y < H_ && z < D_);
	st_x = x; st_y = y; st_z = z; st_left = 1;
	CHECK(run(k, p, b), "decoded: reads and writes stay inside the block and the image"); COVER("block");
}
#endif
