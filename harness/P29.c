// P29: lossless formats return the pixels that were saved.
#include "img.h"
#include "fmt.h"
static const ILenum FT[] = { IL_RAW, IL_TGA, IL_BMP, IL_SGI, IL_PNM };
// the colour of pixel x, y (from the top) as red, green, blue, alpha; 8 bits each
static void colour_of(const ILimage *p, ILuint x, ILuint y, ILuint *c) {
	ILuint row = p->Origin == IL_ORIGIN_UPPER_LEFT ? y : p->Height - 1 - y; const ILubyte *q = p->Data + row * p->Bps + x * p->Bpp; int i;
	c[3] = 255;
	if (p->Format == IL_COLOUR_INDEX) {
		ILuint n = p->Pal.PalType == IL_PAL_RGB24 || p->Pal.PalType == IL_PAL_BGR24 ? 3 : 4, b = p->Pal.PalType == IL_PAL_BGR24 || p->Pal.PalType == IL_PAL_BGR32 || p->Pal.PalType == IL_PAL_BGRA32;
		CHECK(q[0] * n + n <= p->Pal.PalSize, "the index is inside the palette");
		for (i = 0; i < 3; i++) c[i] = p->Pal.Palette[q[0] * n + (b ? 2 - i : i)];
	} else if (is_col(p->Format)) { for (i = 0; i < 3; i++) c[i] = q[pos(p->Format, i)]; if (has_alpha(p->Format)) c[3] = q[3]; }
	else { c[0] = c[1] = c[2] = q[0]; if (has_alpha(p->Format)) c[3] = q[1]; }
}
#if !defined(VRT_CBMC) && !defined(VRT_DV)
static void trip(int k) {
	ILuint w = nd_dim("w", 4, 40), h = nd_dim("h", 4, 12), n, m, m2, x, y, id, a[4], b[4], i, rle = nd_rng("rle", 0, 1), np; ILenum f; ILubyte *data, *lump; ILimage *p; ILboolean alpha;
	ilInit(); while (ilGetError() != IL_NO_ERROR) ;
	f = nd_rng("fmt", 0, 6) == 0 ? IL_COLOUR_INDEX : FM[nd_rng("f", 0, 5)];
	n = f == IL_COLOUR_INDEX ? 1 : bpp_of(f);
	ASSUME(k == 0 ? f == IL_RGB || f == IL_RGBA || f == IL_LUMINANCE : k == 1 || k == 2 ? f != IL_LUMINANCE_ALPHA : 1);
	if (k == 2 || k == 4) ASSUME(!has_alpha(f));
	id = ilGenImage(); ilBindImage(id);
	data = (ILubyte *)nd_buf("data", w * h * n); np = f == IL_COLOUR_INDEX ? nd_rng("np", 1, 256) : 0;
	if (nd_rng("runs", 0, 1)) { ILuint r = nd_rng("rl", 2, 200); for (i = n; i < w * h * n; i++) if ((i / n) % r) data[i] = data[i - n]; }
	if (np) for (i = 0; i < w * h; i++) data[i] %= np;
	CHECK(ilTexImage(w, h, 1, n, f, IL_UNSIGNED_BYTE, data), "image made");
	if (np) { ILubyte *pal = (ILubyte *)nd_buf("pal", np * 3); ilRegisterPal(pal, np * 3, nd_rng("bgr", 0, 1) ? IL_PAL_BGR24 : IL_PAL_RGB24); free(pal); }
	p = iCurImage; p->Origin = nd_rng("upper", 0, 1) ? IL_ORIGIN_UPPER_LEFT : IL_ORIGIN_LOWER_LEFT;
	ilSetInteger(IL_TGA_RLE, rle); ilSetInteger(IL_BMP_RLE, 0); ilSetInteger(IL_SGI_RLE, rle);
	while (ilGetError() != IL_NO_ERROR) ;
	m = ilDetermineSize(FT[k]); CHECK(m > 0, "the size can be predicted");
	lump = (ILubyte *)malloc(m);
	m2 = ilSaveL(FT[k], lump, m);
	CHECK(m2 == m, "the bytes saved are the size predicted");
	CHECK(iCurImage == p && p->Width == w && p->Height == h && p->Format == f && !memcmp(p->Data, data, w * h * n), "saving leaves the image as it was");
	{ ILuint id2 = ilGenImage(); ILimage *q; ilBindImage(id2);
	CHECK(ilLoadL(FT[k], lump, m2), "loaded"); q = iCurImage; COVER("trip");
	CHECK(q->Width == w && q->Height == h && q->Depth == 1 && q->Bpc == 1, "the same size");
	if (k == 0) q->Origin = p->Origin;
	for (y = 0; y < h; y++) for (x = 0; x < w; x++) { colour_of(p, x, y, a); colour_of(q, x, y, b); for (i = 0; i < 4; i++) CHECK(a[i] == b[i], "every pixel has the same colour"); }
	if (k < 2 && !(k == 1 && rle)) {   // cut off inside the pixel data
		ILuint cut = nd_rng("cut", 0, (k == 0 ? 14 : 18) + w * h * n - 1); ILubyte *part = (ILubyte *)malloc(cut + 1); memcpy(part, lump, cut);
		CHECK(!ilLoadL(FT[k], part, cut), "a file that ends early is not loaded"); COVER("cut"); free(part); }
	ilDeleteImage(id2); }
	ilDeleteImage(id); free(data); free(lump);
}
H(H_raw) { trip(0); }
H(H_tga) { trip(1); }
H(H_bmp) { trip(2); }
H(H_sgi) { trip(3); }
H(H_pnm) { trip(4); }
#endif
#ifdef VRT_DV
#ifndef BC
#define BC 1
#endif
extern const void *ReadLump; extern void *WriteLump; extern ILuint ReadLumpPos, ReadLumpSize, WriteLumpPos, WriteLumpSize;
extern "C" {
__attribute__((used)) ILboolean s_true(void) { return IL_TRUE; }
__attribute__((used)) ILint s_rle(ILenum m) { (void)m; return IL_FALSE; }   // run-length encoding off
__attribute__((used)) ILuint s_len(const char *s) { return !s ? 0 : s[0] == 'T' ? 17 : s[0] == 'D' ? 33 : 0; }   // the lengths of the footer and of the software id; no other strings
__attribute__((used)) char *s_string(ILenum m) { (void)m; return (char *)calloc(1, 4); }   // no comments
// contracts of iWriteLump and iReadLump inside the memory block (P17)
__attribute__((used)) ILint ILAPIENTRY c_write(const void *b, ILuint s, ILuint n) {
	ILuint k = s * n;
	CHECK(k <= WriteLumpSize - WriteLumpPos, "the output fits");
	memcpy((ILubyte *)WriteLump + WriteLumpPos, b, k); WriteLumpPos += k;
	return k;
}
__attribute__((used)) ILuint ILAPIENTRY c_read(void *b, const ILuint s, const ILuint n) {
	ILuint k = s * n;
	CHECK(k <= ReadLumpSize - ReadLumpPos, "the input is long enough");
	memcpy(b, (ILubyte *)ReadLump + ReadLumpPos, k); ReadLumpPos += k;
	return n;
}
__attribute__((used)) ILint ILAPIENTRY c_putc(ILubyte c) { CHECK(WriteLumpPos < WriteLumpSize, "the output fits"); ((ILubyte *)WriteLump)[WriteLumpPos++] = c; return c; }
__attribute__((used)) ILint ILAPIENTRY c_getc(void) { CHECK(ReadLumpPos < ReadLumpSize, "the input is long enough"); return ((const ILubyte *)ReadLump)[ReadLumpPos++]; }
__attribute__((used)) void c_pad(ILuint n) { CHECK(n <= WriteLumpSize - WriteLumpPos, "the output fits"); memset((ILubyte *)WriteLump + WriteLumpPos, 0, n); WriteLumpPos += n; }
}
ILboolean iSaveRawInternal(); ILboolean iLoadRawInternal(); ILboolean iSaveTargaInternal(); ILboolean iLoadTargaInternal(); extern ILuint ilCurrentPos;
extern "C" { void iSetInputLump(const void *Lump, ILuint Size); void iSetOutputLump(void *Lump, ILuint Size); }
// raw images of any size: what is saved into memory and loaded again has the same bytes
H(H_rawany) {
	ILimage *p = mk_img("src", NB, BC, NB == 1 ? IL_LUMINANCE : NB == 3 ? IL_RGB : IL_RGBA, BC == 1 ? IL_UNSIGNED_BYTE : BC == 2 ? IL_UNSIGNED_SHORT : IL_UNSIGNED_INT), *q = mk_img0("old", 1, 1, 1, 1, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE);
	ILuint n, o, sz = p->SizeOfData; ILubyte *lump;
	ASSUME(sz <= 0x7fffff00u && ilCurrentPos < 32);
	lump = (ILubyte *)nd_buf("lump", sz + 14);
	iSetOutputLump(lump, sz + 14); iCurImage = p;
	CHECK(iSaveRawInternal(), "saved");
	CHECK(itellw() == sz + 14, "header and data");
	iSetInputLump(lump, sz + 14); iCurImage = q;
	if (!iLoadRawInternal()) { COVER("refused"); return; }
	COVER("loaded");
	CHECK(q->Width == W_ && q->Height == H_ && q->Depth == D_ && q->Bpp == NB && q->Bpc == BC && q->SizeOfData == sz, "the same size");
	CHECK(q->Format == p->Format, "the same format");
	o = nd_u32("o"); ASSUME(o < sz);
	CHECK(q->Data[o] == p->Data[o], "the same bytes");
}
// Targa images of any size, uncompressed
H(H_tgaany) {
	ILenum f = NB == 1 ? IL_LUMINANCE : NB == 3 ? IL_BGR : IL_BGRA; ILimage *p = mk_img("src", NB, 1, f, IL_UNSIGNED_BYTE), *q = mk_img0("old", 1, 1, 1, 1, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE);
	ILuint o, sz = p->SizeOfData; ILubyte *lump;
	ASSUME(W_ <= 0xffffu && H_ <= 0xffffu && D_ == 1 && sz <= 0x7ffff000u && p->Origin == IL_ORIGIN_LOWER_LEFT && ilCurrentPos < 32);
	lump = (ILubyte *)nd_buf("lump", sz + 1024);
	iSetOutputLump(lump, sz + 1024); iCurImage = p;
	if (!iSaveTargaInternal()) { COVER("not saved"); return; }
	COVER("saved");
	CHECK(p->Width == W_ && p->Height == H_ && p->Format == f, "the image is unchanged");
	CHECK(itellw() >= sz + 18, "header and data");
	iSetInputLump(lump, itellw()); iCurImage = q;
	if (!iLoadTargaInternal()) { COVER("refused"); return; }
	COVER("loaded");
	CHECK(q->Width == W_ && q->Height == H_ && q->Depth == 1 && q->Bpp == NB && q->Bpc == 1 && q->SizeOfData == sz, "the same size");
	CHECK(q->Format == f && q->Origin == p->Origin, "the same format and origin");
	o = nd_u32("o"); ASSUME(o < sz);
	CHECK(q->Data[o] == p->Data[o], "the same bytes");
}
#endif
