// P26: size tables. Each answer against the documented values, for every enum value.
#include "img.h"
static ILenum nd_enum(const char *n, ILenum lo, ILenum hi) {
#ifdef VRT_CBMC
	return nd_u32(n);
#else
	return nd_rng("near", 0, 9) ? nd_rng(n, lo - 2, hi + 2) : nd_u32(n);
#endif
}
static int fbpp(ILenum f) { return f == IL_COLOUR_INDEX || f == IL_LUMINANCE || f == IL_ALPHA ? 1 : f == IL_LUMINANCE_ALPHA ? 2 : f == IL_RGB || f == IL_BGR ? 3 : f == IL_RGBA || f == IL_BGRA ? 4 : 0; }
static int tbpc(ILenum t) { return t == IL_BYTE || t == IL_UNSIGNED_BYTE ? 1 : t == IL_SHORT || t == IL_UNSIGNED_SHORT || t == IL_HALF ? 2 : t == IL_INT || t == IL_UNSIGNED_INT || t == IL_FLOAT ? 4 : t == IL_DOUBLE ? 8 : 0; }
static int pbpp(ILenum p) { return p == IL_PAL_RGB24 || p == IL_PAL_BGR24 ? 3 : p == IL_PAL_RGB32 || p == IL_PAL_RGBA32 || p == IL_PAL_BGR32 || p == IL_PAL_BGRA32 ? 4 : 0; }
static ILenum pbase(ILenum p) { return p == IL_PAL_RGB24 ? IL_RGB : p == IL_PAL_BGR24 ? IL_BGR : p == IL_PAL_RGB32 || p == IL_PAL_RGBA32 ? IL_RGBA : p == IL_PAL_BGR32 || p == IL_PAL_BGRA32 ? IL_BGRA : 0; }
H(H_format) {
	ILenum f = nd_enum("format", IL_COLOUR_INDEX, IL_LUMINANCE_ALPHA); ILubyte b = ilGetBppFormat(f);
	COVER("format");
	CHECK(b == fbpp(f), "channels of a format");
	if (b) CHECK(ilGetBppFormat(ilGetFormatBpp(b)) == b, "format for a channel count has that many channels");
}
H(H_formatbpp) {
	ILubyte b = nd_u8("bpp"); ILenum f = ilGetFormatBpp(b);
	COVER("bpp");
	CHECK(f == (b == 1 ? IL_LUMINANCE : b == 2 ? IL_LUMINANCE_ALPHA : b == 3 ? IL_RGB : b == 4 ? IL_RGBA : 0), "format for a channel count");
	if (f) CHECK(ilGetBppFormat(f) == b, "agrees with the channels of the format");
}
H(H_type) {
	ILenum t = nd_enum("type", IL_BYTE, IL_HALF); ILubyte b = ilGetBpcType(t);
	COVER("type");
	CHECK(b == tbpc(t), "bytes of a sample type");
	if (b) CHECK(ilGetBpcType(ilGetTypeBpc(b)) == b, "type for a sample size has that size");
}
H(H_typebpc) {
	ILubyte b = nd_u8("bpc"); ILenum t = ilGetTypeBpc(b);
	COVER("bpc");
	CHECK(t == (b == 1 ? IL_UNSIGNED_BYTE : b == 2 ? IL_UNSIGNED_SHORT : b == 4 ? IL_UNSIGNED_INT : b == 8 ? IL_DOUBLE : 0), "type for a sample size");
	if (t) CHECK(ilGetBpcType(t) == b, "agrees with the bytes of the type");
}
H(H_pal) {
	ILenum p = nd_enum("pal", IL_PAL_NONE, IL_PAL_BGRA32); ILubyte b = ilGetBppPal(p); ILenum base = ilGetPalBaseType(p);
	COVER("pal");
	CHECK(b == pbpp(p), "bytes of a palette entry");
	CHECK(base == pbase(p), "base format of a palette type");
	CHECK(ilGetBppFormat(base) == b, "palette entry size is that of its base format");
}
H(H_pow2) {
	ILuint n = nd_u32("n"), r;
	ASSUME(n <= 0x80000000u);
	r = ilNextPower2(n);
	COVER("pow2");
	CHECK(r != 0 && (r & (r - 1)) == 0, "a power of two");
	CHECK(r >= n && (r == 1 || r / 2 < n), "the smallest one not below the argument");
}
// the same facts through the public query on an arbitrary image
H(H_query) {
	ILimage im; ILuint e = nd_rng("entries", 0, 300), bpp = nd_rng("bpp", 1, 4), bpc = 1u << nd_rng("bpc", 0, 3); ILimage *old = ilGetCurImage(); ILenum pt = nd_rng("pal", IL_PAL_NONE, IL_PAL_BGRA32);
	ILubyte dummy[4]; ILint a, b, c, d, n, pb;
	memset(&im, 0, sizeof(im));
	im.Bpp = (ILubyte)bpp; im.Bpc = (ILubyte)bpc; im.Pal.PalType = pt; im.Pal.PalSize = e * pbpp(pt); im.Pal.Palette = e && pbpp(pt) ? dummy : NULL;
	ilSetCurImage(&im);
	a = ilGetInteger(IL_IMAGE_BITS_PER_PIXEL); b = ilGetInteger(IL_IMAGE_BYTES_PER_PIXEL); c = ilGetInteger(IL_IMAGE_CHANNELS); d = ilGetInteger(IL_IMAGE_BPC);
	n = ilGetInteger(IL_PALETTE_NUM_COLS); pb = ilGetInteger(IL_PALETTE_BPP);
	COVER("query");
	CHECK(c == (ILint)bpp && d == (ILint)bpc && b == c * d && a == 8 * b, "pixel sizes agree");
	CHECK(pb == pbpp(pt), "palette entry size");
	CHECK((ILenum)ilGetInteger(IL_PALETTE_BASE_TYPE) == pbase(pt), "palette base format");
	CHECK((ILenum)ilGetInteger(IL_PALETTE_TYPE) == pt, "palette type");
	CHECK(n == (pbpp(pt) ? (ILint)e : 0), "number of palette entries");
	CHECK(ilGetBppFormat(ilGetInteger(IL_PALETTE_BASE_TYPE)) == pb, "base format and entry size agree");
	ilSetCurImage(old);
}
