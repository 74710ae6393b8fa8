// P18: byte order helpers. Streams are lumps of arbitrary bytes.
#include "img.h"
#include "il_files.h"
#include "il_endian.h"
static ILubyte B[24], S[24];
static void fill(ILubyte *b, const char *n) { int i; for (i = 0; i < 24; i++) b[i] = nd_u8("byte"); }
static ILuint off_(void) { return nd_rng("off", 0, 8); }
static unsigned long le(const ILubyte *b, int n) { unsigned long v = 0; int i; for (i = 0; i < n; i++) v |= (unsigned long)b[i] << (8 * i); return v; }
static unsigned long be(const ILubyte *b, int n) { unsigned long v = 0; int i; for (i = 0; i < n; i++) v = v << 8 | b[i]; return v; }
static unsigned long fbits(float f) { unsigned int u; memcpy(&u, &f, 4); return u; }
static unsigned long dbits(double f) { unsigned long u; memcpy(&u, &f, 8); return u; }
static ILuint open_r(void) { ILuint o = off_(); fill(B, "b"); iSetInputLump(B, 24); iseek(o, IL_SEEK_SET); return o; }
#define RD(fn, bits, ord, n) { ILuint o = open_r(); unsigned long v = bits(fn()); COVER(#fn); CHECK(v == ord(B + o, n), #fn " value"); CHECK(itell() == o + n, #fn " consumes exactly its bytes"); }
#define U16(x) ((unsigned long)(ILushort)(x))
#define U32(x) ((unsigned long)(ILuint)(x))
H(H_get16) { RD(GetLittleUShort, U16, le, 2) RD(GetLittleShort, U16, le, 2) RD(GetBigUShort, U16, be, 2) RD(GetBigShort, U16, be, 2) }
H(H_get32) { RD(GetLittleUInt, U32, le, 4) RD(GetLittleInt, U32, le, 4) RD(GetBigUInt, U32, be, 4) RD(GetBigInt, U32, be, 4) }
H(H_getflt) { RD(GetLittleFloat, fbits, le, 4) RD(GetBigFloat, fbits, be, 4) RD(GetLittleDouble, dbits, le, 8) RD(GetBigDouble, dbits, be, 8) }
static ILuint open_w(void) { ILuint o = off_(); fill(B, "b"); memcpy(S, B, 24); iSetOutputLump(B, 24); iseekw(o, IL_SEEK_SET); return o; }
#define WR(fn, T, v, bits, ord, n) { ILuint o = open_w(), w = nd_rng("w", 0, 23); T x = v; fn(x); COVER(#fn); CHECK(ord(B + o, n) == bits(x), #fn " emits the value"); CHECK(itellw() == o + n, #fn " emits exactly its bytes"); if (w < o || w >= o + n) CHECK(B[w] == S[w], #fn " writes nothing else"); }
H(H_save16) { WR(SaveLittleUShort, ILushort, nd_u16("v"), U16, le, 2) WR(SaveLittleShort, ILshort, (ILshort)nd_u16("v"), U16, le, 2) WR(SaveBigUShort, ILushort, nd_u16("v"), U16, be, 2) WR(SaveBigShort, ILshort, (ILshort)nd_u16("v"), U16, be, 2) }
H(H_save32) { WR(SaveLittleUInt, ILuint, nd_u32("v"), U32, le, 4) WR(SaveLittleInt, ILint, nd_i32("v"), U32, le, 4) WR(SaveBigUInt, ILuint, nd_u32("v"), U32, be, 4) WR(SaveBigInt, ILint, nd_i32("v"), U32, be, 4) }
H(H_saveflt) { WR(SaveLittleFloat, ILfloat, nd_f32("v"), fbits, le, 4) WR(SaveBigFloat, ILfloat, nd_f32("v"), fbits, be, 4) WR(SaveLittleDouble, ILdouble, nd_f64("v"), dbits, le, 8) WR(SaveBigDouble, ILdouble, nd_f64("v"), dbits, be, 8) }
// byte swapping: reversal of exactly the bytes of the value, hence self-inverse
#define SW(fn, T, n) { ILuint o = nd_rng("o", 0, 1) * 8, w = nd_rng("w", 0, 23); int i; fill(B, "b"); memcpy(S, B, 24); fn((T *)(B + o)); COVER(#fn); for (i = 0; i < n; i++) CHECK(B[o + i] == S[o + n - 1 - i], #fn " reverses the bytes"); if (w < o || w >= o + n) CHECK(B[w] == S[w], #fn " touches nothing else"); fn((T *)(B + o)); for (i = 0; i < n; i++) CHECK(B[o + i] == S[o + i], #fn " is its own inverse"); }
H(H_swap) { SW(iSwapUShort, ILushort, 2) SW(iSwapShort, ILshort, 2) SW(iSwapUInt, ILuint, 4) SW(iSwapInt, ILint, 4) SW(iSwapFloat, ILfloat, 4) SW(iSwapDouble, ILdouble, 8) }
// read back what was written
#define RT(sv, gt, T, v, bits) { ILuint o = open_w(); T x = v; sv(x); iSetInputLump(B, 24); iseek(o, IL_SEEK_SET); CHECK(bits(gt()) == bits(x), #sv "/" #gt " round trip"); }
H(H_round) { COVER("round"); RT(SaveLittleUShort, GetLittleUShort, ILushort, nd_u16("v"), U16) RT(SaveBigShort, GetBigShort, ILshort, (ILshort)nd_u16("v"), U16) RT(SaveLittleInt, GetLittleInt, ILint, nd_i32("v"), U32) RT(SaveBigUInt, GetBigUInt, ILuint, nd_u32("v"), U32)
	RT(SaveLittleFloat, GetLittleFloat, ILfloat, nd_f32("v"), fbits) RT(SaveBigFloat, GetBigFloat, ILfloat, nd_f32("v"), fbits) RT(SaveLittleDouble, GetLittleDouble, ILdouble, nd_f64("v"), dbits) RT(SaveBigDouble, GetBigDouble, ILdouble, nd_f64("v"), dbits) }
