// P19: half-float conversion, over all bit patterns. Values are compared as
// exact integers: |half| * 2^24 and |float| * 2^48 (for the range that matters).
#include "vrt.h"
#ifdef __cplusplus
extern "C" {
#endif
ILushort ILAPIENTRY ilFloatToHalf(ILuint i);
ILuint ILAPIENTRY ilHalfToFloat(ILushort y);
ILfloat ilFloatToHalfOverflow();
#ifdef __cplusplus
}
#endif
typedef unsigned long u64;
static u64 hv(unsigned h) { unsigned e = h >> 10 & 31, m = h & 1023; return e ? (u64)(m | 1024) << (e - 1) : m; }   // h finite
static int hnan(unsigned h) { return (h & 0x7fff) > 0x7c00; }
static int fnan_(unsigned f) { return (f & 0x7fffffff) > 0x7f800000u; }
static u64 dist(u64 a, u64 b) { return a > b ? a - b : b - a; }
// half -> float is exact
static void half_exact(unsigned h, unsigned f) {
	unsigned E = f >> 23 & 255, M = f & 0x7fffff;
	CHECK(f >> 31 == h >> 15, "sign kept");
	if (hnan(h)) CHECK(fnan_(f), "NaN stays NaN");
	else if ((h & 0x7fff) == 0x7c00) CHECK((f & 0x7fffffff) == 0x7f800000u, "infinity stays infinity");
	else if ((h & 0x7fff) == 0) CHECK((f & 0x7fffffff) == 0, "zero stays zero");
	else { CHECK(E >= 103 && E <= 142, "finite value in range"); if (E >= 103 && E <= 142) CHECK((u64)(M | 0x800000) << (E - 102) == hv(h) << 24, "value exact"); }
}
H(H_h2f) { unsigned h = nd_u16("h"); COVER("h2f"); half_exact(h, ilHalfToFloat((ILushort)h)); }
H(H_roundtrip) {
	unsigned h = nd_u16("h"), r; r = ilFloatToHalf(ilHalfToFloat((ILushort)h));
	COVER("round"); CHECK(r == h, "back to the same half");
}
static void nearest(unsigned f, unsigned h) {
	unsigned a = f & 0x7fffffff, E = a >> 23, M = a & 0x7fffff, x = h & 0x7fff;
	if (fnan_(f)) { CHECK(hnan(h), "NaN stays NaN"); return; }
	CHECK(!hnan(h), "a number stays a number");
	CHECK(h >> 15 == f >> 31, "same sign");
	if (a > 0x477ff000u) { CHECK(x == 0x7c00, "overflow gives infinity"); return; }            // > 65520
	if (a < 0x33000000u) { CHECK(x == 0, "below half the least subnormal gives zero"); return; } // < 2^-25
	if (x == 0x7c00) { CHECK(a == 0x477ff000u, "infinity only from overflow"); return; }
	{
		u64 v = (u64)(M | 0x800000) << (E - 102), c = hv(x) << 24, d = dist(v, c);   // E in 102..142
		if (x > 0) CHECK(d <= dist(v, hv(x - 1) << 24), "no closer half below");
		if (x < 0x7bff) CHECK(d <= dist(v, hv(x + 1) << 24), "no closer half above");
		else CHECK(v <= (u64)65520 << 48 , "largest half only up to the midpoint");
	}
}
H(H_f2h) { unsigned f = nd_u32("f"); COVER("f2h"); nearest(f, ilFloatToHalf(f)); }
// order: compare as sign-magnitude integers
static long ford(unsigned f) { return f >> 31 ? -(long)(f & 0x7fffffff) : (long)f; }
static long hord(unsigned h) { return h >> 15 ? -(long)(h & 0x7fff) : (long)h; }
H(H_order) {
	unsigned f = nd_u32("f"), g = nd_u32("g"); ASSUME(!fnan_(f) && !fnan_(g) && ford(f) <= ford(g));
	COVER("order"); CHECK(hord(ilFloatToHalf(f)) <= hord(ilFloatToHalf(g)), "order preserved");
}
#if !defined(VRT_CBMC) && !defined(VRT_DV)
// dense native search near rounding boundaries
H(H_near) { unsigned h = nd_u16("h"), f = ilHalfToFloat((ILushort)h), d = nd_rng("d", 0, 3), k = nd_rng("k", 0, 23); COVER("near"); f += (d & 1 ? 1u : -1u) * (d & 2 ? 1u << k : nd_rng("j", 0, 0x2000)); nearest(f, ilFloatToHalf(f)); }
#endif
