// P10: sample type conversion.
#include "case.h"
#define NT 9
static const ILenum TY[NT] = { IL_UNSIGNED_BYTE, IL_UNSIGNED_SHORT, IL_UNSIGNED_INT, IL_FLOAT, IL_DOUBLE, IL_HALF, IL_BYTE, IL_SHORT, IL_INT };
void *ILAPIENTRY iSwitchTypes(ILuint SizeOfData, ILenum SrcType, ILenum DestType, void *Buffer);
static ILuint bc(ILenum t) { return t == IL_BYTE || t == IL_UNSIGNED_BYTE ? 1 : t == IL_SHORT || t == IL_UNSIGNED_SHORT || t == IL_HALF ? 2 : t == IL_DOUBLE ? 8 : 4; }
static void put_s(void *p, ILuint bpc, unsigned long i, unsigned long v) {
	switch (bpc) { case 1: ((ILubyte *)p)[i] = (ILubyte)v; break; case 2: ((ILushort *)p)[i] = (ILushort)v; break; case 4: ((ILuint *)p)[i] = (ILuint)v; break; default: ((unsigned long *)p)[i] = v; }
}
static ILfloat bits_f(unsigned long u) { union { ILuint u; ILfloat f; } x; x.u = (ILuint)u; return x.f; }
static ILdouble bits_d(unsigned long u) { union { unsigned long u; ILdouble d; } x; x.u = u; return x.d; }
#ifdef ST
#define S_ST TY[ST]
#define S_DT TY[DT]
#else
#define ST 0
#define S_ST TY[nd_rng("st", 0, NTV - 1)]
#define S_DT TY[nd_rng("dt", 0, NTV - 1)]
#endif
// every sample of a buffer of any length is converted, each the way a lone sample is
#define NTV 9
H(H_each) {
	ILenum s = S_ST, d = S_DT; ILuint n = nd_dim("n", 3, 90), k, i; ILubyte *b, one[8], *r, *r1; unsigned long old;
	ASSUME(s != d); small_enough(n, 8, 1, 1);
	b = (ILubyte *)nd_buf("data", n * bc(s));
	k = nd_rng("k", 0, n - 1); i = nd_rng("i", 0, n - 1); old = get_s(b, bc(s), i);
	put_s(one, bc(s), 0, get_s(b, bc(s), k));
	r1 = (ILubyte *)iSwitchTypes(bc(s), s, d, one); ASSUME(r1 != NULL);
	r = (ILubyte *)iSwitchTypes(n * bc(s), s, d, b);
	if (r != NULL) {
		COVER("converted");
		CHECK(r != b, "a new buffer");
		CHECK(get_s(r, bc(d), k) == get_s(r1, bc(d), 0), "sample k is converted like a lone sample of the same value");
		ifree(r);
	}
	CHECK(get_s(b, bc(s), i) == old, "source unchanged");
	ifree(r1); free(b);
}
#undef NTV
#define NTV 6
static int is_int(ILenum t) { return t != IL_FLOAT && t != IL_DOUBLE && t != IL_HALF; }
static unsigned long full(ILenum t) {
	switch (t) { case IL_FLOAT: return 0x3f800000UL; case IL_DOUBLE: return 0x3ff0000000000000UL; case IL_HALF: return 0x3c00; }
	return t == IL_UNSIGNED_BYTE ? 0xff : t == IL_UNSIGNED_SHORT ? 0xffff : 0xffffffffUL;
}
static int fin(ILenum t, unsigned long v) {
	if (t == IL_HALF) return (v & 0x7c00) != 0x7c00;
	if (t == IL_FLOAT) return (v & 0x7f800000UL) != 0x7f800000UL;
	if (t == IL_DOUBLE) return (v & 0x7ff0000000000000UL) != 0x7ff0000000000000UL;
	return 1;
}
static int leq(ILenum t, unsigned long a, unsigned long b) {
	if (t == IL_FLOAT) return bits_f(a) <= bits_f(b);
	if (t == IL_DOUBLE) return bits_d(a) <= bits_d(b);
	if (t == IL_HALF) {
		long x = a & 0x8000 ? -(long)(a & 0x7fff) : (long)a, y = b & 0x8000 ? -(long)(b & 0x7fff) : (long)b;
		return x <= y;
	}
	return a <= b;
}
static unsigned long nd_smp(ILenum t, const char *nm) {
	unsigned long v = nd_u64(nm);
	switch (bc(t)) { case 1: v &= 0xff; break; case 2: v &= 0xffff; break; case 4: v &= 0xffffffffUL; }
	return v;
}
#ifndef VRT_CBMC
// native: also values near the interesting ones
static unsigned long nd_near(ILenum t, const char *nm) {
	unsigned long f = full(t);
	switch (nd_rng("k", 0, 7)) {
		case 0: return f; case 1: return 0; case 2: return (f + nd_irng("o", -3, 3)) & (bc(t) == 8 ? ~0UL : (1UL << (8 * bc(t))) - 1);
		case 3: if (t == IL_FLOAT) { union { ILfloat f; ILuint u; } x; x.f = nd_rng("q", 0, 65535) / 65535.0f; return x.u; }
			if (t == IL_DOUBLE) { union { ILdouble f; unsigned long u; } x; x.f = nd_rng("q", 0, 65535) / 65535.0; return x.u; }
	}
	return nd_smp(t, nm);
}
#else
#define nd_near nd_smp
#endif
static unsigned long conv1(ILenum s, ILenum d, unsigned long v) {
	unsigned long x[1], r; void *q; x[0] = 0;
	put_s(x, bc(s), 0, v); q = iSwitchTypes(bc(s), s, d, x); ASSUME(q != NULL);
	r = get_s(q, bc(d), 0); if (q != x) ifree(q); return r;
}
H(H_ends) {
	ILenum s = S_ST, d = S_DT;
	COVER("ends");
	CHECK(conv1(s, d, 0) == 0, "zero stays zero");
	CHECK(conv1(s, d, full(s)) == full(d), "full scale stays full scale");
}
H(H_mono) {
	ILenum s = S_ST, d = S_DT; unsigned long a = nd_near(s, "a"), b = nd_near(s, "b");
	ASSUME(fin(s, a) && fin(s, b) && leq(s, a, b));
	COVER("pair");
	a = conv1(s, d, a); b = conv1(s, d, b);
	CHECK(leq(d, a, b), "the order of samples is kept");
}
H(H_narrow) {
	ILenum s = S_ST, d = S_DT; unsigned long a = nd_near(s, "a"), b;
	ASSUME(is_int(s) && is_int(d) && bc(s) > bc(d));
	COVER("narrow");
	CHECK(conv1(s, d, a) == a >> (8 * (bc(s) - bc(d))), "narrowing keeps the most significant bits");
	b = nd_smp(d, "b");
	CHECK(conv1(s, d, conv1(d, s, b)) == b, "widening and narrowing gives the original back");
}
// the same for neighbouring samples; with it the order is kept for all pairs by
// induction over the successors of a sample (used where the pair is out of the solver's reach)
H(H_step) {
	ILenum s = S_ST, d = S_DT; unsigned long a = nd_near(s, "a"), b, sg = is_int(s) ? 0 : 1UL << (8 * bc(s) - 1), ca, cz;
	ASSUME(fin(s, a));
	if (a & sg) {
		// below zero: an integer sample becomes zero
		ASSUME(is_int(d)); CHECK(conv1(s, d, a) == 0, "negative samples become zero");
	} else {
		b = a + 1; ASSUME((b & ~(bc(s) == 8 ? ~0UL : (1UL << (8 * bc(s))) - 1)) == 0 && b != 0 && fin(s, b));
		COVER("step");
		ca = conv1(s, d, a); cz = conv1(s, d, b);
		CHECK(leq(d, ca, cz), "the order of neighbouring samples is kept");
		if (!is_int(s) && is_int(d)) CHECK(ca < full(d) || cz == full(d), "samples beyond full scale stay there");
	}
}
#ifndef VRT_CBMC
// runs of consecutive non-negative values, through one call each
#ifndef VRT_DV
H(H_run) {
	static const int S[6] = { 3, 3, 4, 4, 2, 0 }, D[6] = { 1, 2, 1, 2, 4, 2 };
	int c = nd_rng("case", 0, 4), k, n = 4096; ILenum s = TY[S[c]], d = TY[D[c]]; unsigned long a = nd_smp(s, "base"), m = full(s);
	ILubyte *b, *r;
	a &= ~0xfffUL; if (!is_int(s)) a = nd_rng("low", 0, 3) ? a % (m + 0x2000) & ~0xfffUL : a & ~(1UL << (8 * bc(s) - 1));
	b = (ILubyte *)malloc(n * 8);
	for (k = 0; k < n; k++) put_s(b, bc(s), k, a + k);
	ASSUME(fin(s, a + n - 1)); r = (ILubyte *)iSwitchTypes(n * bc(s), s, d, b); ASSUME(r != NULL); COVER("run");
	for (k = 0; k + 1 < n; k++) CHECK(leq(d, get_s(r, bc(d), k), get_s(r, bc(d), k + 1)), "the order of samples is kept");
	ifree(r); free(b);
}
#endif
#endif
