// P20: run-length encoding (Targa and SGI packets).
#include "img.h"
#ifndef VRT_CBMC
#define NOINLINE
#endif
#include "il_rle.h"
#ifdef BPP
#define S_BPP BPP
#else
#define S_BPP nd_rng("bpp", 1, 4)
#endif
#ifdef MODE
#define S_MODE MODE
#else
#define S_MODE nd_rng("mode", 0, 1)
#endif
static ILenum mode_of(ILuint m) { return m ? IL_SGICOMP : IL_TGACOMP; }
static ILuint max_run(ILuint m) { return m ? 127 : 128; }
#ifdef VRT_CBMC
// One iteration of the loop over the packets of a line, from any state: the loop ends after one packet (see
// the substitutions in checks/P20.py); n pixels are left. A line is the sequence of its packets.
static int st_left; static ILuint st_n; static ILubyte *st_p, *st_q;
static int st_once(void) { return st_left-- > 0; }
#include "x_il_rle.cpp"
static ILubyte P0[128 * 4], Q0[1 + 128 * 4 + 1];
H(H_step) {
	ILuint bpp = S_BPP, m = S_MODE, n = nd_u32("n"), len, k, s, c, L, raw, h; ILboolean r;
	ASSUME(n >= 1 && n <= 0x7fffffffu);
	for (k = 0; k < 128 * bpp; k++) P0[k] = nd_u8("p");
	st_left = 1;
	r = ilRleCompressLine(P0, n, (ILubyte)bpp, Q0, &len, mode_of(m));
	c = n - st_n; h = Q0[0];
	CHECK(r, "done");
	if (m) { raw = h >= 128; L = h & 127; } else { raw = h < 128; L = (h & 127) + 1; }
	CHECK(c >= 1 && c <= n && c <= max_run(m), "the loop makes progress, a packet is no longer than the scheme allows");
	CHECK(st_p == P0 + c * bpp, "the input is consumed up to the pixels left");
	CHECK(L == c, "the packet has as many pixels as were consumed");
	CHECK(len == (ILuint)(st_q - Q0), "the length is the number of bytes produced");
	CHECK(len == (raw ? 1 + c * bpp : 1 + bpp) + m, "of the packet");
	CHECK(len <= c * (bpp + 1) + m, "within the worst case");
	if (m) CHECK(Q0[len - 1] == 0, "an SGI line is terminated");
	k = nd_rng("k", 0, 127); s = nd_rng("s", 0, bpp - 1);
	if (k < c) CHECK(Q0[1 + (raw ? k * bpp : 0) + s] == P0[k * bpp + s], "every pixel decodes to itself");
	COVER("packet");
}
#else
// decodes n pixels from q (len bytes); returns the bytes used, 0 when the packets are not valid
static ILuint decode(const ILubyte *q, ILuint len, ILuint m, ILuint bpp, ILuint n, ILubyte *out) {
	ILuint u = 0, c = 0, L, raw, i;
	while (c < n) {
		if (u >= len) return 0;
		if (m) { L = q[u] & 127; raw = q[u] >> 7; } else { L = (q[u] & 127) + 1; raw = !(q[u] >> 7); }
		u++;
		if (L == 0 || L > max_run(m) || c + L > n || u + (raw ? L * bpp : bpp) > len) return 0;
		for (i = 0; i < L; i++) memcpy(out + (c + i) * bpp, q + u + (raw ? i * bpp : 0), bpp);
		c += L; u += raw ? L * bpp : bpp;
	}
	if (m) { if (u >= len || q[u] != 0) return 0; u++; }
	return u;
}
// pixels with runs
static ILubyte *pixels(ILuint n, ILuint bpp) {
	ILubyte *p = (ILubyte *)nd_buf("pix", n * bpp); ILuint i, left = 0, same = 0, dep = nd_rng("dep", 1, 3);
	for (i = 0; i < n; i++) {
		if (!left) { same = nd_rng("same", 0, 1); left = nd_rng("rl", 0, 4) ? nd_rng("run", 1, 5) : nd_rng("lrun", 100, 300); }
		if (same && i) memcpy(p + i * bpp, p + (i - 1) * bpp, bpp);
		else if (dep == 1) { ILuint c; for (c = 0; c < bpp; c++) p[i * bpp + c] &= 1; }
		left--;
	}
	return p;
}
H(H_line) {
	ILuint bpp = S_BPP, m = S_MODE, n = nd_rng("n", 1, nd_rng("long", 0, 3) ? 20 : 400), len = 0xdead; ILubyte *p = pixels(n, bpp), *q, *o, *p0;
	q = (ILubyte *)malloc(n * (bpp + 1) + m); o = (ILubyte *)malloc(n * bpp); p0 = (ILubyte *)malloc(n * bpp); memcpy(p0, p, n * bpp);
	CHECK(ilRleCompressLine(p, n, (ILubyte)bpp, q, &len, mode_of(m)), "done"); COVER("line");
	CHECK(len <= n * (bpp + 1) + m, "within the worst case");
	CHECK(decode(q, len, m, bpp, n, o) == len, "valid packets that take exactly the reported length");
	CHECK(!memcmp(o, p0, n * bpp) && !memcmp(p, p0, n * bpp), "decodes to the original line");
	free(p); free(q); free(o); free(p0);
}
H(H_image) {
	ILuint bpp = S_BPP, m = S_MODE, w = nd_rng("w", 1, 40), h = nd_rng("h", 1, 6), d = nd_rng("d", 1, 3), n = w * h * d, len, l, u = 0, tab = nd_rng("tab", 0, 1), *T; ILubyte *p = pixels(n, bpp), *q, *o;
	q = (ILubyte *)malloc(n * (bpp + 1) + h * d * m); o = (ILubyte *)malloc(w * bpp); T = (ILuint *)malloc(h * d * sizeof(ILuint));
	len = ilRleCompress(p, w, h, d, (ILubyte)bpp, q, mode_of(m), tab ? T : NULL); COVER("image");
	CHECK(len <= n * (bpp + 1) + h * d * m, "within the worst case");
	for (l = 0; l < h * d; l++) {
		ILuint c = decode(q + u, len - u, m, bpp, w, o); CHECK(c != 0, "valid packets");
		if (tab) CHECK(T[l] == u, "the table has the start of every line");
		CHECK(!memcmp(o, p + l * w * bpp, w * bpp), "every line decodes to the original line"); u += c;
	}
	CHECK(u == len, "the reported length is the number of bytes produced");
	free(p); free(q); free(o); free(T);
}
// a scheme that does not exist
H(H_bad) {
	ILubyte p[4] = {0}, q[8] = {1, 2, 3}; ILuint len = 5; ILenum m = nd_u32("m");
	ASSUME(m != IL_TGACOMP && m != IL_SGICOMP && m != IL_BMPCOMP); CLRERR;
	CHECK(!ilRleCompressLine(p, 2, 2, q, &len, m) && !NOERR, "an unknown scheme is refused"); COVER("bad");
	CHECK(q[0] == 1 && q[1] == 2 && q[2] == 3, "nothing is written");
}
#endif
