// P17: memory-lump streams. Each operation from an arbitrary position of an arbitrary lump.
#include "img.h"
#include "il_files.h"
#define LN(nm) nd_rng(nm, 1, VRT_BOUND(12, 40, 0x7ffffffe))
#ifdef VRT_CBMC
#define OFFS(n) nd_i32(n)
#else
#define OFFS(n) nd_i32s(n, 45)
#endif
static ILubyte *L; static ILuint N, P0;
static void rd_setup(void) {
	N = LN("n"); P0 = nd_rng("pos", 0, N); L = (ILubyte *)nd_buf("lump", N);
	iSetInputLump(L, N);
	CHECK(itell() == 0, "opened at the start");
	CHECK(iseek((ILint)P0, IL_SEEK_SET) == 0, "seek inside the lump succeeds");
	CHECK(itell() == P0, "seek goes where asked");
}
static void wr_setup(void) {
	N = LN("n"); P0 = nd_rng("pos", 0, N); L = (ILubyte *)nd_buf("lump", N);
	iSetOutputLump(L, N);
	CHECK(itellw() == 0, "opened at the start");
	CHECK(iseekw((ILint)P0, IL_SEEK_SET) == 0, "seek inside the lump succeeds");
	CHECK(itellw() == P0, "seek goes where asked");
}
#ifndef ESZ
#define ESZ nd_rng("esize", 0, 5)
#endif
H(H_read) {
	ILuint es = ESZ, num = nd_len("num", 14, 45), want, left, got, w, r, lw; ILubyte *b, old, lold;
	rd_setup();
	ASSUME((unsigned long)es * num <= 0x7fffffffUL);
	want = es * num; left = N - P0; got = want < left ? want : left;
	b = (ILubyte *)nd_buf("buf", want ? want : 1); w = nd_rng("w", 0, want ? want - 1 : 0); old = b[w];
	lw = nd_rng("lw", 0, N - 1); lold = L[lw];
	r = iread(b, es, num);
	COVER("read");
	CHECK(itell() == P0 + got, "position advances by the bytes delivered");
	CHECK(es == 0 || r == got / es, "returns the number of whole items read");
	if (w < got) CHECK(b[w] == L[P0 + w], "delivers the next bytes"); else CHECK(b[w] == old, "writes nothing beyond them");
	CHECK(L[lw] == lold, "lump unchanged");
	free(b); free(L);
}
H(H_read_err) {
	ILuint es = nd_rng("esize", 1, 5), num = nd_len("num", 5, 45), r; ILubyte *b;
	rd_setup(); ASSUME((unsigned long)es * num <= 0x7fffffffUL);
	b = (ILubyte *)nd_buf("buf", es * num + 1);
	CLRERR;
	r = iread(b, es, num);
	COVER("read");
	CHECK(NOERR == (es * num <= N - P0), "an error exactly when fewer bytes remain");
	CHECK(r == num || es * num > N - P0, "all items when they are there");
	free(b); free(L);
}
H(H_getc) {
	ILint c; rd_setup(); c = igetc();
	COVER("getc");
	if (P0 < N) { CHECK(c == L[P0], "returns the next byte"); CHECK(itell() == P0 + 1, "advances by one"); }
	else { CHECK(c == IL_EOF, "end of lump reported"); CHECK(itell() == P0, "position unchanged at the end"); }
	free(L);
}
H(H_eof) { rd_setup(); COVER("eof"); CHECK(!ieof() == (P0 < N), "eof exactly at the end"); CHECK(itell() == P0, "position unchanged"); free(L); }
static void seek_post(ILint o, ILuint mode, ILint r, ILuint now) {
	long t = mode == IL_SEEK_SET ? o : mode == IL_SEEK_CUR ? (long)P0 + o : (long)N + o;
	int legal = (mode == IL_SEEK_SET || mode == IL_SEEK_CUR || mode == IL_SEEK_END) && t >= 0 && t <= (long)N;
	COVER("seek");
	if (r == 0) CHECK(legal && (long)now == t, "positions exactly where asked");
	else CHECK(now == P0, "failure leaves the position");
	if (legal) CHECK(r == 0, "a position inside the lump is accepted");
	CHECK(now <= N, "position inside the lump");
}
H(H_seek) { ILint o = OFFS("off"), r; ILuint m = nd_u32s("mode", 3); rd_setup(); r = iseek(o, m); seek_post(o, m, r, itell()); free(L); }
H(H_seekw) { ILint o = OFFS("off"), r; ILuint m = nd_u32s("mode", 3); wr_setup(); r = iseekw(o, m); seek_post(o, m, r, itellw()); free(L); }
H(H_putc) {
	ILint r; ILubyte c = nd_u8("c"), old; ILuint w; wr_setup(); w = nd_rng("w", 0, N - 1); old = L[w];
	r = iputc(c);
	COVER("putc");
	if (P0 < N) { CHECK(r == c, "accepted"); CHECK(L[P0] == c, "stored"); CHECK(itellw() == P0 + 1, "advances by one"); }
	else { CHECK(r == IL_EOF, "refused at the end"); CHECK(itellw() == P0, "position unchanged"); }
	if (w != P0) CHECK(L[w] == old, "nothing else written");
	free(L);
}
H(H_write) {
	ILuint es = ESZ, num = nd_len("num", 14, 45), want, left, got, w, bw; ILubyte *b, old, bold; ILint r;
	wr_setup();
	ASSUME((unsigned long)es * num <= 0x7fffffffUL);
	want = es * num; left = N - P0; got = want < left ? want : left;
	b = (ILubyte *)nd_buf("buf", want ? want : 1); w = nd_rng("w", 0, N - 1); old = L[w];
	bw = nd_rng("bw", 0, want ? want - 1 : 0); bold = b[bw];
	r = iwrite(b, es, num);
	COVER("write");
	if (want <= left) {
		CHECK(itellw() == P0 + want, "position advances by the bytes stored");
		if (w >= P0 && w - P0 < want) CHECK(L[w] == b[w - P0], "stores the given bytes"); else CHECK(L[w] == old, "nothing else written");
	} else {
		if (w < P0) CHECK(L[w] == old, "bytes before the position untouched");
		else CHECK(L[w] == old || L[w] == b[w - P0], "only the given bytes are stored");
		CHECK(itellw() <= N && itellw() >= P0, "position inside the lump");
	}
	CHECK(b[bw] == bold, "source unchanged");
	free(b); free(L);
}
H(H_write_err) {
	ILuint num = nd_len("num", 12, 45), r; ILubyte *b;
	wr_setup(); b = (ILubyte *)nd_buf("buf", num + 1);
	CLRERR;
	r = iwrite(b, 1, num);
	COVER("write");
	if (num <= N - P0) { CHECK(r == num, "all accepted"); CHECK(NOERR, "accepted without error"); } else { CHECK(r < num, "fewer accepted"); CHECK(!NOERR, "refused with an error"); }
	free(b); free(L);
}
#ifndef VRT_CBMC
#ifndef VRT_DV
// sequences of operations against a reference stream
H(H_seq) {
	ILuint n = nd_rng("n", 1, 40), ops = nd_rng("ops", 1, 30), pos = 0, k, i; ILubyte *l = (ILubyte *)nd_buf("lump", n), tmp[256], ref[64];
	memcpy(ref, l, n);
	int wr = nd_rng("wr", 0, 1);
	if (wr) iSetOutputLump(l, n); else iSetInputLump(l, n);
	COVER("seq");
	for (k = 0; k < ops; k++) {
		ILuint op = nd_rng("op", 0, 4);
		if (op == 0) { ILint c; if (wr) { ILubyte v = nd_u8("v"); c = iputc(v); if (pos < n) { ref[pos++] = v; CHECK(c == v, "putc"); } else CHECK(c == IL_EOF, "putc end"); }
			else { c = igetc(); if (pos < n) CHECK(c == ref[pos++], "getc"); else CHECK(c == IL_EOF, "getc end"); } }
		else if (op <= 2) { ILuint es = nd_rng("es", 1, 4), num = nd_rng("num", 0, 12), want = es * num, got = want < n - pos ? want : n - pos;
			if (wr) { for (i = 0; i < want; i++) tmp[i] = nd_u8("v"); iwrite(tmp, es, num); for (i = 0; i < got; i++) ref[pos + i] = tmp[i]; pos += got; }
			else { memset(tmp, 0xEE, sizeof tmp); iread(tmp, es, num); for (i = 0; i < got; i++) CHECK(tmp[i] == ref[pos + i], "read bytes"); CHECK(tmp[got] == 0xEE, "no more bytes"); pos += got; } }
		else { ILint o = nd_irng("off", -45, 45); ILuint m = nd_rng("mode", 0, 3); long t = m == IL_SEEK_SET ? o : m == IL_SEEK_CUR ? (long)pos + o : (long)n + o;
			ILint r = wr ? iseekw(o, m) : iseek(o, m); if (m <= 2 && t >= 0 && t <= (long)n) { CHECK(r == 0, "seek ok"); pos = t; } else CHECK(r != 0, "seek refused"); }
		CHECK((wr ? itellw() : itell()) == pos, "position");
		if (!wr) CHECK(!ieof() == (pos < n), "eof");
		CHECK(!memcmp(ref, l, n), "lump content");
	}
	free(l);
}
#endif
#endif
