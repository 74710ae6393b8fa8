// P15: settings. From an arbitrary state, each setter with an arbitrary mode and
// value; observed through every public getter.
#include "states.h"
#include "getters.h"
// everything reads as before, except integer mode xi and switch xa
static void same(ILenum xi, ILenum xa) {
	int k;
	snap(is1, as1, h1);
	for (k = 0; k < NIM; k++) if (IM[k] != xi && !(IM[k] == IL_INTERLACE_MODE && xa == IL_SAVE_INTERLACED)) CHECK(is0[k] == is1[k], "no other setting changes");
	for (k = 0; k < NAM; k++) if (AM[k] != xa) CHECK(as0[k] == as1[k], "no other switch changes");
}
static int legal_fmt(ILenum f) { return f == IL_RGB || f == IL_RGBA || f == IL_BGR || f == IL_BGRA || f == IL_LUMINANCE || f == IL_LUMINANCE_ALPHA; }
static int legal_typ(ILenum t) { return t == IL_BYTE || t == IL_UNSIGNED_BYTE || t == IL_SHORT || t == IL_UNSIGNED_SHORT || t == IL_INT || t == IL_UNSIGNED_INT || t == IL_FLOAT || t == IL_DOUBLE; }
static int bool_(ILint p) { return p == IL_FALSE || p == IL_TRUE; }
// 1: legal, 0: illegal value, -1: no such mode, 2: setting of the current image
static int legal(ILenum m, ILint p) {
	switch (m) {
		case IL_FORMAT_MODE: return legal_fmt(p);
		case IL_ORIGIN_MODE: return p == IL_ORIGIN_LOWER_LEFT || p == IL_ORIGIN_UPPER_LEFT;
		case IL_TYPE_MODE: return legal_typ(p);
		case IL_KEEP_DXTC_DATA: case IL_BMP_RLE: case IL_SGI_RLE: case IL_TGA_RLE: case IL_TGA_CREATE_STAMP: case IL_PNG_INTERLACE: return bool_(p);
		case IL_MAX_QUANT_INDICES: return p >= 2 && p <= 256;
		case IL_NEU_QUANT_SAMPLE: return p >= 1 && p <= 30;
		case IL_QUANTIZATION_MODE: return p == IL_WU_QUANT || p == IL_NEU_QUANT;
		case IL_DXTC_FORMAT: return (p >= IL_DXT1 && p <= IL_DXT5) || (p >= IL_3DC && p <= IL_DXT1A);
		case IL_JPG_SAVE_FORMAT: return p == IL_JFIF || p == IL_EXIF;
		case IL_JPG_QUALITY: return p >= 0 && p <= 99;
		case IL_PCD_PICNUM: return p >= 0 && p <= 2;
		case IL_PNG_ALPHA_INDEX: return p >= -1 && p <= 255;
		case IL_VTF_COMP: return p == IL_DXT1 || p == IL_DXT1A || p == IL_DXT3 || p == IL_DXT5 || p == IL_DXT_NO_COMP;
		case IL_IMAGE_DURATION: case IL_IMAGE_OFFX: case IL_IMAGE_OFFY: case IL_IMAGE_CUBEFLAGS: return 2;
	}
	return -1;
}
static ILimage IMG;
static ILimage *any_cur(void) { ILimage *old = iCurImage; memset(&IMG, 0, sizeof(IMG)); ilSetCurImage(nd_rng("image", 0, 1) ? &IMG : NULL); IMG.Duration = nd_u32("dur"); IMG.OffX = nd_u32("offx"); IMG.OffY = nd_u32("offy"); IMG.CubeFlags = nd_u32("cube"); return old; }
H(H_integer) {
	ILenum m = nd_mode("mode"); ILint p = nd_val("param"); int l = legal(m, p), ok; ILimage *old, before;
	any_state(); old = any_cur(); before = IMG; snap(is0, as0, h0); CLRERR;
	if (l == 2 && iCurImage == NULL) l = 0;
	ilSetInteger(m, p);
	ok = NOERR; CLRERR;
	COVER("set");
	if (l > 0) {
		COVER("legal");
		CHECK(ok, "a legal value is accepted");
		CHECK(ilGetInteger(m) == p || (l == 2 && m == IL_IMAGE_DURATION && IMG.Duration == (ILuint)p), "reads back the value set");
		same(m, 0);
		if (m != IL_IMAGE_DURATION) CHECK(IMG.Duration == before.Duration, "duration unchanged");
		if (m != IL_IMAGE_OFFX) CHECK(IMG.OffX == before.OffX, "x offset unchanged");
		if (m != IL_IMAGE_OFFY) CHECK(IMG.OffY == before.OffY, "y offset unchanged");
		if (m != IL_IMAGE_CUBEFLAGS) CHECK(IMG.CubeFlags == before.CubeFlags, "cube flags unchanged");
	} else {
		CHECK(!ok, "an illegal mode or value is refused with an error");
		same(0, 0);
		CHECK(IMG.Duration == before.Duration && IMG.OffX == before.OffX && IMG.OffY == before.OffY && IMG.CubeFlags == before.CubeFlags, "image settings unchanged");
	}
	CHECK(h0[0] == h1[0] && h0[1] == h1[1], "hints unchanged");
	ilSetCurImage(old); rest_state();
}
H(H_switch) {
	ILenum m = nd_mode("mode"); int on = nd_rng("on", 0, 1), k, l = 0, ok; ILboolean r;
	any_state(); snap(is0, as0, h0); CLRERR;
	for (k = 0; k < NAM; k++) if (AM[k] == m) l = 1;
	r = on ? ilEnable(m) : ilDisable(m);
	ok = NOERR; CLRERR;
	COVER("switch");
	if (l) {
		CHECK(r && ok, "a mode is accepted");
		CHECK(!ilIsEnabled(m) == !on && !ilIsDisabled(m) == on, "reads back what was set");
		if (m != IL_FILE_OVERWRITE && m != IL_SAVE_INTERLACED) CHECK(!ilGetInteger(m) == !on && !ilGetBoolean(m) == !on, "the integer and boolean queries agree");
		if (m == IL_SAVE_INTERLACED) CHECK(!ilGetInteger(IL_INTERLACE_MODE) == !on, "the integer query agrees");
		if (m == IL_FILE_OVERWRITE) CHECK(!ilGetInteger(IL_FILE_MODE) == !on, "the integer query agrees");
		same(0, m);
	} else {
		CHECK(!r && !ok, "an illegal mode is refused with an error");
		same(0, 0);
		CHECK(!ilIsEnabled(m), "an unknown mode is not enabled"); CHECK(!NOERR, "and asking is an error"); CLRERR;
	}
	CHECK(h0[0] == h1[0] && h0[1] == h1[1], "hints unchanged");
	rest_state();
}
H(H_func) {
	ILenum v = (ILenum)nd_val("value"), m; ILuint w = nd_rng("which", 0, 3); ILboolean r; int l, ok;
	any_state(); snap(is0, as0, h0); CLRERR;
	switch (w) {
		case 0: m = IL_ORIGIN_MODE; l = v == IL_ORIGIN_LOWER_LEFT || v == IL_ORIGIN_UPPER_LEFT; r = ilOriginFunc(v); break;
		case 1: m = IL_FORMAT_MODE; l = legal_fmt(v); r = ilFormatFunc(v); break;
		case 2: m = IL_TYPE_MODE; l = legal_typ(v); r = ilTypeFunc(v); break;
		default: m = IL_COMPRESS_MODE; l = v == IL_COMPRESS_NONE || v == IL_COMPRESS_RLE || v == IL_COMPRESS_ZLIB; r = ilCompressFunc(v); break;
	}
	ok = NOERR; CLRERR;
	COVER("func");
	CHECK(!r == !l && !ok == !l, "accepted exactly when legal");
	if (l) CHECK((ILenum)ilGetInteger(m) == v, "reads back the value set");
	same(l ? m : 0, 0);
	CHECK(h0[0] == h1[0] && h0[1] == h1[1], "hints unchanged");
	rest_state();
}
H(H_hint) {
	ILenum t = nd_rng("kt", 0, 3) ? nd_rng("target", 0x660, 0x669) : nd_u32("target"), v = nd_rng("kh", 0, 3) ? nd_rng("hint", 0x660, 0x669) : nd_u32("hint"); int l, ok; ILenum want;
	any_state(); snap(is0, as0, h0); CLRERR;
	l = t == IL_MEM_SPEED_HINT ? v == IL_FASTEST || v == IL_LESS_MEM || v == IL_DONT_CARE : t == IL_COMPRESSION_HINT ? v == IL_USE_COMPRESSION || v == IL_NO_COMPRESSION || v == IL_DONT_CARE : 0;
	want = v != IL_DONT_CARE ? v : t == IL_MEM_SPEED_HINT ? IL_FASTEST : IL_NO_COMPRESSION;
	ilHint(t, v);
	ok = NOERR; CLRERR;
	COVER("hint");
	CHECK(!ok == !l, "accepted exactly when legal");
	same(0, 0);
	CHECK(h1[0] == (l && t == IL_MEM_SPEED_HINT ? want : h0[0]), "memory hint reads back");
	CHECK(h1[1] == (l && t == IL_COMPRESSION_HINT ? want : h0[1]), "compression hint reads back");
	rest_state();
}
#define SL 5
H(H_string) {
	ILenum m = nd_rng("km", 0, 7) ? nd_rng("mode", IL_TGA_ID_STRING - 2, IL_TGA_ID_STRING + 0x22) : nd_u32("mode"); char s[SL + 1]; int i, k, l = 0, ok, nul = !nd_rng("null", 0, 15); const char *o0[NSTR]; char c0[NSTR]; const char *g;
	static const ILuint lim[NSTR] = { 254, 40, 80, 255, 255, 255, 255, 255, 255, 255, 32 };
	any_state(); CLRERR;
	for (i = 0; i < SL; i++) s[i] = nd_u8("c"); s[SL] = 0;
	for (k = 0; k < NSTR; k++) { o0[k] = (const char *)ilGetString(SM[k]); c0[k] = o0[k] ? o0[k][0] : 0; }
	for (k = 0; k < NSTR; k++) if (SM[k] == m) l = 1;
	ilSetString(m, nul ? NULL : s);
	ok = NOERR; CLRERR;
	COVER("string");
	CHECK(!ok == (!l || nul), "accepted exactly when legal");
	for (k = 0; k < NSTR; k++) {
		g = (const char *)ilGetString(SM[k]);
		if (SM[k] == m && !nul) { CHECK(g != NULL && g != s && strcmp(g, s) == 0, "reads back the string set, as a copy"); }
		else CHECK(g == o0[k] && (!g || g[0] == c0[k]), "no other string changes");
	}
	rest_state();
}
// iClipString: what a saver writes is the string cut to the field's length
char *iClipString(char *String, ILuint MaxLen);
H(H_clip) {
	ILuint n = nd_rng("len", 0, VRT_BOUND(5, 60, 5)), max = nd_rng("max", 0, VRT_BOUND(7, 70, 7)), i; char *s = (char *)nd_buf("str", n + 1), *r;
	for (i = 0; i < n; i++) if (!s[i]) s[i] = 1;
	s[n] = 0;
	r = iClipString(s, max);
	COVER("clip");
	if (r) { ILuint m = n < max ? n : max; CHECK(strlen(r) == m, "cut to the field length"); for (i = 0; i < m; i++) CHECK(r[i] == s[i], "same characters"); ifree(r); }
	CHECK(iClipString(NULL, max) == NULL, "no string, no copy");
	free(s);
}
