// P16: the state stack.
#include "states.h"
#include "getters.h"
static char sc[NSTR][2]; static const char *sp[NSTR];
static void snap_str(void) { int k; for (k = 0; k < NSTR; k++) { sp[k] = (const char *)ilGetString(SM[k]); sc[k][0] = sp[k] ? sp[k][0] : 0; sc[k][1] = sp[k] && sp[k][0] ? sp[k][1] : 0; } }
static int same_str(int k) { const char *g = (const char *)ilGetString(SM[k]); return !g ? !sp[k] : sp[k] && g[0] == sc[k][0] && (!g[0] || g[1] == sc[k][1]); }
static void all_same(void) {
	int k; snap(is1, as1, h1);
	for (k = 0; k < NIM; k++) CHECK(is0[k] == is1[k], "every setting is as before");
	for (k = 0; k < NAM; k++) CHECK(as0[k] == as1[k], "every switch is as before");
	for (k = 0; k < NSTR; k++) CHECK(same_str(k), "every string is as before");
	CHECK(h0[0] == h1[0] && h0[1] == h1[1], "hints are as before");
}
static int group_i(ILenum m, ILuint bits) {
	switch (m) {
		case IL_ORIGIN_MODE: return !!(bits & IL_ORIGIN_BIT);
		case IL_FORMAT_MODE: return !!(bits & IL_FORMAT_BIT);
		case IL_TYPE_MODE: return !!(bits & IL_TYPE_BIT);
		case IL_COMPRESS_MODE: return !!(bits & IL_COMPRESS_BIT);
		case IL_BMP_RLE: case IL_DXTC_FORMAT: case IL_JPG_QUALITY: case IL_JPG_SAVE_FORMAT: case IL_PCD_PICNUM: case IL_PNG_ALPHA_INDEX: case IL_PNG_INTERLACE: case IL_SGI_RLE: case IL_TGA_CREATE_STAMP: case IL_TGA_RLE: case IL_VTF_COMP:
			return !!(bits & IL_FORMAT_SPECIFIC_BIT);
	}
	return 0;
}
static int group_a(ILenum m, ILuint bits) {
	switch (m) {
		case IL_ORIGIN_SET: return !!(bits & IL_ORIGIN_BIT);
		case IL_FORMAT_SET: return !!(bits & IL_FORMAT_BIT);
		case IL_TYPE_SET: return !!(bits & IL_TYPE_BIT);
		case IL_FILE_OVERWRITE: return !!(bits & IL_FILE_BIT);
		case IL_CONV_PAL: return !!(bits & IL_PAL_BIT);
		case IL_DEFAULT_ON_FAIL: return !!(bits & IL_LOADFAIL_BIT);
		case IL_JPG_PROGRESSIVE: return !!(bits & IL_FORMAT_SPECIFIC_BIT);
	}
	return 0;
}
H(H_push) {
	ILuint bits = nd_u32("bits"), p; int k;
	any_state(); p = ilCurrentPos; ASSUME(p < IL_ATTRIB_STACK_MAX - 1);
	any_level(p + 1, 0); snap(is0, as0, h0); snap_str(); CLRERR;
	ilPushAttrib(bits);
	COVER("push");
	CHECK(NOERR, "a push below the depth limit succeeds");
	snap(is1, as1, h1);
	for (k = 0; k < NIM; k++) if (group_i(IM[k], bits)) CHECK(is0[k] == is1[k], "a pushed setting keeps its value");
	for (k = 0; k < NAM; k++) if (group_a(AM[k], bits)) CHECK(as0[k] == as1[k], "a pushed switch keeps its value");
	if (bits & IL_FORMAT_SPECIFIC_BIT) for (k = 0; k < NSTR; k++) CHECK(same_str(k), "a pushed string keeps its value");
	CHECK(h0[0] == h1[0] && h0[1] == h1[1], "hints are as before");
	ilPopAttrib();
	CHECK(NOERR, "and can be popped");
	all_same();
	rest_state();
}
H(H_full) {
	any_state(); ASSUME(ilCurrentPos == IL_ATTRIB_STACK_MAX - 1);
	snap(is0, as0, h0); snap_str(); CLRERR;
	ilPushAttrib(nd_u32("bits"));
	COVER("full");
	CHECK(ilGetError() == IL_STACK_OVERFLOW, "pushing beyond the depth is an error"); CHECK(ilCurrentPos == IL_ATTRIB_STACK_MAX - 1, "the depth is unchanged");
	all_same(); rest_state();
}
H(H_empty) {
	any_state(); ilCurrentPos = 0; any_level(0, 1);
	snap(is0, as0, h0); snap_str(); CLRERR;
	ilPopAttrib();
	COVER("empty");
	CHECK(ilGetError() == IL_STACK_UNDERFLOW, "popping an empty stack is an error"); CHECK(ilCurrentPos == 0, "the depth is unchanged");
	all_same(); rest_state();
}
// no setter, and no push, reaches a level below the current one: the saved
// settings survive whatever happens before the pop (induction over histories)
#define EQ(f) (low0[q].f == ilStates[q].f)
static IL_STATES low0[IL_ATTRIB_STACK_MAX];
static int same_level(ILuint q) {
	return EQ(ilOriginSet) && EQ(ilOriginMode) && EQ(ilFormatSet) && EQ(ilTypeSet) && EQ(ilFormatMode) && EQ(ilTypeMode) && EQ(ilOverWriteFiles) && EQ(ilAutoConvPal) && EQ(ilDefaultOnFail) && EQ(ilUseKeyColour) && EQ(ilBlitBlend)
		&& EQ(ilCompression) && EQ(ilInterlace) && EQ(ilQuantMode) && EQ(ilNeuSample) && EQ(ilQuantMaxIndexs) && EQ(ilKeepDxtcData) && EQ(ilUseNVidiaDXT) && EQ(ilUseSquishDXT)
		&& EQ(ilTgaCreateStamp) && EQ(ilJpgQuality) && EQ(ilPngInterlace) && EQ(ilTgaRle) && EQ(ilBmpRle) && EQ(ilSgiRle) && EQ(ilJpgFormat) && EQ(ilJpgProgressive) && EQ(ilDxtcFormat) && EQ(ilPcdPicNum) && EQ(ilPngAlphaIndex) && EQ(ilVtfCompression)
		&& EQ(ilTgaId) && EQ(ilTgaAuthName) && EQ(ilTgaAuthComment) && EQ(ilPngAuthName) && EQ(ilPngTitle) && EQ(ilPngDescription) && EQ(ilTifDescription) && EQ(ilTifHostComputer) && EQ(ilTifDocumentName) && EQ(ilTifAuthName) && EQ(ilCHeader);
}
#ifndef OP
#define OP nd_rng("op", 0, 6)
#endif
#ifdef VRT_CBMC
#define FROM (p - 1)
#else
#define FROM 0
#endif
H(H_frame) {
	ILuint p, q; char s[2]; ILimage im, *oc = ilGetCurImage();
	any_state(); p = ilCurrentPos; ASSUME(p > 0);
	for (q = FROM; q < p; q++) { any_level(q, 0); low0[q] = ilStates[q]; }
	memset(&im, 0, sizeof(im)); ilSetCurImage(&im);
	s[0] = nd_u8("c"); s[1] = 0;
	switch (OP) {
		case 0: ilSetInteger(nd_mode("mode"), nd_val("param")); break;
		case 1: ilEnable(nd_mode("mode")); break;
		case 2: ilDisable(nd_mode("mode")); break;
		case 3: ilOriginFunc(nd_val("param")); ilFormatFunc(nd_val("param")); ilTypeFunc(nd_val("param")); ilCompressFunc(nd_val("param")); break;
		case 4: ilHint(nd_mode("mode"), nd_val("param")); break;
		case 5: ilSetString(nd_mode("mode"), s); break;
		default: if (p < IL_ATTRIB_STACK_MAX - 1) any_level(p + 1, 0); ilPushAttrib(nd_u32("bits")); break;
	}
	COVER("op");
	for (q = FROM; q < p; q++) CHECK(same_level(q), "saved settings are not touched");
	ilSetCurImage(oc); rest_state();
}
// histories on the real library, against a model that saves and restores the getters' answers
H(H_nest) {
	static ILint mi[40][NIM]; static ILboolean ma[40][NAM]; int d = 0, k, n = nd_rng("ops", 1, 60), i; ILuint base = ilCurrentPos;
	any_state(); ilCurrentPos = 0; memset(ilStates, 0, 32 * sizeof(IL_STATES)); any_level(0, 1); CLRERR;
	for (i = 0; i < n; i++) {
		switch (nd_rng("op", 0, 9)) {
			case 0: case 1: case 2: snap(is0, as0, h0); CLRERR; ilPushAttrib(nd_rng("all", 0, 1) ? nd_rng("bits", 0, 255) : IL_ALL_ATTRIB_BITS);
				if (d < 31) { CHECK(NOERR, "push succeeds"); for (k = 0; k < NIM; k++) mi[d][k] = is0[k]; for (k = 0; k < NAM; k++) ma[d][k] = as0[k]; d++; } else CHECK(!NOERR, "too deep"); break;
			case 3: case 4: snap(is0, as0, h0); CLRERR; ilPopAttrib(); if (d > 0) { d--; CHECK(NOERR, "pop succeeds"); for (k = 0; k < NIM; k++) is0[k] = mi[d][k]; for (k = 0; k < NAM; k++) as0[k] = ma[d][k]; } else CHECK(!NOERR, "underflow");
				snap(is1, as1, h1); for (k = 0; k < NIM; k++) CHECK(is0[k] == is1[k], "settings come back"); for (k = 0; k < NAM; k++) CHECK(as0[k] == as1[k], "switches come back"); CHECK(h0[0] == h1[0] && h0[1] == h1[1], "hints stay"); break;
			case 5: case 6: ilSetInteger(nd_mode("mode"), nd_val("param")); break;
			case 7: ilEnable(nd_mode("mode")); break;
			case 8: ilDisable(nd_mode("mode")); break;
			default: { char s[2]; s[0] = 'a'; s[1] = 0; ilSetString(nd_mode("mode"), s); break; }
		}
	}
	COVER("history");
	rest_state(); (void)base;
}
