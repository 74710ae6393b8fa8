// Arbitrary states of the settings machine. The library's own type is used; its
// variables are the library's (the header defines them, hence the renaming).
#ifndef VRT_STATES_H
#define VRT_STATES_H
#include "img.h"
#define ilStates vrt_unused_states
#define ilCurrentPos vrt_unused_pos
#define ilHints vrt_unused_hints
#include "il_states.h"
#undef ilStates
#undef ilCurrentPos
#undef ilHints
extern IL_STATES ilStates[IL_ATTRIB_STACK_MAX]; extern ILuint ilCurrentPos; extern IL_HINTS ilHints;
ILenum iGetHint(ILenum Target);
#define NSTR 11
static const ILenum SM[NSTR] = { IL_TGA_ID_STRING, IL_TGA_AUTHNAME_STRING, IL_TGA_AUTHCOMMENT_STRING, IL_PNG_AUTHNAME_STRING, IL_PNG_TITLE_STRING, IL_PNG_DESCRIPTION_STRING, IL_TIF_DESCRIPTION_STRING, IL_TIF_HOSTCOMPUTER_STRING, IL_TIF_DOCUMENTNAME_STRING, IL_TIF_AUTHNAME_STRING, IL_CHEAD_HEADER_STRING };
#ifndef VRT_CBMC
static IL_STATES st_save[32]; static ILuint pos_save; static IL_HINTS hint_save;
#endif
static char *any_str(const char *n) { char *p; if (!nd_rng("set", 0, 1)) return NULL; p = (char *)malloc(2); ASSUME(p != NULL); p[0] = nd_u8(n); p[1] = 0; return p; }
static void any_level(ILuint i, int strs) {
	IL_STATES *s = &ilStates[i];
	s->ilOriginSet = nd_rng("os", 0, 1); s->ilOriginMode = nd_u32("om"); s->ilFormatSet = nd_rng("fs", 0, 1); s->ilTypeSet = nd_rng("ts", 0, 1); s->ilFormatMode = nd_u32("fm"); s->ilTypeMode = nd_u32("tm");
	s->ilOverWriteFiles = nd_rng("ow", 0, 1); s->ilAutoConvPal = nd_rng("cp", 0, 1); s->ilDefaultOnFail = nd_rng("df", 0, 1); s->ilUseKeyColour = nd_rng("kc", 0, 1); s->ilBlitBlend = nd_rng("bb", 0, 1);
	s->ilCompression = nd_u32("co"); s->ilInterlace = nd_u8("in"); s->ilQuantMode = nd_u32("qm"); s->ilNeuSample = nd_u32("ns"); s->ilQuantMaxIndexs = nd_u32("qi");
	s->ilKeepDxtcData = nd_rng("kd", 0, 1); s->ilUseNVidiaDXT = nd_rng("nv", 0, 1); s->ilUseSquishDXT = nd_rng("sq", 0, 1);
	s->ilTgaCreateStamp = nd_rng("tc", 0, 1); s->ilJpgQuality = nd_u32("jq"); s->ilPngInterlace = nd_rng("pi", 0, 1); s->ilTgaRle = nd_rng("tr", 0, 1); s->ilBmpRle = nd_rng("br", 0, 1); s->ilSgiRle = nd_rng("sr", 0, 1);
	s->ilJpgFormat = nd_u32("jf"); s->ilJpgProgressive = nd_rng("jp", 0, 1); s->ilDxtcFormat = nd_u32("dx"); s->ilPcdPicNum = nd_u32("pp"); s->ilPngAlphaIndex = nd_i32("pa"); s->ilVtfCompression = nd_u32("vc");
	if (strs) {
		s->ilTgaId = any_str("s0"); s->ilTgaAuthName = any_str("s1"); s->ilTgaAuthComment = any_str("s2"); s->ilPngAuthName = any_str("s3"); s->ilPngTitle = any_str("s4"); s->ilPngDescription = any_str("s5");
		s->ilTifDescription = any_str("s6"); s->ilTifHostComputer = any_str("s7"); s->ilTifDocumentName = any_str("s8"); s->ilTifAuthName = any_str("s9"); s->ilCHeader = any_str("s10");
	}
}
#ifndef ANY_STRINGS
#define ANY_STRINGS 1
#endif
static void any_state(void) {
#ifndef VRT_CBMC
	memcpy(st_save, ilStates, sizeof(st_save)); pos_save = ilCurrentPos; hint_save = ilHints;
#endif
#ifdef LEVEL
	ilCurrentPos = LEVEL;
#else
	ilCurrentPos = nd_rng("level", 0, IL_ATTRIB_STACK_MAX - 1);
#endif
	any_level(ilCurrentPos, ANY_STRINGS);
	ilHints.MemVsSpeedHint = nd_u32("hm"); ilHints.CompressHint = nd_u32("hc");
}
static void rest_state(void) {
#ifndef VRT_CBMC
	memcpy(ilStates, st_save, sizeof(st_save)); ilCurrentPos = pos_save; ilHints = hint_save;
#endif
}
#endif
