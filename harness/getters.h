// The public getters and arbitrary arguments for the setters.
#ifndef GETTERS_H
#define GETTERS_H
static const ILenum IM[] = { IL_COMPRESS_MODE, IL_FORMAT_MODE, IL_INTERLACE_MODE, IL_KEEP_DXTC_DATA, IL_ORIGIN_MODE, IL_MAX_QUANT_INDICES, IL_NEU_QUANT_SAMPLE, IL_QUANTIZATION_MODE, IL_TYPE_MODE,
	IL_BMP_RLE, IL_DXTC_FORMAT, IL_JPG_QUALITY, IL_JPG_SAVE_FORMAT, IL_PCD_PICNUM, IL_PNG_ALPHA_INDEX, IL_PNG_INTERLACE, IL_SGI_RLE, IL_TGA_CREATE_STAMP, IL_TGA_RLE, IL_VTF_COMP };
#define NIM ((int)(sizeof(IM) / sizeof(IM[0])))
static const ILenum AM[] = { IL_ORIGIN_SET, IL_FORMAT_SET, IL_TYPE_SET, IL_FILE_OVERWRITE, IL_CONV_PAL, IL_DEFAULT_ON_FAIL, IL_USE_KEY_COLOUR, IL_BLIT_BLEND, IL_SAVE_INTERLACED, IL_JPG_PROGRESSIVE, IL_NVIDIA_COMPRESS, IL_SQUISH_COMPRESS };
#define NAM ((int)(sizeof(AM) / sizeof(AM[0])))
static ILint is0[32], is1[32]; static ILboolean as0[16], as1[16]; static ILenum h0[2], h1[2];
static void snap(ILint *i, ILboolean *a, ILenum *h) {
	int k;
	for (k = 0; k < NIM; k++) i[k] = ilGetInteger(IM[k]);
	for (k = 0; k < NAM; k++) a[k] = ilIsEnabled(AM[k]);
	h[0] = iGetHint(IL_MEM_SPEED_HINT); h[1] = iGetHint(IL_COMPRESSION_HINT);
}
#ifdef VRT_CBMC
#define nd_mode(n) nd_u32(n)
#define nd_val(n) nd_i32(n)
#else
static ILenum nd_mode(const char *n) { return nd_rng("k", 0, 9) ? nd_rng("m", 0, 3) == 0 ? nd_rng(n, 0x600, 0x680) : nd_rng("m2", 0, 2) ? IM[nd_rng("im", 0, NIM - 1)] : nd_rng(n, 0x700, 0x730) : nd_rng("m3", 0, 1) ? nd_rng(n, 0xDE0, 0xE20) : nd_u32(n); }
static ILint nd_val(const char *n) { switch (nd_rng("kv", 0, 7)) { case 0: return nd_irng(n, -3, 35); case 1: return nd_irng(n, 0x5fe, 0x646); case 2: return nd_irng(n, 0x700, 0x715); case 3: return nd_irng(n, 0x1900, 0x1910); case 4: return nd_irng(n, 0x1400, 0x140c); case 5: return nd_irng(n, 0x80e0, 0x80e2); case 6: return nd_irng(n, 95, 260); } return nd_i32(n); }
#endif
#endif
