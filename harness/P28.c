// P28: the type of a file.
#include "img.h"
#include <ctype.h>
#ifdef __cplusplus
#define EXTC extern "C"
#else
#define EXTC
#endif

// the extensions that il.h and the loaders document, and the types they stand for
static const struct { const char *e; ILenum t; } XT[] = {
	{"bmp", IL_BMP}, {"dib", IL_BMP}, {"cut", IL_CUT}, {"ico", IL_ICO}, {"cur", IL_ICO}, {"jpg", IL_JPG}, {"jpe", IL_JPG}, {"jpeg", IL_JPG}, {"jif", IL_JPG}, {"jfif", IL_JPG}, {"ilbm", IL_ILBM}, {"lbm", IL_ILBM}, {"ham", IL_ILBM}, {"pcd", IL_PCD}, {"pcx", IL_PCX}, {"pic", IL_PIC}, {"png", IL_PNG},
	{"pbm", IL_PNM}, {"pgm", IL_PNM}, {"ppm", IL_PNM}, {"pnm", IL_PNM}, {"pam", IL_PNM}, {"sgi", IL_SGI}, {"bw", IL_SGI}, {"rgb", IL_SGI}, {"rgba", IL_SGI}, {"tga", IL_TGA}, {"vda", IL_TGA}, {"icb", IL_TGA}, {"vst", IL_TGA}, {"tif", IL_TIF}, {"tiff", IL_TIF}, {"h", IL_CHEAD}, {"mdl", IL_MDL}, {"wal", IL_WAL}, {"lif", IL_LIF}, {"mng", IL_MNG}, {"jng", IL_JNG},
	{"gif", IL_GIF}, {"dds", IL_DDS}, {"dcx", IL_DCX}, {"psd", IL_PSD}, {"pdd", IL_PSD}, {"psp", IL_PSP}, {"pix", IL_PIX}, {"pxr", IL_PXR}, {"xpm", IL_XPM}, {"hdr", IL_HDR}, {"icns", IL_ICNS}, {"jp2", IL_JP2}, {"jpx", IL_JP2}, {"j2k", IL_JP2}, {"j2c", IL_JP2}, {"exr", IL_EXR}, {"wdp", IL_WDP}, {"hdp", IL_WDP}, {"vtf", IL_VTF}, {"wbmp", IL_WBMP},
	{"sun", IL_SUN}, {"ras", IL_SUN}, {"rs", IL_SUN}, {"im1", IL_SUN}, {"im8", IL_SUN}, {"im24", IL_SUN}, {"im32", IL_SUN}, {"iff", IL_IFF}, {"tpl", IL_TPL}, {"fit", IL_FITS}, {"fits", IL_FITS}, {"dcm", IL_DICOM}, {"dicom", IL_DICOM}, {"iwi", IL_IWI}, {"blp", IL_BLP}, {"ftx", IL_FTX}, {"rot", IL_ROT}, {"texture", IL_TEXTURE}, {"dpx", IL_DPX}, {"utx", IL_UTX}, {"mp3", IL_MP3}, {"ktx", IL_KTX}, {"ch", IL_SCITEX}, {"ct", IL_SCITEX}, {"sct", IL_SCITEX} };
#define NXT ((ILuint)(sizeof XT / sizeof *XT))
#ifndef XNL
#define XNL 12
#endif
static int lo_(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int same_(const char *a, const char *b) { int i; for (i = 0; i <= XNL; i++) { if (lo_(a[i]) != lo_(b[i])) return 0; if (!a[i]) return 1; } return 0; }
#if defined(VRT_CBMC)
int strcasecmp(const char *a, const char *b) { int i; for (i = 0; ; i++) { int d = lo_(a[i]) - lo_(b[i]); if (d || !a[i]) return d; } }
#endif
#if defined(VRT_CBMC) && defined(EXT_STUB)
// iGetExtension by its contract (H_last)
static char ext_[8]; static ILconst_string name_; static int has_;
ILstring iGetExtension(ILconst_string f) { CHECK(f == name_, "the extension of this name"); return has_ ? ext_ : NULL; }
// iStrCmp by its contract: 0 exactly for strings that are equal but for their case
int iStrCmp(ILconst_string a, ILconst_string b) { int d = 0, i; CHECK(a == ext_, "the extension is compared"); for (i = 0; b[i] && i < 8; i++) d |= lo_(a[i]) ^ lo_(b[i]); if (i < 8) d |= a[i]; return d; }
ILuint ilStrLen(ILconst_string f) { return f[1] ? 3 : 1; }
H(H_type) {
	ILuint i; ILenum want = IL_TYPE_UNKNOWN, got; name_ = nd_u8("n") ? "a" : "a.b"; has_ = nd_u8("has");
	for (i = 0; i < 8; i++) ext_[i] = nd_u8("c");
	for (i = 0; i < NXT; i++) if (!iStrCmp(ext_, XT[i].e)) want = XT[i].t;
	got = ilTypeFromExt(name_); if (want) COVER("known"); else COVER("unknown");
	CHECK(got == (has_ ? want : IL_TYPE_UNKNOWN), "the type is that of the extension");
}
#endif
#if defined(VRT_CBMC) && !defined(EXT_STUB)
H(H_last) {
	char n[XNL + 1]; ILuint i, len = nd_rng("len", 0, XNL), at = XNL + 1; ILstring e;
	for (i = 0; i < XNL; i++) { n[i] = nd_u8("c"); ASSUME(i >= len || n[i] != 0); }
	for (i = 0; i <= XNL; i++) if (i >= len) n[i] = 0;
	for (i = 0; i < len; i++) if (n[i] == '.') at = i;
	e = iGetExtension(n); if (e) COVER("dot"); else COVER("none");
	CHECK(e == (at < len ? n + at + 1 : NULL), "the last extension of the name");
}
#endif
// the last extension of a name alone decides, whatever its case
H(H_ext) {
	char n[XNL + 1]; ILuint i, len = nd_rng("len", 0, XNL), at = XNL + 1; ILenum want = IL_TYPE_UNKNOWN, got;
#ifdef VRT_CBMC
	for (i = 0; i < XNL; i++) { n[i] = nd_u8("c"); ASSUME(i >= len || n[i] != 0); }
#else
	for (i = 0; i < len; i++) n[i] = nd_rng("p", 0, 3) ? nd_rng("c", 'a', 'z') : nd_rng("d", 1, 127);
	if (nd_rng("known", 0, 7)) { ILuint k = nd_rng("x", 0, NXT - 1), l = strlen(XT[k].e); if (l + 1 <= XNL) { if (len < l + 1) len = l + 1; for (i = 0; i < l; i++) n[len - l + i] = nd_rng("up", 0, 1) ? toupper(XT[k].e[i]) : XT[k].e[i]; if (nd_rng("dot", 0, 7)) n[len - l - 1] = '.'; } }
#endif
	n[len] = 0;
	for (i = 0; i < len; i++) if (n[i] == '.') at = i;
	if (at < len) for (i = 0; i < NXT; i++) if (same_(n + at + 1, XT[i].e)) want = XT[i].t;
	if (want != IL_TYPE_UNKNOWN) COVER("known"); else COVER("unknown");
	got = ilTypeFromExt(n);
	CHECK(got == want, "the type is that of the last extension");
	if (!len) CHECK(ilTypeFromExt(NULL) == IL_TYPE_UNKNOWN, "no name has no type");
}
#if !defined(VRT_DV) && !defined(VRT_CBMC)
#include <stdio.h>
static const ILenum VT[] = { IL_TGA, IL_JPG, IL_DDS, IL_PNG, IL_BMP, IL_DICOM, IL_GIF, IL_HDR, IL_ICNS, IL_ILBM, IL_IWI, IL_KTX, IL_LIF, IL_MDL, IL_MP3, IL_PCX, IL_PIC, IL_PNM, IL_PSD, IL_PSP, IL_SCITEX, IL_SGI, IL_SUN, IL_TIF, IL_TPL, IL_VTF, IL_XPM, IL_BLP };
#define NVT (sizeof VT / sizeof *VT)
static const struct { const char *s; unsigned n, at; } MG[] = { {"BM", 2, 0}, {"BM\0\0\0\0\0\0\0\0\0\0\0\0\x28\0\0\0", 18, 0}, {"\xff\xd8\xff", 3, 0}, {"DDS \x7c", 5, 0}, {"\x89PNG\r\n\x1a\n", 8, 0}, {"GIF89a", 6, 0}, {"#?RADIANCE\n\n", 12, 0}, {"icns", 4, 0}, {"FORM", 4, 0}, {"ILBM", 4, 8}, {"IWi\5", 4, 0}, {"\xabKTX 11\xbb\r\n\x1a\n", 12, 0}, {"Willi 7", 8, 0}, {"IDST", 4, 0}, {"\x0a\x05\x01\x08", 4, 0}, {"\x53\x80\xf6\x34", 4, 0}, {"PICT", 4, 88}, {"P6\n1 1\n255\n", 11, 0}, {"P4", 2, 0}, {"8BPS\0\1", 6, 0}, {"Paint Shop Pro Image File\n\x1a", 27, 0}, {"CT", 2, 80}, {"\x01\xda\1\1\0\1", 6, 0}, {"\x59\xa6\x6a\x95", 4, 0}, {"II*\0", 4, 0}, {"MM\0*", 4, 0}, {"\0\x20\xaf\x30", 4, 0}, {"VTF\0\7\0\0\0", 8, 0}, {"/* XPM */", 9, 0}, {"BLP2", 4, 0}, {"DICM\2\0\x10\0UI", 10, 128}, {"ID3", 3, 0}, {"SIMPLE  =                    T", 30, 0} };
static ILubyte *st_; static ILuint st_n, st_p; static int st_bad, st_reads;
EXTC ILHANDLE ILAPIENTRY m_open(ILconst_string f) { (void)f; return (ILHANDLE)st_; }
EXTC void ILAPIENTRY m_close(ILHANDLE h) { (void)h; }
EXTC ILboolean ILAPIENTRY m_eof(ILHANDLE h) { (void)h; return st_p >= st_n; }
EXTC ILint ILAPIENTRY m_getc(ILHANDLE h) { (void)h; st_reads++; return st_p < st_n ? st_[st_p++] : IL_EOF; }
EXTC ILint ILAPIENTRY m_read(void *b, ILuint s, ILuint n, ILHANDLE h) { ILuint k = st_p < st_n && s ? (st_n - st_p) / s : 0; (void)h; st_reads++; if (k > n) k = n; if (k) memcpy(b, st_ + st_p, (size_t)k * s); st_p += k * s; if (k < n) { ILuint r = st_p < st_n ? st_n - st_p : 0; if (s * (n - k) > r && r) { memcpy((char *)b + (size_t)k * s, st_ + st_p, r < s ? r : 0); if (r < s) st_p = st_n; } } return k; }
EXTC ILint ILAPIENTRY m_seek(ILHANDLE h, ILint o, ILint m) { long p = m == IL_SEEK_SET ? o : m == IL_SEEK_CUR ? (long)st_p + o : (long)st_n + o; (void)h; if (p < 0) return -1; st_p = (ILuint)p; return 0; }
EXTC ILint ILAPIENTRY m_tell(ILHANDLE h) { (void)h; return (ILint)st_p; }
static void content(ILuint pos) {
	ILuint i, k = nd_rng("magic", 0, 3), n; st_n = pos + nd_rng("len", 0, nd_rng("lk", 0, 2) ? 140 : 700);
	st_ = (ILubyte *)nd_buf("bytes", st_n ? st_n : 1); if (!nd_rng("sparse", 0, 2)) for (i = 0; i < st_n; i++) st_[i] &= nd_rng("sp", 0, 3) ? 0 : 15;
	if (k) { i = nd_rng("mg", 0, sizeof MG / sizeof *MG - 1); for (n = 0; n < MG[i].n; n++) if (pos + MG[i].at + n < st_n) st_[pos + MG[i].at + n] = MG[i].s[n]; }
}
static ILimage before_; static ILimage *cur_;
static void env(void) { ILuint i; ILubyte px[6]; ilResetMemory(); ilBindImage(1); for (i = 0; i < 6; i++) px[i] = i; if (iCurImage->Width != 2) ilTexImage(2, 1, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, px); ilSetRead(m_open, m_close, m_eof, m_getc, m_read, m_seek, m_tell); cur_ = iCurImage; before_ = *iCurImage; }
static int same_cur(void) { return iCurImage == cur_ && !memcmp(&before_, iCurImage, sizeof before_); }
H(H_stream) {
	ILuint pos = nd_rng("pk", 0, 2) ? 0 : nd_rng("pos", 0, 40); ILenum t = VT[nd_rng("t", 0, NVT - 1)], d, l; ILboolean v; ILubyte *copy;
	env(); content(pos); copy = (ILubyte *)malloc(st_n + 1); memcpy(copy, st_, st_n); st_p = pos;
	v = ilIsValidF(t, (ILHANDLE)st_); COVER("checked"); if (v) COVER("valid");
	CHECK(st_p == pos, "checking a type keeps the position of the stream");
	CHECK(same_cur(), "and the current image");
	d = ilDetermineTypeF((ILHANDLE)st_);
	CHECK(st_p == pos, "determining the type keeps the position of the stream"); CHECK(same_cur(), "and the current image");
	if (pos == 0 && st_n) {
		(void)v; ilIsValidL(t, st_, st_n); CHECK(same_cur(), "checking bytes in memory keeps the current image");
		l = ilDetermineTypeL(st_, st_n); if (l != IL_TYPE_UNKNOWN) COVER("determined"); CHECK(same_cur(), "determining the type of bytes in memory keeps the current image");
	}
	CHECK(!memcmp(copy, st_, st_n), "the bytes are not changed"); free(copy); free(st_); ilResetRead();
}
#endif

#if defined(VRT_CBMC)
// The stream of the caller: a position, a length and unknown bytes. A read stores at most what was asked for and moves on by what it read.
static ILuint st_p, st_n; static int hnd_;
ILHANDLE ILAPIENTRY m_open(ILconst_string f) { return &hnd_; }
void ILAPIENTRY m_close(ILHANDLE h) { CHECK(0, "the stream of the caller stays open"); }
ILboolean ILAPIENTRY m_eof(ILHANDLE h) { return st_p >= st_n; }
ILint ILAPIENTRY m_getc(ILHANDLE h) { CHECK(h == &hnd_, "the stream that is read"); if (st_p >= st_n) return IL_EOF; st_p++; return nondet_uchar(); }
ILint ILAPIENTRY m_read(void *b, ILuint s, ILuint n, ILHANDLE h) {
	size_t want = (size_t)s * n, left = st_p < st_n ? st_n - st_p : 0, got = want < left ? want : left;
	CHECK(h == &hnd_, "the stream that is read"); CHECK(__CPROVER_w_ok(b, want), "the bytes that are read fit into the buffer");
	if (want) __CPROVER_havoc_slice(b, want);
	st_p += (ILuint)got; return s ? (ILint)(got / s) : 0;
}
ILint ILAPIENTRY m_seek(ILHANDLE h, ILint o, ILint m) {
	long p = m == IL_SEEK_SET ? o : m == IL_SEEK_CUR ? (long)st_p + o : (long)st_n + o;
	CHECK(h == &hnd_, "the stream that is positioned"); if (p < 0 || p > 0x3fffffff) return -1; st_p = (ILuint)p; return 0;
}
ILint ILAPIENTRY m_tell(ILHANDLE h) { CHECK(h == &hnd_, "the stream that is asked"); return (ILint)st_p; }
static int same_byte(const ILimage *a, const ILimage *b) { ILuint k = nd_u32("k"); ASSUME(k < sizeof *a); return ((const ILubyte *)a)[k] == ((const ILubyte *)b)[k]; }
#ifndef FN
#define FN ilIsValidTgaF
#define FNL ilIsValidTgaL
#endif
ILboolean FN(ILHANDLE); ILboolean FNL(const void *, ILuint);
// what the check for one type does to the stream and to the current image
H(H_valid) {
	ILuint pos = nd_u32("pos"); ILimage im, *was = nd_u32("none") ? &im : NULL; ILimage before; ILboolean v;
	st_n = nd_u32("len"); ASSUME(st_n <= 0x3ffffff0 && pos <= st_n); st_p = pos;
	iCurImage = was; before = im;
	ilSetRead(m_open, m_close, m_eof, m_getc, m_read, m_seek, m_tell);
	v = FN(&hnd_); COVER("checked"); 
#ifndef FEW
	if (v) COVER("valid");
#endif
	if (!v) COVER("refused");
	CHECK(st_p == pos, "checking a type keeps the position of the stream");
	CHECK(iCurImage == was, "checking a type keeps the current image");
	CHECK(same_byte(&before, &im), "checking a type does not change the current image");
}
// The checks for the types by their contract (H_valid): they keep the stream and the image. The dispatch has to keep them, too.
H(H_which) {
	ILuint pos = nd_u32("pos"); ILimage im, *was = nd_u32("none") ? &im : NULL; ILimage before; ILenum t = nd_u32("type");
	st_n = nd_u32("len"); ASSUME(st_n <= 0x3ffffff0 && pos <= st_n); st_p = pos; iCurImage = was; before = im;
	ilSetRead(m_open, m_close, m_eof, m_getc, m_read, m_seek, m_tell);
	if (nd_u32("determine")) ilDetermineTypeF(&hnd_); else ilIsValidF(t, &hnd_); COVER("checked");
	CHECK(st_p == pos, "the position of the stream is kept"); CHECK(iCurImage == was, "the current image is kept");
	CHECK(same_byte(&before, &im), "the current image is not changed");
}
#endif
