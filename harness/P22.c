// P22: registered load and save handlers.
#include "img.h"
#include "il_register.h"
#ifdef __cplusplus
#define EXTC extern "C"
#else
#define EXTC
#endif
extern iFormatL *LoadProcs; extern iFormatS *SaveProcs;
#define NH 4
static int called[2 * NH], ncalled; static ILconst_string called_with; static ILenum ret_;
#define HND(i) EXTC ILenum ILAPIENTRY load##i(ILconst_string f) { called[i]++; ncalled++; called_with = f; return ret_; } EXTC ILenum ILAPIENTRY save##i(ILconst_string f) { called[NH + i]++; ncalled++; called_with = f; return ret_; }
HND(0) HND(1) HND(2) HND(3)
static IL_LOADPROC LH(int i) { return i == 0 ? load0 : i == 1 ? load1 : i == 2 ? load2 : load3; }
static IL_SAVEPROC SH(int i) { return i == 0 ? save0 : i == 1 ? save1 : i == 2 ? save2 : save3; }
static int lo(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int same_ext(const char *a, const char *b) { int i; for (i = 0; i < 8; i++) { if (lo(a[i]) != lo(b[i])) return 0; if (!a[i]) return 1; } return 1; }
#ifdef VRT_CBMC
#ifndef KIND
#define KIND 0
#endif
extern ILint ilErrorPlace;
#undef CLRERR
#define CLRERR (ilErrorPlace = -1)
#ifndef NN
#define NN 4
#endif
#ifndef XL
#define XL 3
#endif
int strcasecmp(const char *a, const char *b) { int i; for (i = 0; i < 8; i++) { int d = lo(a[i]) - lo(b[i]); if (d) return d; if (!a[i]) return 0; } return 0; }
static char *mk_ext(void) { char *e = (char *)malloc(XL + 1); int i; __CPROVER_assume(e != 0); for (i = 0; i < XL; i++) { e[i] = nd_u8("e"); __CPROVER_assume(e[i] >= 0); } e[XL] = 0; return e; }
// the map: the handler of an extension, -1 when there is none
static int find(const char *e) {
	int i, n = 0; 
	if (KIND == 0) { iFormatL *p = LoadProcs; for (i = 0; i < 4 && p; i++, p = p->Next) if (same_ext(p->Ext, e)) { int h; for (h = 0; h < NH; h++) if (p->Load == LH(h)) return h; return -2; } }
	else { iFormatS *p = SaveProcs; for (i = 0; i < 4 && p; i++, p = p->Next) if (same_ext(p->Ext, e)) { int h; for (h = 0; h < NH; h++) if (p->Save == SH(h)) return h; return -2; } }
	return -1;
}
static ILuint count(void) { ILuint n = 0; if (KIND == 0) { iFormatL *p = LoadProcs; while (p) { n++; p = p->Next; } } else { iFormatS *p = SaveProcs; while (p) { n++; p = p->Next; } } return n; }
// an arbitrary list of at most 3 different extensions
static ILuint any_list(void) {
	ILuint n = NN < 4 ? NN : nd_rng("n", 0, 3), i; char *e[3];
	LoadProcs = NULL; SaveProcs = NULL;
	for (i = 0; i < 3; i++) e[i] = mk_ext();
	for (i = 0; i < 3; i++) { ILuint k; for (k = 0; k < i; k++) ASSUME(i >= n || !same_ext(e[i], e[k])); }
	for (i = 0; i < 3; i++) if (i < n) {
		if (KIND == 0) { iFormatL *f = (iFormatL *)malloc(sizeof(iFormatL)); __CPROVER_assume(f != 0); f->Ext = e[i]; f->Load = LH(nd_rng("h", 0, NH - 1)); f->Next = LoadProcs; LoadProcs = f; }
		else { iFormatS *f = (iFormatS *)malloc(sizeof(iFormatS)); __CPROVER_assume(f != 0); f->Ext = e[i]; f->Save = SH(nd_rng("h", 0, NH - 1)); f->Next = SaveProcs; SaveProcs = f; }
	}
	return n;
}
// every operation acts on the map as on a map: a is the extension operated on, x an arbitrary one
H(H_register) {
	char *a = mk_ext(), *x = mk_ext(), *a0; ILuint n = any_list(), h = nd_rng("new", 0, NH - 1); int fa = find(a), fx = find(x); ILboolean r;
	CLRERR; r = KIND == 0 ? ilRegisterLoad(a, LH(h)) : ilRegisterSave(a, SH(h));
	if (fa != -1) {
#if NN
		COVER("present");
#endif
		 CHECK(find(a) == fa && count() == n, "an extension that is present keeps its handler"); }
	else if (r) { COVER("added"); CHECK(find(a) == (int)h && count() == n + 1, "an absent extension is added"); }
	else { COVER("failed"); CHECK(find(a) == -1 && count() == n && ilErrorPlace >= 0, "or nothing is, with an error"); }
	if (!same_ext(x, a)) CHECK(find(x) == fx, "no other extension changes");
	a[0] = a[0] == 'q' ? 'r' : 'q'; if (fa == -1 && r) { a0 = a; a0[0] = a0[0]; CHECK(count() == n + 1, "the name is copied"); }
}
H(H_remove) {
	char *a = mk_ext(), *x = mk_ext(); ILuint n = any_list(); int fa = find(a), fx = find(x); ILboolean r;
	CLRERR; r = KIND == 0 ? ilRemoveLoad(a) : ilRemoveSave(a);
	if (fa != -1) { COVER("removed"); CHECK(r && count() == n - 1, "a registered extension is removed"); } else { COVER("absent"); CHECK(!r && count() == n, "removing an absent one fails"); }
	CHECK(find(a) == -1, "it is no longer registered");
	if (!same_ext(x, a)) CHECK(find(x) == fx, "no other extension changes");
}
H(H_use) {
	char f[8], *e; ILuint n = any_list(), i, d = nd_rng("dot", 0, 3); int fa; ILboolean r;
	for (i = 0; i < 8; i++) { f[i] = nd_u8("f"); ASSUME(f[i] >= 0); }
	f[d] = '.'; f[d + XL + 1] = 0; for (i = 0; i < 8; i++) if (i < d) ASSUME(f[i] != 0); else if (i > d) ASSUME(f[i] != '.');
	e = f + d + 1; fa = find(e); ret_ = nd_u32("ret"); CLRERR;
	r = KIND == 0 ? iRegisterLoad(f) : iRegisterSave(f);
	if (fa >= 0) { COVER("called"); CHECK(ncalled == 1 && called[KIND * NH + fa] == 1 && called_with == f, "its handler is called once, with the name"); CHECK(r == (ret_ == IL_NO_ERROR) && (r || ilErrorPlace >= 0), "its result is reported"); }
	else { COVER("none"); CHECK(!r && ncalled == 0, "no handler is called"); }
	CHECK(count() == n && find(e) == fa, "the map is unchanged");
}
#else
#include <stdio.h>
static const char *EX[6] = { "zz1", "ZZ1", "zz", "q_q", "ZZ12", "Zz" };
static int cls(int i) { return i == 0 || i == 1 ? 0 : i == 2 || i == 5 ? 1 : i == 3 ? 2 : 3; }
// histories against a map, through ilLoad and ilSave
H(H_hist) {
	int m[2][4], i, n = nd_rng("n", 1, 14), k, c; char name[32], tmp[8];
	ilResetMemory(); ilRemoveRegistered(); for (i = 0; i < 4; i++) m[0][i] = m[1][i] = -1; ilTexImage(1, 1, 1, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE, NULL);
	for (i = 0; i < n; i++) {
		int x = nd_rng("x", 0, 5), op = nd_rng("op", 0, 3), h = nd_rng("h", 0, NH - 1); ILboolean r; c = cls(x); k = nd_rng("k", 0, 1);
		strcpy(tmp, EX[x]);
		if (op <= 1) {
			CLRERR; FAULTS(); r = k ? ilRegisterSave(tmp, SH(h)) : ilRegisterLoad(tmp, LH(h)); FAULTS_OFF();
			if (m[k][c] < 0 && r) m[k][c] = h;
			CHECK(m[k][c] >= 0 || ilGetError() != IL_NO_ERROR, "registered, or an error"); COVER("register");
		} else if (op == 2) { r = k ? ilRemoveSave(tmp) : ilRemoveLoad(tmp); CHECK(r == (m[k][c] >= 0), "removed exactly when registered"); m[k][c] = -1; COVER("remove"); }
		memset(tmp, 'x', 7);
		// probe
		x = nd_rng("px", 0, 5); c = cls(x); k = nd_rng("pk", 0, 1);
		sprintf(name, "%s.%s", nd_rng("pre", 0, 1) ? "no/such.zz" : "nosuch", EX[x]);
		memset(called, 0, sizeof called); ncalled = 0; ret_ = nd_rng("bad", 0, 2) ? IL_NO_ERROR : IL_INVALID_VALUE; CLRERR;
		r = k ? ilSave(IL_TYPE_UNKNOWN, name) : ilLoad(IL_TYPE_UNKNOWN, name);
		if (m[k][c] >= 0) { COVER("called"); CHECK(ncalled == 1 && called[k * NH + m[k][c]] == 1 && !strcmp(called_with, name), "the registered handler is called, once"); CHECK(r == (ret_ == IL_NO_ERROR) && (r || ilGetError() != IL_NO_ERROR), "its result is reported"); }
		else { COVER("none"); CHECK(ncalled == 0 && !r, "no handler is called"); }
	}
	CHECK(!ilRegisterLoad(NULL, LH(0)) && !ilRegisterSave("zzz", NULL) && !ilRemoveLoad(NULL) && !ilRemoveSave(NULL), "bad arguments are refused");
	ilRemoveRegistered();
}
#endif
