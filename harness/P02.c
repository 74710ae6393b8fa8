// P02: image names.
#include "img.h"
#ifdef VRT_CBMC
// contract of ilRecalloc (H_recalloc): a larger block with the old bytes, then zeros; or NULL, nothing changed
static void *c_recalloc(void *p, ILuint o, ILuint n) {
	ILimage **t, **s = (ILimage **)p; ILuint i;
	if (nd_rng("re", 0, 1) == 0) { ilSetError(IL_OUT_OF_MEMORY); return NULL; }
	__CPROVER_assert(n >= o && o % sizeof(ILimage *) == 0 && n % sizeof(ILimage *) == 0 && o / sizeof(ILimage *) <= 8 && n / sizeof(ILimage *) <= 24, "table growth within the bound");
	t = (ILimage **)malloc(sizeof(ILimage *) * 24); __CPROVER_assume(t != 0);
	for (i = 0; i < 24; i++) t[i] = i < o / sizeof(ILimage *) ? s[i] : NULL;
	if (p) free(p);
	return t;
}
#include "x_il_stack.cpp"   // src-IL/src/il_stack.cpp with I_STACK_INCREMENT 8
#ifndef NFREE
#define NFREE 3
#endif
#ifndef TAB
#define TAB I_STACK_INCREMENT
#endif
ILboolean ILAPIENTRY ilDefaultImage(void) { return IL_TRUE; }   // only fills the current image
// an arbitrary state that satisfies the invariant of the name table:
//   slots from LastUsed on are empty; slot 0 and the slot of the current name are not;
//   the list of free names holds different, non-zero, empty slots below LastUsed.
// a: the name operated on, b: an arbitrary other name
#ifndef NUM
#define NUM 1
#endif
#ifndef ALO
#define ALO 0
#define AHI 7
#endif
extern ILint ilErrorPlace;
#undef CLRERR
#define CLRERR (ilErrorPlace = -1)
static ILuint a, b; static iFree *fn[NFREE + 1]; static unsigned nf;
static ILimage *slot_b, *cur; static ILuint cur_name, last; static int live_a, live_b;
static ILimage *img(void) { ILimage *p = (ILimage *)malloc(sizeof(ILimage)); __CPROVER_assume(p != 0); memset(p, 0, sizeof *p); return p; }
static ILimage *slot(ILuint n) { return n < StackSize ? ImageStack[n] : NULL; }
static void any_table(void) {
	unsigned i; ILuint nm[NFREE];
	StackSize = TAB; ImageStack = (ILimage **)malloc(sizeof(ILimage *) * TAB); __CPROVER_assume(ImageStack != 0);
	LastUsed = nd_rng("last", 2, TAB); last = LastUsed; OnExit = IL_TRUE;
	b = nd_u32("b"); ASSUME(b != a);
	live_a = a == 0 || (a < LastUsed && nd_rng("live_a", 0, 1)); live_b = b == 0 || (b < LastUsed && nd_rng("live_b", 0, 1));
	CurName = nd_u32("cur"); ASSUME(CurName < LastUsed && (CurName != a || live_a) && (CurName != b || live_b)); cur_name = CurName;
	nf = nd_rng("nf", 0, NFREE);
	for (i = 0; i < NFREE; i++) { nm[i] = nd_u32("nm"); ASSUME(nm[i] > 0 && nm[i] < LastUsed && nm[i] != CurName && (nm[i] != a || !live_a) && (nm[i] != b || !live_b)); }
	for (i = 0; i < NFREE; i++) { unsigned k; for (k = 0; k < i; k++) ASSUME(nm[i] != nm[k]); }
	fn[nf] = NULL; FreeNames = NULL;
	for (i = NFREE; i > 0; i--) if (i <= nf) { iFree *f = (iFree *)malloc(sizeof(iFree)); __CPROVER_assume(f != 0); f->Name = nm[i - 1]; f->Next = FreeNames; FreeNames = f; ImageStack[nm[i - 1]] = NULL; }
	if (LastUsed < TAB) ImageStack[LastUsed] = NULL;
	if (LastUsed + 1 < TAB) ImageStack[LastUsed + 1] = NULL;
	if (b < TAB) ImageStack[b] = NULL;
	if (a < TAB) ImageStack[a] = NULL;
	ImageStack[0] = img();
	if (live_a && a) ImageStack[a] = img();
	if (live_b && b) ImageStack[b] = img();
	if (CurName && CurName != a && CurName != b) ImageStack[CurName] = img();
	slot_b = slot(b); cur = iCurImage = nd_rng("sub", 0, 1) ? ImageStack[CurName] : img();   // may be a sub-image
	CLRERR;
}
static void inv(void) {   // the invariant holds again; b's slot is as before
	iFree *f = FreeNames, *g; unsigned n = 0;
	CHECK(slot(b) == slot_b, "no other name's image changes");
	CHECK(StackSize >= TAB && LastUsed <= StackSize && LastUsed >= last, "table size");
	CHECK(CurName < LastUsed && iCurImage != NULL && slot(CurName) != NULL && slot(0) != NULL, "the current name and name 0 are in use");
	if (b >= LastUsed) CHECK(slot(b) == NULL, "names never used are free");
	for (; f && n < NFREE + 2; f = (iFree *)f->Next, n++) {
		CHECK(f->Name > 0 && f->Name < LastUsed && ImageStack[f->Name] == NULL, "a free name is not in use");
		for (g = (iFree *)f->Next; g; g = (iFree *)g->Next) CHECK(g->Name != f->Name, "a free name is listed once");
	}
}
static void same_cur(void) { CHECK(CurName == cur_name && iCurImage == cur, "the current image stays"); }
H(H_gen) {
	ILuint r[2]; int k;
	a = nd_u32("a"); any_table();
	ilGenImages(NUM, r);
	COVER("gen");
	for (k = 0; k < NUM; k++) if (r[k]) {
		COVER("name");
		CHECK(r[k] != b || !live_b, "a generated name was not in use"); CHECK(r[k] != a || !live_a, "a generated name was not in use"); CHECK(r[k] != cur_name, "a generated name was not in use");
		CHECK(ilIsImage(r[k]) == IL_TRUE, "a generated name is an image");
		if (r[k] == b) { slot_b = slot(b); CHECK(!k || r[0] != b, "two generated names differ"); }
		if (k) CHECK(r[0] != r[1], "two generated names differ");
	} else CHECK(ilErrorPlace >= 0, "a failure is an error");
	same_cur(); inv();
	if (slot(b) == NULL) CHECK(!ilIsImage(b), "other names are not images");
}
H(H_bind) {
	ILimage *old;
	a = nd_rng("a", ALO, AHI); any_table(); old = slot(a);
	ilBindImage(a);
	COVER("bind");
	if (ilErrorPlace >= 0) { COVER("failed"); same_cur(); CHECK(slot(a) == old, "nothing changes on failure"); CHECK(!live_a, "binding a name in use never fails"); }
	else { CHECK(CurName == a && ilGetCurName() == a && iCurImage == slot(a) && ilGetCurImage() == slot(a), "the name's image is current");
		CHECK(iCurImage != NULL && (!live_a || iCurImage == old), "with the image it last had"); CHECK(a == 0 || ilIsImage(a), "a bound name is an image");
		CHECK(iCurImage != slot_b || !slot_b, "not another name's image"); }
	inv();
}
H(H_del) {
	ILuint v[2];
	a = nd_u32("a"); any_table(); v[0] = a; v[1] = nd_u32("c"); ASSUME(v[1] != b && (v[1] == a || v[1] == 0 || !slot(v[1])));
	ilDeleteImages(2, v);
	COVER("delete");
	CHECK(!ilIsImage(a), "a deleted name is not an image"); CHECK(a == 0 || !slot(a), "its image is gone");
	if (a == 0 || a != cur_name) same_cur(); else CHECK(CurName == 0 && iCurImage == slot(0), "deleting the current image selects the default image");
	inv();
}
H(H_is) {
	a = nd_u32("a"); any_table();
	COVER("is");
	CHECK(ilIsImage(a) == (live_a && a != 0), "a name is an image when it is in use");
	same_cur(); inv();
}
H(H_init) {   // the first initialisation establishes the invariant
	COVER("init");
	ImageStack = NULL; StackSize = 0; LastUsed = 0; FreeNames = NULL; OnExit = IL_TRUE; CLRERR;
	iSetImage0(); iBindImageTemp();
	ASSUME(ilErrorPlace < 0);   // enough memory
	CHECK(StackSize == TAB && LastUsed == 2 && CurName == 1 && FreeNames == NULL, "names 0 and 1");
	{ ILuint w = nd_u32("w"); CHECK(ilIsImage(w) == (w == 1), "no other name is an image"); CHECK(iCurImage == slot(1) && slot(0) != NULL && slot(0) != slot(1), "the temporary image is current"); }
}
#else
#if !defined(VRT_DV)
#define HIST
#endif
void* ILAPIENTRY ilRecalloc(void *Ptr, ILuint OldSize, ILuint NewSize);
// reallocation keeps the old bytes and clears the new ones
H(H_recalloc) {
	ILuint o = nd_len("o", 8, 200), n = nd_rng("n", 0, VRT_BOUND(8, 200, 0x7fffffffu)), i; ILubyte *p = NULL, *q; int some = nd_rng("some", 0, 1); ILubyte b = 0;
	if (!some) o = 0;
	ASSUME(n > 0);
	i = nd_rng("i", 0, VRT_BOUND(8, 199, 0x7fffffffu)); ASSUME(i < n);
	if (some) { p = (ILubyte *)ialloc(o); ASSUME(p != NULL); if (i < o) { b = nd_u8("b"); p[i] = b; } }
	q = (ILubyte *)ilRecalloc(p, o, n);
	COVER("recalloc");
	if (!q) { if (i < o) CHECK(p[i] == b, "the old block stays on failure"); return; }
	CHECK(q[i] == (i < o ? b : 0), "old bytes, then zeros");
	ifree(q);
}
#ifdef HIST
// any history of generating, binding, deleting, against a map of live names; every live
// name's image carries its own mark
#define NN 24
static ILuint nm[NN]; static int lv[NN]; static ILubyte mk[NN]; static unsigned nn, cc; static ILubyte nextmk;
static int find(ILuint n) { unsigned k; for (k = 0; k < nn; k++) if (nm[k] == n) return (int)k; return -1; }
static int add(ILuint n) { int k = find(n); if (k < 0) { if (nn == NN) return -1; k = (int)nn++; nm[k] = n; lv[k] = 0; } return k; }
static void chk(void) {
	unsigned k;
	for (k = 0; k < nn; k++) CHECK(ilIsImage(nm[k]) == (nm[k] && lv[k]), "a name is an image exactly while it is in use");
	CHECK(ilGetCurName() == nm[cc], "the current name"); CHECK(iCurImage != NULL, "an image is current");
}
static void setmark(int k) { ilGetData()[0] = mk[k] = ++nextmk; }
static void mark(int k) { CHECK(ilGetData()[0] == mk[k], "with the contents that name last had"); }
H(H_hist) {
	unsigned i, n = nd_rng("n", 1, 24);
	ilResetMemory(); ilShutDown(); ilInit(); nn = 0; nextmk = 0;
	add(0); add(1); lv[0] = lv[1] = 1; cc = 1;
	ilBindImage(0); setmark(0); ilBindImage(1); setmark(1);
	FAULTS();
	for (i = 0; i < n; i++) {
		ILuint k, q[4], m = nd_rng("m", 1, 3); int f; ILuint v;
		CLRERR;
		switch (nd_rng("op", 0, 4)) {
		case 0:
			memset(q, 0x55, sizeof q);
			if (m == 1 && nd_rng("one", 0, 1)) q[0] = ilGenImage(); else ilGenImages(m, q);
			for (k = 0; k < m; k++) {
				if (!q[k]) { CHECK(ilGetError() != IL_NO_ERROR, "a failure is an error"); break; }
				f = find(q[k]); CHECK(f < 0 || !lv[f], "a generated name is not in use");
				f = add(q[k]); if (f < 0) { ilDeleteImages(1, &q[k]); continue; }
				lv[f] = 1; mk[f] = 0; CHECK(ilIsImage(q[k]), "a generated name is an image");
				{ unsigned c = nm[cc]; FAULTS_OFF(); ilBindImage(q[k]); CHECK(ilGetCurName() == q[k], "a generated name can be bound"); setmark(f); ilBindImage(c); mark((int)cc); }
			}
			break;
		case 1: case 2:
			v = nd_rng("far", 0, 15) ? nd_rng("v", 0, 8) : nd_rng("hi", 0, 1) ? nd_rng("vh", 1000, 2100) : 0xFFFFFFF0u + nd_rng("vx", 0, 15);
			f = add(v); if (f < 0) break;
			ilBindImage(v);
			if (ilGetError() != IL_NO_ERROR) { CHECK(!lv[f], "binding a name in use never fails"); mark((int)cc); break; }
			CHECK(v < 0xFFFFFFF0u, "a name that cannot be held is refused");
			cc = (unsigned)f; if (!lv[f]) { lv[f] = 1; setmark(f); } else mark(f);
			break;
		default:
			for (k = 0; k < m; k++) q[k] = nd_rng("d", 0, 9);
			if (m == 1 && nd_rng("one", 0, 1)) ilDeleteImage(q[0]); else ilDeleteImages(m, q);
			for (k = 0; k < m; k++) if (q[k] && (f = find(q[k])) >= 0) { lv[f] = 0; if (cc == (unsigned)f) { cc = 0; mark(0); } }
		}
		chk();
	}
	COVER("end");
	FAULTS_OFF();
	for (i = 0; i < nn; i++) if (lv[i]) { ilBindImage(nm[i]); CHECK(ilGetCurName() == nm[i], "a name in use can be bound"); mark((int)i); }
	ilShutDown(); ilInit();
}
#endif
#endif
