// P05: the error queue. Contract of ilSetError / ilGetError against an abstract
// queue (newest first, capacity QCAP), from an arbitrary reachable queue state.
#include "vrt.h"
#define QCAP 32   /* documented queue depth (IL_ERROR_STACK_SIZE) */
// Reference queue: ghost[0] oldest
static ILenum ghost[64]; static unsigned gn;
static void g_push(ILenum e) { unsigned i; if (gn == QCAP) { for (i = 0; i + 1 < QCAP; i++) ghost[i] = ghost[i+1]; ghost[QCAP-1] = e; } else ghost[gn++] = e; }
static void drain(void) { unsigned i; for (i = 0; i < QCAP + 1; i++) if (ilGetError() == IL_NO_ERROR) break; }
// arbitrary state: after a drain, n arbitrary errors were recorded (every queue
// content is reached this way), then one more is recorded; then everything is read.
H(H_one_more) {
	unsigned i, n = nd_rng("n", 0, QCAP); ILenum e;
	drain(); gn = 0;
	for (i = 0; i < n; i++) { e = nd_u32("e"); ASSUME(e != IL_NO_ERROR); ilSetError(e); g_push(e); }
	e = nd_u32("last"); ASSUME(e != IL_NO_ERROR);
	ilSetError(e); g_push(e);
	COVER("recorded");
	if (n == QCAP) COVER("overflow");
	for (i = 0; i < QCAP + 1; i++) {
		ILenum g = ilGetError();
		if (i < gn) CHECK(g == ghost[gn - 1 - i], "newest first, only the oldest dropped");
		else CHECK(g == IL_NO_ERROR, "then no error");
	}
}
#ifdef VRT_CBMC
// Inductive step over the library's own representation: from every state that
// satisfies the invariant, each operation re-establishes it and acts on the
// abstract queue (w = arbitrary witness position, counted from the newest).
extern ILenum ilErrorNum[]; extern ILint ilErrorPlace;
static void any_state(void) { int i; ilErrorPlace = nd_irng("place", -1, QCAP - 1); for (i = 0; i < QCAP; i++) { ilErrorNum[i] = nondet_uint(); ASSUME(ilErrorNum[i] != IL_NO_ERROR); } }
H(H_step_set) {
	ILenum e = nd_u32("e"), old = 0, olde; ILint p, w = nd_irng("w", 0, QCAP - 1);
	any_state(); ASSUME(e != IL_NO_ERROR); p = ilErrorPlace;
	if (w <= p) old = ilErrorNum[p - w];
	ilSetError(e);
	COVER("set");
	CHECK(ilErrorPlace >= 0 && ilErrorPlace < QCAP, "invariant");
	CHECK(ilErrorPlace == (p + 1 < QCAP ? p + 1 : QCAP - 1), "one more entry, at most the capacity");
	CHECK(ilErrorNum[ilErrorPlace] == e, "newest is the recorded one");
	if (w <= p && w + 1 < QCAP) CHECK(ilErrorNum[ilErrorPlace - 1 - w] == old, "order kept, only the oldest dropped");
}
H(H_step_get) {
	ILenum g, old = 0, top = 0; ILint p, w = nd_irng("w", 0, QCAP - 1);
	any_state(); p = ilErrorPlace;
	if (p >= 0) top = ilErrorNum[p];
	if (w < p) old = ilErrorNum[w];
	g = ilGetError();
	COVER("get");
	CHECK(g == (p >= 0 ? top : IL_NO_ERROR), "newest returned, or none");
	CHECK(ilErrorPlace == (p >= 0 ? p - 1 : -1), "exactly that entry removed");
	if (w < p) CHECK(ilErrorNum[w] == old, "the rest unchanged");
}
H(H_initial) { COVER("init"); CHECK(ilErrorPlace == -1, "initially empty"); CHECK(ilGetError() == IL_NO_ERROR, "no error initially"); }
#endif
// interleaving: push, read some, push again
H(H_interleave) {
	unsigned i, n = nd_rng("n", 0, QCAP), k = nd_rng("k", 0, QCAP), m = nd_rng("m", 0, 2); ILenum e, g;
	drain(); gn = 0;
	for (i = 0; i < n; i++) { e = nd_u32("e"); ASSUME(e != IL_NO_ERROR); ilSetError(e); g_push(e); }
	for (i = 0; i < k; i++) { g = ilGetError(); if (gn == 0) CHECK(g == IL_NO_ERROR, "empty reads no error"); else { CHECK(g == ghost[gn-1], "reads newest"); gn--; } }
	for (i = 0; i < m; i++) { e = nd_u32("f"); ASSUME(e != IL_NO_ERROR); ilSetError(e); g_push(e); }
	COVER("mixed");
	for (i = 0; i < QCAP + 1; i++) {
		g = ilGetError();
		if (i < gn) CHECK(g == ghost[gn - 1 - i], "order kept"); else CHECK(g == IL_NO_ERROR, "then no error");
	}
}
