#include "common.h"
#include <limits.h>
// P20: growable text buffers against a plain model
static char *mk(uint32_t n) { char *p = (char *)malloc(n + 1); uint32_t i; for(i = 0; i < n; i++) p[i] = (char)(1 + rndn(255)); p[n] = 0; return p; }
static int32_t inum(void) { static const int32_t e[] = { 0, 1, -1, 9, 10, -9, -10, 99, 100, INT_MAX, INT_MIN, INT_MIN + 1, -1000000000, 1000000000, -999999999, 999999999 }; return rndn(3) ? e[rndn(16)] : (int32_t)(rnd() >> rndn(32)) * (rndn(2) ? 1 : -1); }
static float fnum(void) { union { uint32_t u; float f; } x; static const float e[] = { 0.0f, -0.0f, 1.0f, -1.5f, 3.4028234663852886e38f, -3.4028234663852886e38f, 1.4e-45f, 0.1f, 1e10f, INFINITY, -INFINITY, NAN }; if(rndn(2)) return e[rndn(12)]; x.u = rnd(); return x.f; }
static void one_case(uint64_t n) {
    struct NKVM *vm = new_vm(); struct NKDynString *d = NULL; char *model; size_t ml; int i, ok, steps = 1 + rndn(20); (void)n;
    { uint32_t l = rndn(4) ? rndn(40) : 0; char *s = rndn(8) ? mk(l) : NULL; tr("create(%u%s)\n", l, s ? "" : " NULL"); ok = GUARD(vm, d = nkiDynStrCreate(vm, s)); CHECK(ok && d, "refused"); model = (char *)malloc(1 << 16); strcpy(model, s ? s : "<null>"); ml = strlen(model); free(s); }
    for(i = 0; i < steps; i++) {
        char before[64]; size_t bl = ml; int k = rndn(5), fail = rndn(10) == 0; struct NKDynString saved = *d; (void)before;
        if(fail) fail_after_ = 0;
        if(k <= 1) { uint32_t l = rndn(6) ? rndn(30) : rndn(700); char *s = rndn(8) ? mk(l) : NULL; tr("append(%u chars%s)%s\n", l, s ? "" : " NULL", fail ? " failing" : ""); ok = GUARD(vm, nkiDynStrAppend(d, s)); strcpy(model + ml, s ? s : "<null>"); free(s); }
        else if(k == 2) { int32_t v = inum(); tr("appendInt32(%d)%s\n", v, fail ? " failing" : ""); ok = GUARD(vm, nkiDynStrAppendInt32(d, v)); sprintf(model + ml, "%d", v); }
        else if(k == 3) { uint32_t v = (uint32_t)inum(); tr("appendUint32(%u)%s\n", v, fail ? " failing" : ""); ok = GUARD(vm, nkiDynStrAppendUint32(d, v)); sprintf(model + ml, "%u", v); }
        else { float v = fnum(); tr("appendFloat(%a)%s\n", v, fail ? " failing" : ""); ok = GUARD(vm, nkiDynStrAppendFloat(d, v)); sprintf(model + ml, "%f", v); }
        ml = strlen(model); fail_after_ = -1;
        if(fail) { CHECK(!ok, "an allocation failed but the append went on"); vm->errorState.allocationFailure = nkfalse; model[bl] = 0; ml = bl; CHECK(d->data == saved.data, "the buffer moved in a failed append"); }
        else CHECK(ok, "refused");
        { struct NKMemoryHeader *h = (struct NKMemoryHeader *)d->data - 1; CHECK(h->size >= ml + 1, "block of %u bytes for %zu characters", h->size, ml); }
        CHECK(strlen(d->data) == ml && !memcmp(d->data, model, ml + 1), "text is \"%.200s\", wanted \"%.200s\"", d->data, model);
        if(ml > 60000) break;
    }
    ok = GUARD(vm, nkiDynStrDelete(d)); CHECK(ok, "delete"); vm->errorState.allocationFailure = nkfalse;
    nkxVmDelete(vm); CHECK(live_blocks_ == 0, "%llu blocks left", (unsigned long long)live_blocks_); free(model);
}
