#include "common.h"
// P11: operand stack against an array.
#define MAXS 200000
static struct NKValue model[MAXS]; static uint32_t n;
static int same(struct NKValue *a, struct NKValue *b) { return a->type == b->type && a->basicHashValue == b->basicHashValue; }
static void one_case(uint64_t c) {
    struct NKVM *vm = new_vm(); struct NKVMStack *s = &vm->currentExecutionContext->stack; int k, steps = 1 + rndn(c % 200 == 7 ? 300000 : 400), up = 40 + rndn(58), broken = 0; uint32_t i, lim;
    lim = rndn(3) == 0 ? rndn(300) : rndn(2) ? 0xffffffffu : 1u << rndn(18); nkxSetMaxStackSize(vm, lim); tr("limit %u\n", lim); n = 0;
    CHECK(nkxGetMaxStackSize(vm) == lim, "limit");
    { struct NKVMStack t; uint32_t u = vm->currentMemoryUsage; memset(&t, 0xff, sizeof t); CHECK(GUARD(vm, nkiVmStackInit(vm, &t)), "init"); CHECK(t.size == 0 && t.capacity == 1 && t.indexMask == 0 && t.values, "init"); nkiVmStackDestroy(vm, &t); CHECK(!t.values && !t.size && !t.capacity, "destroy"); CHECK(vm->currentMemoryUsage == u, "destroy kept memory"); nkiVmStackDestroy(vm, NULL); }
    for(k = 0; k < steps; k++) {
        uint32_t r = rndn(100), e0 = nkiGetErrorCount(vm), cap0 = s->capacity; struct NKValue *p; struct NKValue v; int ok; memset(&v, 0, sizeof v);
        if(rndn(30) == 0) fail_after_ = 0;
        if((int)r < up && n < MAXS - 2) {
            int kind = rndn(4); char b[32]; nkbool rr = 1; v.intData = (int)rnd(); int room = s->size < s->capacity || (s->capacity <= 0xffff && (uint64_t)s->capacity * 2 <= lim);
            p = NULL; ops_++; if(steps < 1000) tr("push %d kind %d\n", v.intData, kind);
            if(kind == 0) { v.type = NK_VALUETYPE_INT; ok = GUARD(vm, rr = nkiVmStackPushInt(vm, v.intData)); }
            else if(kind == 1) { v.type = NK_VALUETYPE_FLOAT; v.floatData = (float)v.intData; ok = GUARD(vm, rr = nkiVmStackPushFloat(vm, v.floatData)); }
            else if(kind == 2) { v.type = NK_VALUETYPE_STRING; snprintf(b, sizeof b, "s%u", rndn(50)); ok = GUARD(vm, v.stringTableEntry = nkiVmStringTableFindOrAddString(vm, b)); if(ok) ok = GUARD(vm, rr = nkiVmStackPushString(vm, b)); }
            else { v.type = NK_VALUETYPE_INT; ok = GUARD(vm, p = nkiVmStackPush_internal(vm)); if(ok) { CHECK(p >= s->values && p < s->values + s->capacity, "pushed outside the buffer"); if(nkiGetErrorCount(vm) == e0) *p = v; } }
            vm->errorState.allocationFailure = 0;
            if(ok) { CHECK(rr, "push result");
                if(room) { CHECK(nkiGetErrorCount(vm) == e0, "error with room left"); model[n++] = v; } else { CHECK(nkiGetErrorCount(vm) == e0 + 1, "overflow not reported"); model[0] = s->values[0]; broken = 1; } }
            CHECK(s->capacity == cap0 || s->capacity <= lim, "capacity %u beyond limit %u", s->capacity, lim);
        } else if(r < 85) {
            fail_after_ = -1; ops_++; if(steps < 1000) tr("pop\n"); p = NULL; ok = GUARD(vm, p = nkiVmStackPop(vm)); CHECK(ok && p, "pop");
            if(n) { n--; CHECK(same(p, &model[n]), "popped %d/%d expected %d/%d", p->type, p->intData, model[n].type, model[n].intData); CHECK(nkiGetErrorCount(vm) == e0, "spurious error"); }
            else { CHECK(nkiGetErrorCount(vm) == e0 + 1, "underflow not reported"); CHECK(p >= s->values && p < s->values + s->capacity, "underflow yields pointer outside"); }
        } else if(r < 92) {
            uint32_t q = rndn(4) ? rndn(n + 3) : (rndn(2) ? 0xffffffffu - rndn(3) : rnd()); fail_after_ = -1; tr("popN %u\n", q); CHECK(GUARD(vm, nkiVmStackPopN(vm, q)), "popN");
            if(q <= n) { n -= q; CHECK(nkiGetErrorCount(vm) == e0, "spurious error"); } else { n = 0; CHECK(nkiGetErrorCount(vm) == e0 + 1, "underflow not reported"); }
        } else if(r < 99) {
            uint32_t q = rndn(2) ? rndn(n + 4) : rnd(); fail_after_ = -1; p = nkiVmStackPeek(vm, q); CHECK(p >= s->values && p < s->values + s->capacity, "peek %u outside the buffer", q); if(q < n) CHECK(same(p, &model[q]), "peek %u", q);
        } else { int f = rndn(2); tr("clear %d\n", f); if(GUARD(vm, nkiVmStackClear(vm, s, f))) { n = 0; for(i = 0; i < s->capacity; i++) CHECK(s->values[i].type_uint == 0 && s->values[i].basicHashValue == 0, "stale value after clear"); } else { vm->errorState.allocationFailure = 0; n = 0; } }
        fail_after_ = -1; vm->errorState.allocationFailure = 0;
        CHECK(s->size == n, "size %u expected %u", s->size, n); CHECK(s->size <= s->capacity && s->indexMask == s->capacity - 1 && (s->capacity & (s->capacity - 1)) == 0 && s->capacity, "capacity %u mask %u", s->capacity, s->indexMask);
        if(s->capacity != cap0 || k == steps - 1 || rndn(50) == 0) for(i = 0; i < n; i++) CHECK(same(&s->values[i], &model[i]), "element %u of %u changed", i, n);
    }
    (void)broken; nkxVmDelete(vm);
}
