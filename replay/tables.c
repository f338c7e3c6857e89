#include "common.h"
void nkiTableResetHoles(struct NKVM *vm, struct NKVMTable *table);
// P04: slot tables.  Model: an array of pointers; the hole list must name exactly the empty slots.
#define MAXN 4096
static void *model[MAXN]; static uint32_t cap;
static void check(struct NKVMTable *t, int complete) {
    static unsigned char seen[MAXN]; struct NKVMTableHole *h; uint32_t i, n = 0; memset(seen, 0, sizeof seen);
    CHECK(t->capacity == cap, "capacity %u expected %u", t->capacity, cap);
    for(i = 0; i < cap; i++) CHECK(t->data[i] == model[i], "slot %u holds %p expected %p", i, t->data[i], model[i]);
    for(h = t->tableHoles; h; h = h->next) {
        CHECK(h->index < cap, "record names slot %u of %u", h->index, cap);
        CHECK(!model[h->index], "record names occupied slot %u", h->index);
        CHECK(!seen[h->index], "slot %u listed twice", h->index); seen[h->index] = 1; CHECK(++n <= cap, "list does not end");
    }
    if(complete) for(i = 0; i < cap; i++) CHECK(model[i] || seen[i], "empty slot %u not listed", i);
}
static void one_case(uint64_t n) {
    struct NKVM *vm = new_vm(); struct NKVMTable t; int complete = 1, k, steps = 1 + rndn(n % 3 ? 60 : 600), bias = 30 + rndn(65); static int payload[MAXN * 2]; uint32_t i, id, occ = 0;
    memset(&t, 0, sizeof t); memset(model, 0, sizeof model);
    CHECK(GUARD(vm, nkiTableInit(vm, &t)), "init"); cap = 1; tr("init\n"); check(&t, 1);
    for(k = 0; k < steps; k++) {
        uint32_t r = rndn(100);
        if(r < 5) {
            uint32_t hi = 0, want = cap; tr("shrink\n");
            if(!GUARD(vm, nkiTableShrink(vm, &t))) FAIL("shrink abandoned");
            for(i = 0; i < cap; i++) if(model[i]) hi = i;
            while(want / 2 > hi && want > 1) want /= 2;
            CHECK(t.capacity <= cap && t.capacity >= 1 && (occ == 0 || t.capacity > hi), "capacity %u after shrink, highest used slot %u", t.capacity, hi);
            CHECK((t.capacity & (t.capacity - 1)) == 0, "capacity %u", t.capacity);
            cap = t.capacity; complete = 1;
        } else if(r < 8 && complete) { tr("reset\n"); CHECK(GUARD(vm, nkiTableResetHoles(vm, &t)), "reset"); }
        else if(rndn(100) < bias) {
            if(occ == cap && cap * 2 > MAXN) continue;
            void *p = &payload[k]; uint32_t fa = rndn(40) == 0 ? rndn(4) : ~0u; int ok, full = occ == cap; uint32_t oldcap = cap;
            fail_after_ = fa == ~0u ? -1 : (long)fa; if(!complete) fail_after_ = -1;
            tr("add%s\n", fail_after_ >= 0 ? " (host refuses memory)" : ""); id = 0xffffffff;
            ok = GUARD(vm, id = nkiTableAddEntry(vm, &t, p)); fail_after_ = -1; vm->errorState.allocationFailure = nkfalse;
            if(!ok) { if(t.capacity != cap) { CHECK(full, "grew while not full"); for(i = cap; i < t.capacity; i++) model[i] = 0; cap = t.capacity; }
                      check(&t, 0); CHECK(GUARD(vm, nkiTableResetHoles(vm, &t)), "reset"); check(&t, 1); continue; }
            CHECK(id != 0xffffffff, "refused"); CHECK(id < t.capacity, "index %u", id);
            if(full) { CHECK(t.capacity == 2 * oldcap, "grew from %u to %u", oldcap, t.capacity); cap = t.capacity; } else CHECK(t.capacity == oldcap, "grew while a slot was free");
            CHECK(!model[id], "reused occupied slot %u", id); model[id] = p; occ++;
        } else if(occ) {
            id = rndn(cap); while(!model[id]) id = (id + 1) % cap;
            tr("erase %u\n", id); if(!GUARD(vm, nkiTableEraseEntry(vm, &t, id))) FAIL("erase abandoned"); model[id] = 0; occ--;
        }
        check(&t, complete);
    }
    for(i = 0; i < cap; i++) t.data[i] = NULL;
    { uint32_t u; tr("destroy\n"); nkiTableDestroy(vm, &t); CHECK(!t.data && !t.tableHoles && !t.capacity, "destroy left something"); u = vm->currentMemoryUsage; (void)u; }
    nkxVmDelete(vm); CHECK(live_blocks_ == 0, "%llu blocks leaked", (unsigned long long)live_blocks_);
}
