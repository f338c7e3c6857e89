#include "common.h"
// P01/P02: allocator histories against a list of live blocks.
#define MAXB 400
struct B { unsigned char *p; uint32_t n; unsigned char pat; }; static struct B b[MAXB]; static int nb; static uint64_t base, sum, peak; 
#define H ((uint64_t)sizeof(struct NKMemoryHeader))
static uint32_t some_size(void) {
    switch(rndn(14)) { case 0: return 0; case 1: return 0xffffffffu - rndn(80); case 2: return 0x80000000u + rndn(10) - 5; case 3: return rndn(100000); case 4: return 0x7fffffffu; case 5: return 0x40000000u + rndn(8) - 4; default: return rndn(200); }
}
static void fill(struct B *x) { uint32_t i; for(i = 0; i < x->n; i++) x->p[i] = (unsigned char)(x->pat + i * 7); }
static void verify_(struct B *x, uint32_t n) { uint32_t i; for(i = 0; i < n; i++) CHECK(x->p[i] == (unsigned char)(x->pat + i * 7), "contents of a block changed at %u of %u", i, n); }
static void check(struct NKVM *vm) {
    struct NKMemoryHeader *h; uint64_t s = 0; int i, n = 0;
    CHECK(nkxVmGetCurrentMemoryUsage(vm) == base + sum, "usage %u expected %llu", nkxVmGetCurrentMemoryUsage(vm), (unsigned long long)(base + sum));
    CHECK(nkxVmGetPeakMemoryUsage(vm) == peak, "peak %u expected %llu", nkxVmGetPeakMemoryUsage(vm), (unsigned long long)peak);
    for(i = 0; i < nb; i++) verify_(&b[i], b[i].n);
    for(h = vm->allocations; h; h = h->nextAllocation) { s += h->size + H; CHECK(*h->prevAllocationPtr == h, "list broken"); CHECK(++n < 100000, "list endless"); }
    CHECK(s == base + sum, "list sums to %llu expected %llu", (unsigned long long)s, (unsigned long long)(base + sum));
}
static void add(struct NKVM *vm, unsigned char *p, uint32_t n) {
    int i; CHECK(p, "no block for %u bytes", n);
    for(i = 0; i < nb; i++) CHECK(p + n <= b[i].p || p >= b[i].p + b[i].n, "blocks overlap");
    b[nb].p = p; b[nb].n = n; b[nb].pat = (unsigned char)rnd(); fill(&b[nb]); nb++; sum += n + H; 
    CHECK(nkxVmGetCurrentMemoryUsage(vm) <= nkxGetMaxAllocatedMemory(vm), "limit %u exceeded: %u", nkxGetMaxAllocatedMemory(vm), nkxVmGetCurrentMemoryUsage(vm));
    if(base + sum > peak) peak = base + sum;
}
static void one_case(uint64_t c) {
    struct NKVM *vm = new_vm(); int k, steps = 1 + rndn(200); uint64_t live0 = live_blocks_; (void)c;
    nb = 0; sum = 0; base = nkxVmGetCurrentMemoryUsage(vm); peak = nkxVmGetPeakMemoryUsage(vm);
    { struct NKMemoryHeader *h; uint64_t s = 0; for(h = vm->allocations; h; h = h->nextAllocation) s += h->size + H; CHECK(s == base, "fresh machine: list %llu usage %llu", (unsigned long long)s, (unsigned long long)base); }
    for(k = 0; k < steps; k++) {
        uint32_t r = rndn(100), n = some_size(), e = 1 + rndn(20), cnt; void *p; int ok; uint64_t lim; 
        if(rndn(20) == 0) { uint32_t l = rndn(3) ? (uint32_t)(base + sum + rndn(3000)) : rndn(2) ? 0xffffffffu : (uint32_t)rnd(); tr("limit %u\n", l); nkxSetMaxAllocatedMemory(vm, l); CHECK(nkxGetMaxAllocatedMemory(vm) == l, "limit"); }
        lim = nkxGetMaxAllocatedMemory(vm);
        if(rndn(25) == 0) { fail_after_ = 0; tr("(host refuses memory) "); }
        if(nb >= MAXB - 2) r = 99;
        if(rndn(8) == 0 && lim > base + sum + H) { n = (uint32_t)(lim - base - sum - H + rndn(3) - 1); }
        if(n > 0x3000000 && n < 0x30000000u) n = 12345;
#define TOTAL(x) ((uint64_t)(x) + H + base + sum)
        if(r < 35) {
            tr("malloc %u\n", n); p = (void *)1; ok = rndn(2) ? GUARD(vm, p = nkiMalloc(vm, n)) : (p = nkxMalloc(vm, n), !vm->errorState.allocationFailure);
            if(ok) { if(!n) CHECK(!p, "zero-size"); else { CHECK(TOTAL(n) <= lim && TOTAL(n) <= 0xffffffffu, "granted %u beyond limit %llu", n, (unsigned long long)lim); add(vm, p, n); } }
            else CHECK(n && (TOTAL(n) > lim || fail_after_ == 0 || n > 0x20000000u), "refused %u at limit %llu usage %llu", n, (unsigned long long)lim, (unsigned long long)(base + sum));
        } else if(r < 50) {
            cnt = rndn(3) ? rndn(40) : some_size(); if(rndn(4) == 0) { e = 1 + rnd() % 70000; cnt = 0xffffffffu / e + rndn(5) - 2; }
            uint64_t t = (uint64_t)e * cnt; if(t > 0x3000000 && t < 0x30000000u) { cnt = 5; e = 8; t = 40; }
            tr("mallocArray %u x %u\n", e, cnt); p = (void *)1; ok = GUARD(vm, p = nkiMallocArray(vm, e, cnt));
            if(ok) { CHECK(t <= 0xffffffffu, "overflowing product granted"); if(!t) CHECK(!p, "zero-size"); else { CHECK(TOTAL(t) <= lim, "beyond limit"); add(vm, p, (uint32_t)t); } }
        } else if(r < 70 && nb) {
            int i = rndn(nb); struct B o = b[i]; uint32_t keep; cnt = 0; int arr = rndn(2);
            if(arr) { cnt = rndn(60); if(rndn(5) == 0) { e = 1 + rnd() % 70000; cnt = 0xffffffffu / e + rndn(5) - 2; } uint64_t t = (uint64_t)e * cnt; if(t > 0x3000000 && t < 0x30000000u) { cnt = 5; e = 8; } n = t > 0xffffffffull ? 0 : e * cnt; }
            uint64_t t = arr ? (uint64_t)e * cnt : n;
            tr("realloc #%d (%u bytes) to %llu\n", i, o.n, (unsigned long long)t); p = (void *)1;
            ok = arr ? GUARD(vm, p = nkiReallocArray(vm, o.p, e, cnt)) : GUARD(vm, p = nkiRealloc(vm, o.p, n));
            if(ok) { CHECK(t <= 0xffffffffu, "overflowing product granted"); b[i] = b[--nb]; 
                if(!n) { CHECK(!p, "zero-size"); sum -= o.n + H; }
                else { CHECK(TOTAL(n) <= lim, "beyond limit"); uint32_t q; keep = n < o.n ? n : o.n; CHECK(p, "no block");
                    for(q = 0; q < keep; q++) CHECK(((unsigned char *)p)[q] == (unsigned char)(o.pat + q * 7), "contents lost at %u of %u", q, keep);
                    if(base + sum + n + H > peak) peak = base + sum + n + H;   // old and new block coexist
                    sum -= o.n + H; add(vm, p, n); } }
        } else if(r < 74) {
            char s[64]; uint32_t i, l = rndn(60); for(i = 0; i < l; i++) s[i] = 'a' + rndn(26); s[l] = 0; tr("strdup \"%s\"\n", s); p = NULL; ok = GUARD(vm, p = nkiStrdup(vm, s));
            if(ok) { CHECK(p && !strcmp((char *)p, s), "duplicate differs"); CHECK(TOTAL(l + 1) <= lim, "beyond limit"); add(vm, p, l + 1); }
        } else if(nb) { int i = rndn(nb); tr("free #%d (%u bytes)\n", i, b[i].n); struct B o = b[i]; verify_(&o, o.n); nkiFree(vm, o.p); b[i] = b[--nb]; sum -= o.n + H; }
        fail_after_ = -1; vm->errorState.allocationFailure = nkfalse; check(vm);
    }
    nkxSetMaxAllocatedMemory(vm, 0xffffffffu);
    while(nb) { nb--; nkiFree(vm, b[nb].p); sum -= b[nb].n + H; check(vm); }
    CHECK(live_blocks_ == live0, "host holds %lld extra blocks", (long long)(live_blocks_ - live0));
    nkxVmDelete(vm); CHECK(live_blocks_ == 0, "%llu blocks leaked", (unsigned long long)live_blocks_);
}
