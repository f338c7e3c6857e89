#include "common.h"
// Objects against a model: MODE 6 reads and writes, 7 sizes and limits, 8 handles, 9 collections (all of it when 0).
#ifndef MODE
#define MODE 0
#endif
#define ON(m) (MODE == 0 || MODE == (m))
#define MAXO 24
#define MAXK 60
typedef struct NKValue Val;
static struct { int live; uint32_t id, count; int n; Val k[MAXK], v[MAXK]; struct NKVMExecutionContext *cx; int ns, par; Val s[8]; } O[MAXO]; static int no; static int cur; // cx: a suspended coroutine, ns values on its stack, par its parent object or -1
static Val keys[160]; static int nk_; static Val strs[16]; static const char *strtext[16]; static int strlive[16]; static Val rootv[8]; static int nroot; static Val glob[32]; static uint32_t nglob;
static Val V(int t, uint32_t raw) { Val v; memset(&v, 0, sizeof v); v.type = (enum NKValueType)t; v.intData = (nkint32_t)raw; return v; }
static Val F(float f) { Val v; memset(&v, 0, sizeof v); v.type = NK_VALUETYPE_FLOAT; v.floatData = f; return v; }
static int same(Val a, Val b) { if(a.type != b.type) return 0; if(a.type == NK_VALUETYPE_NIL) return 1; if(a.type == NK_VALUETYPE_FLOAT) return a.floatData == b.floatData; return a.intData == b.intData; }
static int exact(Val a, Val b) { return a.type == b.type && (a.type == NK_VALUETYPE_NIL || a.intData == b.intData); }
static const char *show(Val v) { static char b[4][64]; static int w; char *r = b[w++ & 3]; if(v.type == NK_VALUETYPE_FLOAT) snprintf(r, 64, "float %g", v.floatData); else snprintf(r, 64, "%s %d", v.type == NK_VALUETYPE_INT ? "int" : v.type == NK_VALUETYPE_STRING ? "string id" : v.type == NK_VALUETYPE_OBJECTID ? "object" : v.type == NK_VALUETYPE_FUNCTIONID ? "function" : "nil", v.intData); return r; }
static Val obv(int i) { return V(NK_VALUETYPE_OBJECTID, O[i].id); }
static int usable(Val v) { int i; if(v.type == NK_VALUETYPE_STRING) { for(i = 0; i < 16; i++) if(strlive[i] && strs[i].intData == v.intData) return 1; return 0; } if(v.type == NK_VALUETYPE_OBJECTID) { for(i = 0; i < no; i++) if(O[i].live && O[i].id == (uint32_t)v.intData) return 1; return 0; } return 1; }
static Val pick(void) {
    for(;;) { uint32_t r = rndn(10); Val v;
        if(r < 6) v = keys[rndn(nk_)]; else if(r < 8) v = strs[rndn(16)]; else if(no) v = obv((int)rndn(no)); else continue;
        if(usable(v)) return v; }
}
static int find(int o, Val k) { int i; for(i = 0; i < O[o].n; i++) if(same(O[o].k[i], k)) return i; return -1; }
static void check_obj(struct NKVM *vm, int o) {
    Val ov = obv(o); int i, j; uint32_t b, cnt = 0, sz; struct NKVMObject *ob = nkiVmGetObjectFromValue(vm, &ov);
    CHECK(ob && ob->objectTableIndex == O[o].id, "object %u is gone or misplaced", O[o].id);
    if(ON(6) || ON(9)) for(i = 0; i < O[o].n; i++) { Val k = O[o].k[i], *v; 
        v = nkiVmObjectFindOrAddEntry_public(vm, &ov, &k, nktrue);
        CHECK(v, "object %u lost key %s", O[o].id, show(k)); CHECK(exact(*v, O[o].v[i]), "object %u key %s reads %s, expected %s", O[o].id, show(k), show(*v), show(O[o].v[i])); }
    if(ON(6)) for(j = 0; j < 6; j++) { Val k = pick(); if(find(o, k) < 0) { Val *v = nkiVmObjectFindOrAddEntry_public(vm, &ov, &k, nktrue); CHECK(!v, "object %u has an entry for %s, which was never stored or was removed", O[o].id, show(k)); } }
    if(ON(7) || ON(6)) { for(b = 0; b < 16; b++) { struct NKVMObjectElement *e = ob->hashBuckets[b]; for(; e; e = e->next) { cnt++; CHECK(cnt < 100000, "a chain of object %u never ends", O[o].id); } }
        CHECK(cnt == (uint32_t)O[o].n, "object %u holds %u entries, %d expected", O[o].id, cnt, O[o].n); }
    if(ON(7)) { sz = nkiVmObjectGetSize(vm, &ov); CHECK(sz == cnt, "object %u reports %u entries and holds %u", O[o].id, sz, cnt); CHECK(sz <= vm->limits.maxFieldsPerObject || !O[o].live, "object %u has %u entries, the limit is %u", O[o].id, sz, vm->limits.maxFieldsPerObject); }
    if(ON(8)) { CHECK(nkiVmObjectGetExternalHandleCount(vm, &ov) == O[o].count, "object %u has %u handles, expected %u", O[o].id, nkiVmObjectGetExternalHandleCount(vm, &ov), O[o].count); }
}
static void check_list(struct NKVM *vm) {
    struct NKVMObject *p = vm->objectsWithExternalHandles, **pp = &vm->objectsWithExternalHandles; int i, n = 0; static int seen[MAXO]; memset(seen, 0, sizeof seen);
    for(; p; p = p->nextObjectWithExternalHandles) { int f = -1; for(i = 0; i < no; i++) if(O[i].live && O[i].id == p->objectTableIndex) f = i;
        CHECK(n++ < MAXO, "the list of held objects does not end"); CHECK(f >= 0, "a dead object is on the list of held objects"); CHECK(!seen[f], "object %u is on the list twice", O[f].id); seen[f] = 1;
        CHECK(O[f].count > 0, "object %u is on the list with no handles", O[f].id); CHECK(p->previousExternalHandleListPtr == pp, "object %u has a wrong back link", O[f].id); pp = &p->nextObjectWithExternalHandles; }
    for(i = 0; i < no; i++) if(O[i].live && O[i].count) CHECK(seen[i], "held object %u is not on the list", O[i].id);
}
static void check_all(struct NKVM *vm) { int i; for(i = 0; i < no; i++) if(O[i].live) check_obj(vm, i); if(ON(8)) check_list(vm); 
    if(ON(9)) { for(i = 0; i < 16; i++) if(strlive[i]) { const char *t = nkiVmStringTableGetStringById(&vm->stringTable, strs[i].stringTableEntry); CHECK(t && !strcmp(t, strtext[i]), "string %u is lost or changed", strs[i].stringTableEntry); } } }
static int mark[MAXO], smark[16], work[MAXO * 4], nw;
static void mv(Val v) { int i; if(v.type == NK_VALUETYPE_STRING) { for(i = 0; i < 16; i++) if(strlive[i] && strs[i].intData == v.intData) smark[i] = 1; } if(v.type == NK_VALUETYPE_OBJECTID) for(i = 0; i < no; i++) if(O[i].live && O[i].id == (uint32_t)v.intData && !mark[i]) { mark[i] = 1; work[nw++] = i; } }
static void mkstr(struct NKVM *vm, int i) { Val v; memset(&v, 0, sizeof v); GUARD(vm, nkiValueSetString(vm, &v, strtext[i])); strs[i] = v; strlive[i] = 1; }
static void one_case(uint64_t n) {
    struct NKVM *vm = new_vm(); int steps = 15 + (int)rndn(n % 5 ? 60 : 250), k, i, ok; Val *r; int dead = 0;
    static char texts[16][24];
    CHECK(vm, "no machine"); no = 0; nk_ = 0; nroot = 0; memset(O, 0, sizeof O);
    for(i = 0; i < 16; i++) { sprintf(texts[i], "t%d-%u", i, rndn(100)); strtext[i] = texts[i]; mkstr(vm, i); }
    for(i = 0; i < 24; i++) keys[nk_++] = V(NK_VALUETYPE_INT, rndn(3) ? rndn(5) * 16 + rndn(2) : rnd());
    for(i = 0; i < 8; i++) keys[nk_++] = V(NK_VALUETYPE_FUNCTIONID, rndn(40));
    keys[nk_++] = V(NK_VALUETYPE_INT, 0x80000000u); keys[nk_++] = V(NK_VALUETYPE_INT, 0x7fffffffu); keys[nk_++] = V(NK_VALUETYPE_INT, 0xffffffffu); keys[nk_++] = V(NK_VALUETYPE_INT, 0);
    keys[nk_++] = V(NK_VALUETYPE_NIL, 0); keys[nk_++] = V(NK_VALUETYPE_NIL, rnd());
    keys[nk_++] = F(0.0f); keys[nk_++] = F(-0.0f); keys[nk_++] = F(1.0f); keys[nk_++] = F(-1.0f); keys[nk_++] = F(1e30f); keys[nk_++] = F((float)(int)rndn(50)); keys[nk_++] = F(0.5f); keys[nk_++] = F(INFINITY); keys[nk_++] = F(-INFINITY);
    for(i = 0; i < 10; i++) { Val v = V(NK_VALUETYPE_FLOAT, rnd() & ~0x0f); if(v.floatData == v.floatData) keys[nk_++] = v; }
    vm->limits.maxFieldsPerObject = n % 3 == 0 ? rndn(12) : n % 3 == 1 ? 50 : ~0u;
    if(rndn(2)) { uint32_t m = (2u << rndn(4)) * 2; GUARD(vm, vm->staticSpace = (struct NKValue *)nkiReallocArray(vm, vm->staticSpace, sizeof(struct NKValue), m)); for(i = (int)vm->staticAddressMask + 1; i < (int)m; i++) vm->staticSpace[i] = V(NK_VALUETYPE_NIL, 0); vm->staticAddressMask = m - 1; }
    nglob = vm->staticAddressMask + 1; CHECK(nglob <= 32, "static space"); cur = -1; for(i = 0; i < (int)nglob; i++) glob[i] = vm->staticSpace[i];
    if(rndn(2)) vm->gcInfo.lastGCPass = rndn(2) ? 0 : rnd() >> 1;
    for(k = 0; k < steps && !dead; k++) {
        uint32_t op = rndn(100); int o = no ? (int)rndn(no) : -1; fail_after_ = -1;
        if(o >= 0 && !O[o].live) o = -1;
        if(op < 8 && no < MAXO) {
            Val v; memset(&v, 0, sizeof v); fail_after_ = rndn(30) == 0 ? (long)rndn(3) : -1; tr("create object%s", fail_after_ >= 0 ? " (host refuses memory)" : "");
            { uint32_t id = 0xffffffff; ok = GUARD(vm, id = nkiVmObjectTableCreateObject(vm)); fail_after_ = -1; tr(" -> %u\n", id);
              if(!ok) { dead = 1; break; } CHECK(id != 0xffffffff, "no object"); for(i = 0; i < no; i++) if(O[i].live) CHECK(O[i].id != id, "object id %u given out twice", id);
              for(i = 0; i < no; i++) if(O[i].id == id) O[i].id = 0xfffffffeu;
              O[no].live = 1; O[no].id = id; O[no].count = 0; O[no].n = 0; O[no].cx = NULL; O[no].par = -1; O[no].ns = 0;
              if(MODE == 9 && rndn(3) == 0) { Val ov = obv(no); struct NKVMExecutionContext *c = NULL; ok = GUARD(vm, c = (struct NKVMExecutionContext *)nkiMalloc(vm, sizeof *c); memset(c, 0, sizeof *c); nkiVmInitExecutionContext(vm, c)); if(!ok) break; c->coroutineState = NK_COROUTINE_RUNNING; c->coroutineObject = ov;
                  GUARD(vm, nkiVmObjectSetExternalType(vm, &ov, vm->internalObjectTypes.coroutine); nkiVmObjectSetExternalData(vm, &ov, c)); O[no].cx = c; tr("coroutine object %u\n", id); }
              no++; if(rndn(3)) { Val ov = obv(no - 1); O[no - 1].count++; GUARD(vm, nkiVmObjectAcquireHandle(vm, &ov)); tr("hold %u\n", id); } }
        } else if(op < 45 && o >= 0) { // store
            Val kv = pick(), v = pick(), ov = obv(o), in = kv; int f = find(o, kv); int full = O[o].n >= MAXK - 1; uint32_t before = (uint32_t)O[o].n, errs = vm->errorState.firstError != NULL;
            if(f < 0 && full) continue;
            fail_after_ = rndn(40) == 0 ? (long)rndn(2) : -1; tr("object %u [%s] = %s%s\n", O[o].id, show(kv), show(v), fail_after_ >= 0 ? " (host refuses memory)" : "");
            r = NULL; ok = GUARD(vm, r = nkiVmObjectFindOrAddEntry_public(vm, &ov, &in, nkfalse)); fail_after_ = -1; (void)errs;
            if(!ok) { dead = 1; break; }
            if(f >= 0) { CHECK(r, "object %u lost key %s", O[o].id, show(kv)); if(ON(6)) CHECK(exact(*r, O[o].v[f]), "object %u key %s reads %s, expected %s", O[o].id, show(kv), show(*r), show(O[o].v[f])); *r = v; O[o].v[f] = v; }
            else if(before >= vm->limits.maxFieldsPerObject) { CHECK(!r || !ON(7), "an entry beyond the limit of %u was handed out", vm->limits.maxFieldsPerObject); if(r) break; }
            else { CHECK(r, "object %u refuses key %s", O[o].id, show(kv)); *r = v; O[o].k[O[o].n] = kv; O[o].v[O[o].n] = v; O[o].n++; }
        } else if(op < 60 && o >= 0) { // remove
            Val kv, ov = obv(o); int f; if(O[o].n && rndn(4)) kv = O[o].k[rndn(O[o].n)]; else kv = pick(); f = find(o, kv);
            tr("remove object %u [%s]\n", O[o].id, show(kv)); if(!GUARD(vm, nkiVmObjectClearEntry_public(vm, &ov, &kv))) FAIL("removal abandoned");
            if(f >= 0) { O[o].n--; O[o].k[f] = O[o].k[O[o].n]; O[o].v[f] = O[o].v[O[o].n]; }
        } else if(op < 70 && o >= 0) { Val kv = pick(), ov = obv(o); int f = find(o, kv); tr("read object %u [%s]\n", O[o].id, show(kv)); r = nkiVmObjectFindOrAddEntry_public(vm, &ov, &kv, nktrue); if(f < 0) CHECK(!r, "object %u has key %s", O[o].id, show(kv)); else CHECK(r && exact(*r, O[o].v[f]), "object %u key %s", O[o].id, show(kv));
        } else if(op < 78 && o >= 0) { Val ov = obv(o); tr("hold %u\n", O[o].id); GUARD(vm, nkiVmObjectAcquireHandle(vm, &ov)); O[o].count++;
        } else if(op < 88 && o >= 0) { Val ov = obv(o); struct NKError *e0 = vm->errorState.lastError; tr("release %u\n", O[o].id); GUARD(vm, nkiVmObjectReleaseHandle(vm, &ov)); if(O[o].count) { O[o].count--; if(ON(8)) CHECK(vm->errorState.lastError == e0, "a matched release reported an error"); } else if(ON(8)) CHECK(vm->errorState.lastError != e0, "an unmatched release was not reported");
        } else if(op < 92) { // roots
            uint32_t w = rndn(3); Val v = rndn(4) && no ? obv((int)rndn(no)) : pick(); if(!usable(v)) continue;
            if(w == 0 && nroot < 8) { struct NKVMExecutionContext *sv = vm->currentExecutionContext; vm->currentExecutionContext = &vm->rootExecutionContext; ok = GUARD(vm, *nkiVmStackPush_internal(vm) = v); vm->currentExecutionContext = sv; if(!ok) break; rootv[nroot++] = v; tr("push %s\n", show(v)); }
            else if(w == 1 && nroot) { struct NKVMExecutionContext *sv = vm->currentExecutionContext; vm->currentExecutionContext = &vm->rootExecutionContext; nkiVmStackPop(vm); vm->currentExecutionContext = sv; nroot--; tr("pop\n"); }
            else if(nglob) { i = (int)rndn(nglob); glob[i] = v; vm->staticSpace[i] = v; tr("global %d = %s\n", i, show(v)); }
        } else if(MODE == 9 && op < 93 && o >= 0 && O[o].cx) { // coroutine stacks, parents, and which one runs
            uint32_t w = rndn(4); Val v = rndn(3) && no ? obv((int)rndn(no)) : pick(); if(!usable(v)) continue;
            if(w < 2 && O[o].ns < 8) { struct NKVMExecutionContext *sv = vm->currentExecutionContext; vm->currentExecutionContext = O[o].cx; ok = GUARD(vm, *nkiVmStackPush_internal(vm) = v); vm->currentExecutionContext = sv; if(!ok) break; O[o].s[O[o].ns++] = v; tr("coroutine %u: push %s\n", O[o].id, show(v)); }
            else if(w == 2) { int p = -1, q = (int)rndn(no); if(O[q].live && O[q].cx && q != o) p = q; O[o].par = p; O[o].cx->parent = p < 0 ? (rndn(2) ? NULL : &vm->rootExecutionContext) : O[p].cx; tr("coroutine %u: parent %d\n", O[o].id, p < 0 ? -1 : (int)O[p].id); }
            else { cur = o; vm->currentExecutionContext = O[o].cx; tr("coroutine %u runs\n", O[o].id); }
        } else if(op < 94 && nroot) { // write a stack slot
            Val v = no ? obv((int)rndn(no)) : pick(); if(!usable(v)) continue; i = (int)rndn(nroot); vm->rootExecutionContext.stack.values[i] = v; rootv[i] = v; tr("stack %d = %s\n", i, show(v));
        } else if(op < 98 && (MODE == 0 || MODE >= 8)) {
            struct NKError *e0 = vm->errorState.lastError; tr("collect\n"); memset(mark, 0, sizeof mark); memset(smark, 0, sizeof smark); nw = 0;
            for(i = 0; i < no; i++) if(O[i].live && O[i].count) { mark[i] = 1; work[nw++] = i; }
            for(i = 0; i < nroot; i++) mv(rootv[i]); for(i = 0; i < (int)nglob; i++) mv(glob[i]); if(cur >= 0) mv(obv(cur));
            while(nw) { int w = work[--nw]; if(O[w].cx) { for(i = 0; i < O[w].ns; i++) mv(O[w].s[i]); if(O[w].par >= 0) mv(obv(O[w].par)); } for(i = 0; i < O[w].n; i++) { mv(O[w].k[i]); mv(O[w].v[i]); } }
            if(!GUARD(vm, nkiVmGarbageCollect(vm))) FAIL("collection abandoned");
            CHECK(vm->errorState.lastError == e0, "the collection reported an error: %s", vm->errorState.lastError ? vm->errorState.lastError->errorText : "");
            for(i = 0; i < no; i++) if(O[i].live) { Val ov = obv(i); struct NKVMObject *p = nkiVmGetObjectFromValue(vm, &ov);
                if(mark[i]) CHECK(p, "reachable object %u was collected", O[i].id); else { if(ON(9)) CHECK(!p, "unreachable object %u was kept", O[i].id); O[i].live = 0; O[i].n = 0; O[i].count = 0; O[i].id = 0xfffffffeu; O[i].cx = NULL; } }
            for(i = 0; i < 16; i++) if(strlive[i]) { const char *t = nkiVmStringTableGetStringById(&vm->stringTable, strs[i].stringTableEntry); if(smark[i]) CHECK(t && !strcmp(t, strtext[i]), "reachable string %u was collected", strs[i].stringTableEntry); else { if(ON(9)) CHECK(!t, "unreachable string %u was kept", strs[i].stringTableEntry); strlive[i] = 0; } }
            for(i = 0; i < 16; i++) if(!strlive[i]) mkstr(vm, i);
        } else if(op == 99) { Val bad = V(NK_VALUETYPE_OBJECTID, vm->objectTable.capacity + rndn(3)), b2 = V(NK_VALUETYPE_INT, 0), kv = pick(); struct NKError *e0 = vm->errorState.lastError; Val *w = rndn(2) ? &bad : &b2; tr("use of %s as an object\n", show(*w)); r = NULL; GUARD(vm, r = nkiVmObjectFindOrAddEntry_public(vm, w, &kv, nkfalse)); CHECK(!r && vm->errorState.lastError != e0, "a store into no object"); GUARD(vm, nkiVmObjectReleaseHandle(vm, w)); GUARD(vm, nkiVmObjectAcquireHandle(vm, w)); { uint32_t z = 0; GUARD(vm, z = nkiVmObjectGetSize(vm, w)); CHECK(z == 0, "a size for no object"); } }
        if(cur >= 0 && rndn(4) == 0) { cur = -1; vm->currentExecutionContext = &vm->rootExecutionContext; }
        check_all(vm);
    }
    vm->currentExecutionContext = &vm->rootExecutionContext;
    if(dead) { check_all(vm); vm->errorState.allocationFailure = nktrue; }
    nkxVmDelete(vm); CHECK(live_blocks_ == 0, "%llu blocks leaked", (unsigned long long)live_blocks_);
}
