#include "common.h"
// P05: the string table against a model (text -> id while the string lives).
#define MAXS 3000
static struct { char *s; uint32_t id; int live, keep, pass; } M[MAXS]; static int nm;
static char *texts[MAXS]; static int nt;
// texts whose hash agrees in the low byte or altogether are common on purpose
static uint32_t href(const char *s) { uint32_t a = 1, b = 0, i, l = (uint32_t)strlen(s); for(i = 0; i < l; i++) { a = (a + (uint32_t)(int)s[i]) % 65521u; b = (b + a) % 65521u; } return (b << 16) | a; }
static char *gen(void) {
    char b[300]; uint32_t l, i; char *r;
    switch(rndn(6)) {
    case 0: l = rndn(4); for(i = 0; i < l; i++) b[i] = "ab"[rndn(2)]; b[l] = 0; break;
    case 1: l = rndn(3); for(i = 0; i < l; i++) b[i] = 1 + rndn(255); b[l] = 0; break;
    case 2: // a full collision: moving a unit between three neighbours keeps both sums
        l = 3 + rndn(8); for(i = 0; i < l; i++) b[i] = 'm' + rndn(3); b[l] = 0;
        if(nt) { const char *o = texts[rndn(nt)]; uint32_t ol = (uint32_t)strlen(o); if(ol >= 3 && ol < 290) { memcpy(b, o, ol + 1); i = rndn(ol - 2); if((unsigned char)b[i] > 2 && (unsigned char)b[i] < 120 && (unsigned char)b[i + 1] > 3 && (unsigned char)b[i + 1] < 120 && (unsigned char)b[i + 2] > 2 && (unsigned char)b[i + 2] < 120) { int d = rndn(2) ? 1 : -1; b[i] += d; b[i + 1] -= 2 * d; b[i + 2] += d; } } }
        break;
    case 3: if(nt) { const char *o = texts[rndn(nt)]; l = (uint32_t)strlen(o); if(l > 280) l = 280; memcpy(b, o, l); if(rndn(2) && l) l = rndn(l); else b[l++] = 'a' + rndn(26); b[l] = 0; break; } /* fall through */
    case 4: if(nt) { const char *o = texts[rndn(nt)]; l = (uint32_t)strlen(o); if(l < 290) { memcpy(b, o, l + 1); if(l) { i = rndn(l); b[i] ^= (char)(1 << rndn(7)); if(!b[i]) b[i] = 'x'; } break; } } /* fall through */
    default: l = rndn(200); for(i = 0; i < l; i++) b[i] = 'a' + rndn(26); b[l] = 0; break;
    }
    r = strdup(b); return r;
}
static void verify(struct NKVM *vm) {
    int i; uint32_t j, cnt = 0, live = 0;
    for(i = 0; i < nm; i++) if(M[i].live) { const char *t = nkiVmStringTableGetStringById(&vm->stringTable, M[i].id); struct NKVMString *e = nkiVmStringTableGetEntryById(&vm->stringTable, M[i].id); CHECK(t && !strcmp(t, M[i].s), "id %u stores \"%s\" expected \"%s\"", M[i].id, t ? t : "(nothing)", M[i].s); CHECK(e->stringTableIndex == M[i].id, "entry %u thinks it is %u", M[i].id, e->stringTableIndex); live++; }
    for(j = 0; j < vm->stringTable.capacity; j++) if(vm->stringTable.stringTable[j]) cnt++;
    CHECK(cnt == live, "%u strings in the table, %u expected", cnt, live);
}
static void one_case(uint64_t n) {
    struct NKVM *vm = new_vm(); int k, i, steps = 20 + rndn(n % 4 ? 80 : 500), dirty = 1; uint32_t pass = 1;
    for(i = 0; i < nm; i++) { free(M[i].s); } for(i = 0; i < nt; i++) free(texts[i]);
    nm = nt = 0;
    CHECK(vm, "no machine");
    { uint32_t j; for(j = 0; j < vm->stringTable.capacity; j++) { struct NKVMString *e = vm->stringTable.stringTable[j]; if(e && nm < MAXS) { M[nm].s = strdup(e->str); M[nm].id = j; M[nm].live = 1; M[nm].keep = e->dontGC; M[nm].pass = (int)e->lastGCPass; nm++; } } }
    for(k = 0; k < steps && nm < MAXS - 2; k++) {
        uint32_t r = rndn(100);
        if(r < 78) {
            char *t; uint32_t id = 0xffffffff; int hit = -1, ok; 
            if(nt && rndn(3) == 0) t = strdup(texts[rndn(nt)]); else { t = gen(); if(nt < MAXS) texts[nt++] = strdup(t); }
            for(i = 0; i < nm; i++) if(M[i].live && !strcmp(M[i].s, t)) hit = i;
            fail_after_ = rndn(60) == 0 ? (long)rndn(4) : -1;
            { char *e = t; tr("find \""); for(; *e; e++) if(*e >= 32 && *e < 127) tr("%c", *e); else tr("\\x%02x", (unsigned char)*e); tr("\"%s hash %08x\n", fail_after_ >= 0 ? " (host refuses memory)" : "", href(t)); }
            if(rndn(4) == 0) { // the text lives in a block of exactly its size
                ok = GUARD(vm, id = nkiVmStringTableFindOrAddString(vm, t)); }
            else { char pad[400]; memset(pad, 'Z', sizeof pad); memcpy(pad + 17, t, strlen(t) + 1); ok = GUARD(vm, id = nkiVmStringTableFindOrAddString(vm, pad + 17)); memset(pad, 'Y', sizeof pad); }
            fail_after_ = -1;
            if(!ok) { free(t); vm->errorState.allocationFailure = nktrue; // only tearing down is allowed now
                for(i = 0; i < nm; i++) if(M[i].live) { const char *q = nkiVmStringTableGetStringById(&vm->stringTable, M[i].id); CHECK(q && !strcmp(q, M[i].s), "string %u damaged by a failed allocation", M[i].id); }
                dirty = 0; break; }
            CHECK(id != 0xffffffff, "no id");
            if(hit >= 0) { CHECK(M[hit].id == id, "second id %u for a text that has id %u", id, M[hit].id); free(t); }
            else { for(i = 0; i < nm; i++) if(M[i].live) CHECK(M[i].id != id, "id %u given to \"%s\" already belongs to \"%s\"", id, t, M[i].s); M[nm].s = t; M[nm].id = id; M[nm].live = 1; M[nm].keep = 0; M[nm].pass = 0; nm++; }
        } else if(r < 86) { // mark and collect
            int p = rndn(100); tr("collect, pass %u:", ++pass);
            for(i = 0; i < nm; i++) if(M[i].live) { struct NKVMString *e = nkiVmStringTableGetEntryById(&vm->stringTable, M[i].id); if((int)rndn(100) < p) { e->lastGCPass = pass; M[i].pass = (int)pass; tr(" %u", M[i].id); } }
            tr("\n"); if(!GUARD(vm, nkiVmStringTableCleanOldStrings(vm, pass))) FAIL("collection abandoned");
            for(i = 0; i < nm; i++) if(M[i].live && M[i].pass != (int)pass && !M[i].keep) M[i].live = 0;
            for(i = 0; i < nm; i++) if(!M[i].live) { const char *q; int j, shared = 0; for(j = 0; j < nm; j++) if(M[j].live && M[j].id == M[i].id) shared = 1; q = nkiVmStringTableGetStringById(&vm->stringTable, M[i].id); if(!shared) CHECK(!q, "collected id %u still names something", M[i].id); }
        } else if(r < 92 && nm) { i = (int)rndn(nm); if(M[i].live) { struct NKVMString *e = nkiVmStringTableGetEntryById(&vm->stringTable, M[i].id); M[i].keep = !M[i].keep; e->dontGC = (nkbool)M[i].keep; tr("keep %u = %d\n", M[i].id, M[i].keep); } }
        else { uint32_t id = rndn(3) ? vm->stringTable.capacity + rndn(4) : rnd(); if(id >= vm->stringTable.capacity) { tr("lookup %u\n", id); CHECK(nkiVmStringTableGetStringById(&vm->stringTable, id) == NULL, "id %u never issued", id); CHECK(nkiVmStringTableGetEntryById(&vm->stringTable, id) == NULL, "id %u never issued", id); } }
        verify(vm);
    }
    (void)dirty; nkxVmDelete(vm); CHECK(live_blocks_ == 0, "%llu blocks leaked", (unsigned long long)live_blocks_);
}
