// P18: the error report against a model list of what was reported.
#include "common.h"
#define MAXE 400
static char *want[MAXE]; static int nwant; static int failed;
static char *rtext(uint32_t n) { char *s = malloc(n + 1); uint32_t i; for(i = 0; i < n; i++) s[i] = (char)(rndn(12) == 0 ? '\n' : rndn(10) == 0 ? 128 + rndn(127) : rndn(6) == 0 ? "%s:%d\\"[rndn(6)] : 32 + rndn(94)); s[n] = 0; for(i = 0; i < n; i++) if(!s[i]) s[i] = 'z'; return s; }
static uint32_t rlen(void) { switch(rndn(6)) { case 0: return 0; case 1: return 1; case 2: return rndn(8); case 3: return rndn(40); case 4: return 250 + rndn(12); default: return rndn(3000); } }
static uint32_t rline(void) { switch(rndn(8)) { case 0: return 0; case 1: return rndn(10); case 2: return 9 + rndn(3); case 3: return 99 + rndn(3); case 4: return 4294967294u; case 5: return 999999999u + rndn(3); case 6: return 2147483647u + rndn(2); default: return rnd() % 4294967295u; } }
static const char *fnames[] = { "a.nks", "b", "", "a.nk", "a.nks2", "long/path/with/many/parts/and/a/name/that/goes/on/and/on/x.nks", "%s%s%n", "z:1: y" };
static void check_(struct NKVM *vm) {
    size_t n = 0; int i; uint32_t len; char *buf, *exp; struct NKError *e;
    if(failed) { n = strlen("Allocation failure.\n"); } else for(i = 0; i < nwant; i++) n += strlen(want[i]) + 1;
    exp = malloc(n + 1); exp[0] = 0; if(failed) strcpy(exp, "Allocation failure.\n"); else { char *p = exp; for(i = 0; i < nwant; i++) { p = stpcpy(p, want[i]); *p++ = '\n'; *p = 0; } }
    CHECK(!!nkxVmHasErrors(vm) == (nwant > 0 || failed), "has errors: %d with %d recorded", nkxVmHasErrors(vm), nwant);
    CHECK(nkxGetErrorCount(vm) == (failed ? 1u : (uint32_t)nwant), "count %u with %d recorded, failed %d", nkxGetErrorCount(vm), nwant, failed);
    if(!failed) CHECK(nkiGetErrorCount(vm) == (uint32_t)nwant, "count %u with %d recorded", nkiGetErrorCount(vm), nwant);
    len = nkxGetErrorLength(vm);
    buf = malloc(len); memset(buf, 'Q', len); nkxGetErrorText(vm, buf);
    CHECK(memchr(buf, 0, len) != NULL, "the text is not terminated inside the %u bytes announced", len);
    CHECK(strlen(buf) + 1 == len, "announced %u bytes, wrote %u (terminator included)", len, (unsigned)strlen(buf) + 1);
    CHECK(n + 1 == len && !strcmp(buf, exp), "the report is \"%.300s\" and should be \"%.300s\"", buf, exp);
    (void)e; free(buf); free(exp);
}
static void record(const char *file, uint32_t line, const char *text) { size_t n = strlen(file) + strlen(text) + 20; want[nwant] = malloc(n); snprintf(want[nwant], n, "%s:%u: %s", file, line, text); nwant++; }
// what a compiler or a run reported is taken from the list itself, oldest first
static void resync(struct NKVM *vm) { struct NKError *e = vm->errorState.firstError; int i = 0; while(e) { if(i >= nwant) { want[i] = strdup(e->errorText); nwant = i + 1; } else CHECK(!strcmp(want[i], e->errorText), "error %d was \"%.100s\" and now is \"%.100s\"", i, want[i], e->errorText); i++; e = e->next; } CHECK(i == nwant, "%d errors left of %d", i, nwant); }
static const char *bad[] = { "var x = ;", "var x = 1; x = undefinedthing;", "function f() { return 1", "var a = \"abc", "1 + ;\n\n\n)", "var o = object(); o.\n\n", "if(1) { ", "var q = 99 ** 2;" };
static const char *badrun[] = { "var x = 1;\nvar y = \"s\";\n\n var z = y - x;", "var n;\nn();", "var d = 1 / 0;", "\n\n\nvar o = 5; o[\"x\"] = 1;", "function f(a,b) { return a; }\n f(1);" };
static void one_case(uint64_t c) {
    struct NKVM *vm = new_vm(); int i, n = (int)rndn(c % 3 ? 12 : 120), k; char *t; (void)c;
    if(!vm) return; nwant = 0; failed = 0; check_(vm);
    for(i = 0; i < n && !failed && nwant < MAXE - 60; i++) {
        k = (int)rndn(12); t = rtext(rlen());
        if(rndn(150) == 0) fail_after_ = rndn(4);
        if(k < 4) { tr("report a text of %u characters\n", (unsigned)strlen(t)); nkxAddError(vm, t); if(!vm->errorState.allocationFailure) { struct NKVMFilePositionMarker *m = nkiVmFindCurrentSourceMarker(vm); const char *f = "<unknown>"; if(m && m->fileIndex < vm->sourceFileCount && vm->sourceFileList[m->fileIndex]) f = vm->sourceFileList[m->fileIndex]; record(f, m ? (m->lineNumber == NK_INVALID_VALUE ? 0 : m->lineNumber) : 0, t); } }
        else if(k < 10) { uint32_t line = rline(); char *own = rtext(rndn(30)); const char *f = rndn(3) ? fnames[rndn(8)] : own; tr("report a text of %u characters in %s line %u\n", (unsigned)strlen(t), f, line); nkxAddErrorEx(vm, t, f, line); if(!vm->errorState.allocationFailure) record(f, line, t); free(own); }
        else if(rndn(4) == 0) { struct NKCompilerState *cs = nkxCompilerCreate(vm); const char *s = rndn(2) ? bad[rndn(8)] : badrun[rndn(5)]; if(cs) { tr("compile %s\n", s); nkxCompilerCompileScript(cs, s, "s.nks"); nkxCompilerFinalize(cs); if(!nkxVmHasErrors(vm)) nkxVmExecuteProgram(vm); } if(!vm->errorState.allocationFailure) resync(vm); }
        if(vm->errorState.allocationFailure) { failed = 1; tr("memory ran out\n"); }
        fail_after_ = -1; free(t); if(!failed) resync(vm);
        if(n < 20 || rndn(10) == 0 || failed) check_(vm);
    }
    check_(vm); for(i = 0; i < nwant; i++) free(want[i]);
    nkxVmDelete(vm); CHECK(live_blocks_ == 0, "blocks kept");
}
