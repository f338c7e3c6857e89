#include "common.h"
// P03: every public operation with memory running out at each of its allocations in turn.
static struct { uint32_t n; unsigned char b[1 << 16]; uint32_t at; } snap;
static nkbool wr(void *d, nkuint32_t n, void *u, nkbool w) { (void)u; 
    if(w) { if(snap.n + n > sizeof snap.b) return nkfalse; memcpy(snap.b + snap.n, d, n); snap.n += n; } else { if(snap.at + n > snap.n) return nkfalse; memcpy(d, snap.b + snap.at, n); snap.at += n; } return nktrue; }
static void native(struct NKVMFunctionCallbackData *d) { nkxValueSetInt(d->vm, &d->returnValue, 7); }
static void native2(struct NKVMFunctionCallbackData *d) { nkxValueSetInt(d->vm, &d->returnValue, 8); }
static void cleanup(struct NKVM *vm, struct NKValue *v, void *p) { (void)vm; (void)v; (void)p; }
static void sscleanup(struct NKVM *vm, void *p) { (void)vm; (void)p; }
static struct NKCompilerState *cs; static struct NKValue ob, ob2, fv, sv; static NKVMExternalDataTypeID ty; static char fname[64]; static int ext_args;
static void op_in_callback(struct NKVMFunctionCallbackData *d);
static const char *script =
    "var a = 1; var s = \"text\"; var o = object(); o[\"k\"] = s + 5; o[a] = o;\n"
    "function f(x, y) { var t = x + y; return \"r\" + t; }\n"
    "for(var i = 0; i < 5; ++i) { s = s + i; o[i] = f(i, a); }\n";
static struct NKVM *machine(int withcs) {
    struct NKVM *vm = new_vm(); struct NKValue k, *g; int i;
    cs = NULL; ty = nkxVmRegisterExternalType(vm, "thing", NULL, cleanup, NULL);
    { struct NKCompilerState *c = nkxCompilerCreate(vm); nkxCompilerCreateCFunctionVariable(c, "nested", op_in_callback); CHECK(nkxCompilerCompileScript(c, script, "a.nks"), "script does not compile"); nkxCompilerFinalize(c); }
    CHECK(nkxVmExecuteProgram(vm), "script does not run");
    g = nkxVmFindGlobalVariable(vm, NULL, "f"); CHECK(g, "no f"); fv = *g;
    nkxCreateObject(vm, &ob); nkxVmObjectAcquireHandle(vm, &ob); nkxCreateObject(vm, &ob2); nkxValueSetString(vm, &sv, "held text");
    nkxValueSetString(vm, &k, "inner"); g = nkxVmObjectFindOrAddEntry(vm, &ob, &k, nkfalse); CHECK(g, "no entry"); *g = ob2; nkxValueSetString(vm, &k, "sv"); g = nkxVmObjectFindOrAddEntry(vm, &ob, &k, nkfalse); *g = sv;
    for(i = 0; i < 3; i++) { nkxValueSetInt(vm, &k, i); g = nkxVmObjectFindOrAddEntry(vm, &ob2, &k, nkfalse); *g = ob; }
    nkxInitSubsystem(vm, NULL, "sub", &snap, sscleanup, NULL);
    nkxVmSetupExternalFunction(vm, NULL, "ext", native, nkfalse, 2, NK_VALUETYPE_INT, NK_VALUETYPE_FLOAT);
    if(withcs) { cs = nkxCompilerCreate(vm); CHECK(cs, "no compiler"); nkxCompilerCompileScript(cs, "var z = 5; function h(q) { return q * 2; }", "b.nks"); }
    snap.n = 0; snap.at = 0; nkxVmSerialize(vm, wr, NULL, nktrue); snap.at = 0;
    return vm;
}
// a fresh machine with the natives and types of the saved one, as a host prepares it before restoring
static struct NKVM *restored(void) {
    struct NKVM *vm = machine(0); nkxVmDelete(vm); vm = new_vm();
    nkxVmRegisterExternalType(vm, "thing", NULL, cleanup, NULL); nkxVmRegisterExternalFunction(vm, "nested", op_in_callback);
    nkxVmSetupExternalFunction(vm, NULL, "ext", native, nkfalse, 2, NK_VALUETYPE_INT, NK_VALUETYPE_FLOAT); nkxInitSubsystem(vm, NULL, "sub", &snap, sscleanup, NULL);
    return vm;
}
#define NOPS 68
static const char *opname; static void *mine; static struct NKCompilerState *mycs; static int is_write;
// runs operation k; 1: it reports success, 0: it returned its failure value, -1: it returns nothing
static int op(struct NKVM *vm, int k) {
    struct NKValue v, *p; struct NKVMFunctionCallbackData d; int r; nkuint32_t ix = 0; char buf[20000]; 
    memset(&v, 0, sizeof v); memset(&d, 0, sizeof d); d.vm = vm; d.arguments = &ob; d.argumentCount = 1;
    mine = NULL; mycs = NULL;
#define OP(i, name, code) case i: opname = name; code; break;
    r = -1;
    switch(k) {
        OP(0, "nkxVmExecuteProgram", r = nkxVmExecuteProgram(vm))
        OP(1, "nkxVmIterate", nkxVmIterate(vm, 400))
        OP(2, "nkxVmGarbageCollect", nkxVmGarbageCollect(vm))
        OP(3, "nkxVmCallFunction", { struct NKValue a[2]; a[0] = sv; nkxValueSetInt(vm, &a[1], 4); if(vm->errorState.allocationFailure) a[1] = sv; nkxVmCallFunction(vm, &fv, 2, a, &v); })
        OP(4, "nkxVmFindGlobalVariable", p = nkxVmFindGlobalVariable(vm, cs, "s"); r = p != NULL)
        OP(5, "nkxCompilerCreateGlobalVariable", { static char n[32]; static int c; snprintf(n, 32, "gv%d", c++); r = nkxCompilerCreateGlobalVariable(cs, n) != NULL; })
        OP(6, "nkxCompilerCreate", r = (mycs = nkxCompilerCreate(vm)) != NULL)
        OP(7, "nkxCompilerCreateCFunctionVariable", nkxCompilerCreateCFunctionVariable(cs, "nat", native))
        OP(8, "nkxCompilerCompileScript", r = nkxCompilerCompileScript(cs, "var q = 3 + 4 * 2; function g(a) { if(a) { return a - 1; } return g(a + q); } q = g(q) + \"abc\";", "c.nks"))
        OP(9, "nkxCompilerCompileScriptFile", r = nkxCompilerCompileScriptFile(cs, fname))
        OP(10, "nkxCompilerCompileScriptFile (missing file)", r = nkxCompilerCompileScriptFile(cs, "/nonexistent/x.nks"))
        OP(11, "nkxCompilerFinalize", nkxCompilerFinalize(cs))
        OP(12, "nkxCompilerPartiallyFinalize", nkxCompilerPartiallyFinalize(cs))
        OP(13, "nkxValueToString", nkxValueSetNil(vm, &v); v.type = NK_VALUETYPE_INT; v.intData = 12345; r = nkxValueToString(vm, &v) != NULL)
        OP(14, "nkxValueToInt", nkxValueToInt(vm, &ob))
        OP(15, "nkxValueToFloat", nkxValueToFloat(vm, &ob))
        OP(16, "nkxForceCatastrophicFailure", nkxForceCatastrophicFailure(vm))
        OP(17, "nkxVmObjectAcquireHandle", nkxVmObjectAcquireHandle(vm, &ob2))
        OP(18, "nkxVmObjectReleaseHandle", nkxVmObjectReleaseHandle(vm, &ob2))
        OP(19, "nkxVmObjectGetExternalHandleCount of a non-object", v.type = NK_VALUETYPE_INT; nkxVmObjectGetExternalHandleCount(vm, &v))
        OP(20, "nkxAddError", nkxAddError(vm, "some error"))
        OP(21, "nkxAddErrorEx", nkxAddErrorEx(vm, "some error", "file", 3))
        OP(22, "nkxVmShrink", nkxVmShrink(vm))
        OP(23, "nkxValueSetString", nkxValueSetString(vm, &v, "something entirely new"))
        OP(24, "nkxCreateObject", nkxCreateObject(vm, &v))
        OP(25, "nkxVmObjectFindOrAddEntry", v.type = NK_VALUETYPE_INT; v.intData = 99; r = nkxVmObjectFindOrAddEntry(vm, &ob, &v, nkfalse) != NULL)
        OP(26, "nkxVmObjectFindOrAddEntry of a non-object", v.type = NK_VALUETYPE_INT; r = nkxVmObjectFindOrAddEntry(vm, &v, &v, nkfalse) != NULL)
        OP(27, "nkxVmObjectClearEntry", v.type = NK_VALUETYPE_INT; nkxVmObjectClearEntry(vm, &ob2, &v))
        OP(28, "nkxVmObjectClearEntry of a non-object", v.type = NK_VALUETYPE_INT; nkxVmObjectClearEntry(vm, &v, &v))
        OP(29, "nkxVmObjectGetSize of a non-object", v.type = NK_VALUETYPE_INT; r = nkxVmObjectGetSize(vm, &v) != 0)
        OP(30, "nkxMalloc", r = (mine = nkxMalloc(vm, 100)) != NULL)
        OP(31, "nkxMallocArray", r = (mine = nkxMallocArray(vm, 10, 10)) != NULL)
        OP(32, "nkxRealloc", r = (mine = nkxRealloc(vm, NULL, 50)) != NULL)
        OP(33, "nkxReallocArray", r = (mine = nkxReallocArray(vm, NULL, 5, 7)) != NULL)
        OP(34, "nkxStrdup", r = (mine = nkxStrdup(vm, "copy me")) != NULL)
        OP(35, "nkxVmRegisterExternalFunction", r = nkxVmRegisterExternalFunction(vm, "fresh", native2).id != NK_INVALID_VALUE)
        OP(36, "nkxVmSetupExternalFunction (again, other arguments)", r = nkxVmSetupExternalFunction(vm, cs, "ext", native, nkfalse, 3, NK_VALUETYPE_INT, NK_VALUETYPE_OBJECTID, ty, NK_VALUETYPE_STRING).id != NK_INVALID_VALUE; r = r ? -1 : 0)
        OP(37, "nkxVmSetupExternalFunction", r = nkxVmSetupExternalFunction(vm, cs, "fresh", native2, cs != NULL, 2, NK_VALUETYPE_OBJECTID, ty, NK_VALUETYPE_STRING).id != NK_INVALID_VALUE; r = r ? -1 : 0)
        OP(38, "nkxVmGetOrCreateInternalFunctionForExternalFunction", { NKVMExternalFunctionID e; e.id = 0; r = nkxVmGetOrCreateInternalFunctionForExternalFunction(vm, e).id != NK_INVALID_VALUE; })
        OP(39, "nkxVmRegisterExternalType", r = nkxVmRegisterExternalType(vm, "another", NULL, cleanup, NULL).id != NK_INVALID_VALUE)
        OP(40, "nkxVmObjectSetExternalType of a non-object", r = nkxVmObjectSetExternalType(vm, &sv, ty))
        OP(41, "nkxVmObjectSetExternalData of a non-object", r = nkxVmObjectSetExternalData(vm, &sv, NULL))
        OP(42, "nkxVmObjectGetExternalType of a non-object", r = nkxVmObjectGetExternalType(vm, &sv).id != NK_INVALID_VALUE)
        OP(43, "nkxVmSerialize (reading)", snap.at = 0; r = nkxVmSerialize(vm, wr, NULL, nkfalse))
        OP(44, "nkxSerializeData outside of serialization", r = nkxSerializeData(vm, buf, 4))
        OP(45, "nkxFunctionCallbackCheckArguments (wrong count)", r = nkxFunctionCallbackCheckArguments(&d, "fn", 2, NK_VALUETYPE_INT, NK_VALUETYPE_INT))
        OP(46, "nkxFunctionCallbackCheckArguments (wrong type)", r = nkxFunctionCallbackCheckArguments(&d, "fn", 1, NK_VALUETYPE_INT))
        OP(47, "nkxFunctionCallbackGetExternalDataArgument", r = nkxFunctionCallbackGetExternalDataArgument(&d, "fn", rndn(2), ty) != NULL)
        OP(48, "nkxGetExternalSubsystemDataOrError", r = nkxGetExternalSubsystemDataOrError(vm, "nothing") != NULL)
        OP(49, "nkxInitSubsystem", { static char n[32]; static int c; snprintf(n, 32, "sub%d", c++); r = nkxInitSubsystem(vm, cs, n, NULL, NULL, NULL); })
        OP(50, "nkxGetErrorCount", r = nkxGetErrorCount(vm) == 0)
        OP(51, "nkxVmObjectReleaseHandle of a non-object", nkxVmObjectReleaseHandle(vm, &sv))
        OP(52, "nkxFunctionCallbackCheckArgCount (wrong count)", r = nkxFunctionCallbackCheckArgCount(&d, 2, "fn"))
        OP(53, "nkxFunctionCallbackCheckArgCount (right count)", nkxFunctionCallbackCheckArgCount(&d, 1, "fn"))
        OP(54, "nkxValueToInt of a function", nkxValueToInt(vm, &fv))
        OP(55, "nkxValueToFloat of a function", nkxValueToFloat(vm, &fv))
        OP(56, "nkxValueToString of a function", r = nkxValueToString(vm, &fv) != NULL)
        OP(57, "nkxValueToString of a float", v.type = NK_VALUETYPE_FLOAT; v.floatData = 5.125f; r = nkxValueToString(vm, &v) != NULL)
        OP(58, "nkxValueToString of nil", nkxValueSetNil(vm, &v); r = nkxValueToString(vm, &v) != NULL)
        OP(59, "nkxValueToInt of a string", nkxValueToInt(vm, &sv))
        OP(60, "nkxVmCallFunction of a non-function", nkxVmCallFunction(vm, &sv, 1, &ob, &v))
        OP(61, "nkxVmObjectGetSize", r = nkxVmObjectGetSize(vm, &ob) != 0 ? -1 : -1)
        OP(62, "nkxVmObjectSetExternalType", r = nkxVmObjectSetExternalType(vm, &ob2, ty))
        OP(63, "nkxVmObjectGetExternalType", nkxVmObjectGetExternalType(vm, &ob2))
        OP(64, "nkxVmObjectSetExternalData", r = nkxVmObjectSetExternalData(vm, &ob2, NULL))
        OP(65, "nkxVmObjectGetExternalHandleCount", nkxVmObjectGetExternalHandleCount(vm, &ob))
        OP(66, "nkxVmFindGlobalVariable (missing)", r = nkxVmFindGlobalVariable(vm, cs, "nothing") != NULL)
        OP(67, "nkxFunctionCallbackCheckArguments (right)", r = nkxFunctionCallbackCheckArguments(&d, "fn", 1, NK_VALUETYPE_OBJECTID, ty) ? -1 : 0)
    }
    (void)ix; return r;
}
static int cbop = -1; static long cbfail; static int cbruns;
static void op_in_callback(struct NKVMFunctionCallbackData *d) {
    struct NKVM *vm = d->vm; jmp_buf *before = vm->catastrophicFailureJmpBuf; if(cbop < 0) return;
    cbruns++; fail_after_ = cbfail; refused_ = 0; op(vm, cbop); fail_after_ = -1; if(!vm->errorState.allocationFailure) { if(mine) nkxFree(vm, mine); if(mycs) nkxCompilerFinalize(mycs); }
    CHECK(vm->catastrophicFailureJmpBuf == before, "%s, called by a native function, leaves another recovery point active", opname);
}
static void one(int k, long after, int withcs, int bylimit) {
    struct NKVM *vm = k == 43 ? restored() : machine(withcs); static jmp_buf jb; int r; uint64_t a0; uint64_t rf;
    if(after == 0 && !bylimit) trace_reset();
    if((k == 5 || k == 7 || k == 8 || k == 9 || k == 10 || k == 11 || k == 12) && !cs) { nkxVmDelete(vm); return; }
    vm->catastrophicFailureJmpBuf = &jb; 
    if(setjmp(jb)) FAIL("%s lets the failure escape to its caller's recovery point", opname);
    if(bylimit) nkxSetMaxAllocatedMemory(vm, nkxVmGetCurrentMemoryUsage(vm) + (uint32_t)after); else fail_after_ = after;
    refused_ = 0; r = op(vm, k); rf = refused_; fail_after_ = -1;
    tr("%s with memory running out %s %ld: %s\n", opname, bylimit ? "after bytes" : "after allocations", after, vm->errorState.allocationFailure ? "failed" : "went through");
    CHECK(vm->catastrophicFailureJmpBuf == &jb, "%s leaves another recovery point active", opname);
    if(rf) CHECK(vm->errorState.allocationFailure, "%s ran out of memory and the failure flag is not set", opname);
    if(k == 16) CHECK(vm->errorState.allocationFailure, "a forced failure did not set the flag");
    if(vm->errorState.allocationFailure) {
        int j; CHECK(rf || bylimit || k == 16, "%s set the failure flag with memory left", opname);
        CHECK(r <= 0, "%s ran out of memory and reports success", opname); CHECK(nkxVmHasErrors(vm) && nkxGetErrorCount(vm) == 1, "an out-of-memory machine reports %u errors", nkxGetErrorCount(vm));
        for(j = 0; j < 4 && k != 43; j++) { int k2 = j == 0 ? k : (int)rndn(NOPS); if((k2 == 5 || (k2 >= 7 && k2 <= 12)) && !cs) continue; if(k2 == 9) continue;
            a0 = asked_; r = op(vm, k2); 
            CHECK(vm->catastrophicFailureJmpBuf == &jb, "%s on a failed machine leaves another recovery point active", opname);
            CHECK(asked_ == a0, "%s on a failed machine still allocates", opname); CHECK(r <= 0 || k2 == 4, "%s on a failed machine reports success", opname); CHECK(vm->errorState.allocationFailure, "%s cleared the failure flag", opname); }
    } else if(bylimit) nkxSetMaxAllocatedMemory(vm, 0xffffffffu);
    if(!vm->errorState.allocationFailure) { if(mine) nkxFree(vm, mine); if(mycs) nkxCompilerFinalize(mycs); }
    if(!vm->errorState.allocationFailure && cs && k != 11) { nkxCompilerFinalize(cs); cs = NULL; }
    vm->catastrophicFailureJmpBuf = NULL; a0 = live_blocks_;
    if(after % 3 == 1) fail_after_ = rndn(4); else if(after % 3 == 2) nkxSetMaxAllocatedMemory(vm, nkxVmGetCurrentMemoryUsage(vm));
    tr("delete the machine%s\n", after % 3 ? " with no memory left" : ""); nkxVmDelete(vm); fail_after_ = -1; CHECK(live_blocks_ == 0, "deleting the machine keeps %llu blocks", (unsigned long long)live_blocks_);
}
static void one_case(uint64_t c) {
    int k = (int)(c % NOPS), withcs = (int)(c / NOPS % 2); long n; uint64_t rf0; int limit = k == 8 || k == 0 || k == 43 || k == 9 ? 400 : 60;
    if(!fname[0]) { FILE *f = tmpfile(); CHECK(f, "no scratch file"); snprintf(fname, sizeof fname, "/proc/self/fd/%d", fileno(f)); fputs("var fromfile = 1; var t = \"x\" + fromfile;", f); fflush(f); }
    (void)rf0;
    for(n = 0; n < limit; n++) { one(k, n, withcs, 0); if(!refused_) break; if(n > 40) n += (long)rndn(7); }
    one(k, rndn(2000), withcs, 1); one(k, rndn(100), withcs, 1);
    // the same from inside a native function
    if(k != 1 && k != 0 && k != 22 && k != 43 && k != 11 && k != 12 && k != 2) { struct NKVM *vm = machine(0); struct NKValue v, *g; static jmp_buf jb; cbop = (k == 5 || (k >= 7 && k <= 12)) ? 24 : k; cbfail = rndn(6); 
        vm->catastrophicFailureJmpBuf = &jb; if(setjmp(jb)) FAIL("a failure inside a native function escapes");
        g = nkxVmFindGlobalVariable(vm, NULL, "nested"); CHECK(g, "no native"); cbruns = 0; tr("%d inside a native function, failing after %ld\n", cbop, cbfail); nkxVmCallFunction(vm, g, 0, NULL, &v); 
        CHECK(vm->catastrophicFailureJmpBuf == &jb, "a call that ran %s in a native function leaves another recovery point active", opname); cbop = -1; vm->catastrophicFailureJmpBuf = NULL; nkxVmDelete(vm); CHECK(live_blocks_ == 0, "blocks kept"); }
}
