seeds = [
dict(id='P09-parent-chain', property='P09', needs='a collection while three coroutines are nested, the middle one held by nothing but the chain of callers', breaks='a suspended caller coroutine is collected and its frame freed while the coroutine it started is running',
 edits=[('src/nkcorout.c', "        if(context->parent) {\n            nkiVmGarbageCollect_markValue(", "        //\n        // Note: Only the one that is actually executing has a caller.\n        if(context->parent && context == vm->currentExecutionContext) {\n            nkiVmGarbageCollect_markValue(")],
 demo='''
int main(void) { struct NKVM *vm = nkxVmCreate(); struct NKCompilerState *cs; int i;
  const char *src =
   "function churn() { for(var i = 0; i < 600; ++i) { var o = object(); o[\\"a\\"] = i; o[\\"b\\"] = object(); } }"
   "function c() { churn(); yield(1); }"
   "function b() { var keep = object(); keep[\\"x\\"] = 41; resume(coroutine(c)); return keep[\\"x\\"]; }"
   "function a() { var r = resume(coroutine(b)); return r; }"
   "var out = resume(coroutine(a));";
  cs = nkxCompilerCreate(vm); nkxCompilerCompileScript(cs, src, "t"); nkxCompilerFinalize(cs);
  if(nkxVmHasErrors(vm)) BAD("compile error %s", vm->errorState.firstError ? vm->errorState.firstError->errorText : "");
  for(i = 0; i < 200000 && !nkxVmHasErrors(vm) && !nkxVmProgramHasEnded(vm); i++) { nkxVmIterate(vm, 1); if(i % 7 == 0) nkxVmGarbageCollect(vm); }
  if(nkxVmHasErrors(vm)) BAD("error %s", vm->errorState.firstError ? vm->errorState.firstError->errorText : "");
  { struct NKValue *g = nkxVmFindGlobalVariable(vm, NULL, "out"); if(!g || g->type != NK_VALUETYPE_INT || g->intData != 41) BAD("the caller's frame was lost: %d %d", g ? (int)g->type : -1, g ? g->intData : 0); }
  nkxVmDelete(vm); puts("ok"); return 0; }
''', asan=True),
dict(id='P09-last-static', property='P09', needs='as many global variables as the static space has slots (a power of two), the last holding the only reference', breaks='what the last global variable holds is collected',
 edits=[('src/nkgc.c', "        while(1) {\n\n            nkiVmGarbageCollect_markValue(\n                &gcState, &values[i]);\n\n            if(i == vm->staticAddressMask) {\n                break;\n            }\n            i++;\n        }", "        nkiVmGarbageCollect_markValue(\n            &gcState, &values[i]);\n\n        for(i = 1; i < vm->staticAddressMask; i++) {\n            nkiVmGarbageCollect_markValue(\n                &gcState, &values[i]);\n        }")],
 demo='''
int main(void) { int n, i; 
  for(n = 1; n <= 40; n++) { struct NKVM *vm = nkxVmCreate(); struct NKCompilerState *cs = nkxCompilerCreate(vm); char s[64]; struct NKValue *g;
    for(i = 0; i < n; i++) { sprintf(s, "var g%d = object();", i); nkxCompilerCompileScript(cs, s, "t"); }
    nkxCompilerFinalize(cs); while(!nkxVmProgramHasEnded(vm) && !nkxVmHasErrors(vm)) nkxVmIterate(vm, 100);
    nkxVmGarbageCollect(vm); if(nkxVmHasErrors(vm)) BAD("error");
    for(i = 0; i < n; i++) { sprintf(s, "g%d", i); g = nkxVmFindGlobalVariable(vm, NULL, s); if(!g || g->type != NK_VALUETYPE_OBJECTID || !nkiVmGetObjectFromValue(vm, g)) BAD("global %d of %d lost its object", i, n); }
    nkxVmDelete(vm); }
  puts("ok"); return 0; }
'''),
]
