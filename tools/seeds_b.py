seeds = [
dict(id='P03-early-return', property='P03', needs='a native called with the wrong number of arguments, and later an allocation failure in another call', breaks='the recovery point of a finished call stays installed, so a later failure jumps into a dead stack frame',
 edits=[('src/nkx.c', "        nkiDynStrDelete(dynStr);\n        ret = nkfalse;\n    }\n\n    NK_CLEAR_FAILURE_RECOVERY();\n    return ret;\n}\n\nvoid nkxVmObjectAcquireHandle(", "        nkiDynStrDelete(dynStr);\n        return nkfalse;\n    }\n\n    NK_CLEAR_FAILURE_RECOVERY();\n    return ret;\n}\n\nvoid nkxVmObjectAcquireHandle(")],
 demo='''
int main(void) { struct NKVM *vm = nkxVmCreate(); struct NKVMFunctionCallbackData d; memset(&d, 0, sizeof d); d.vm = vm; d.argumentCount = 1;
  if(nkxFunctionCallbackCheckArgCount(&d, 2, "f")) BAD("accepted");
  if(vm->catastrophicFailureJmpBuf) BAD("the recovery point of a call that returned is still installed");
  nkxVmDelete(vm); puts("ok"); return 0; }
'''),
dict(id='P03-fast-path', property='P03', needs='converting a value that cannot be an integer while no memory is left', breaks='an allocation failure without a recovery point: the machine jumps through a null buffer instead of returning to the host',
 edits=[('src/nkx.c', "    nkint32_t ret = 0;\n    NK_SET_FAILURE_RECOVERY(ret);\n    ret = nkiValueToInt(vm, value);", "    nkint32_t ret = 0;\n\n    // Only strings need the string table.\n    if(value->type != NK_VALUETYPE_STRING) {\n        return nkiValueToInt(vm, value);\n    }\n\n    NK_SET_FAILURE_RECOVERY(ret);\n    ret = nkiValueToInt(vm, value);")],
 demo='''
#include <signal.h>
static void segv(int s) { _Exit(1); }
int main(void) { struct NKVM *vm = nkxVmCreate(); struct NKValue v; memset(&v, 0, sizeof v); v.type = NK_VALUETYPE_FUNCTIONID; signal(SIGSEGV, segv); signal(SIGABRT, segv);
  vm->limits.maxAllocatedMemory = vm->currentMemoryUsage;
  nkxValueToInt(vm, &v);
  if(!nkxVmHasErrors(vm)) BAD("no error");
  nkxVmDelete(vm); puts("ok"); return 0; }
'''),
dict(id='P06-third-in-bucket', property='P06', needs='three or more keys in one bucket, the looked-up one third or later', breaks='looking up a key present in the object moves entries of its bucket out of the object',
 edits=[('src/nkobjs.c', "    struct NKVMObjectElement *el = *obList;\n    while(el) {\n        if(nkiValueCompare(vm, key, &el->key, nktrue) == 0) {\n            break;\n        }\n        el = el->next;\n    }\n\n    // If we can't", "    struct NKVMObjectElement *el = *obList;\n    struct NKVMObjectElement *prev = NULL;\n    while(el) {\n        if(nkiValueCompare(vm, key, &el->key, nktrue) == 0) {\n            break;\n        }\n        prev = el;\n        el = el->next;\n    }\n\n    // Keep recently used entries at the front.\n    if(el && prev && prev != *obList) {\n        prev->next = NULL;\n        prev = *obList;\n        *obList = el;\n        el->next = prev;\n    }\n\n    // If we can't")],
 demo='''
int main(void) { struct NKVM *vm = nkxVmCreate(); struct NKValue o, k, *e = 0; int i;
  GUARD(vm, nkxCreateObject(vm, &o); for(i = 0; i < 4; i++) { nkxValueSetInt(vm, &k, 16 * i); e = nkiVmObjectFindOrAddEntry_public(vm, &o, &k, 0); nkxValueSetInt(vm, e, 100 + i); });
  for(int r = 0; r < 2; r++) for(i = 3; i >= 0; i--) { nkxValueSetInt(vm, &k, 16 * i); GUARD(vm, e = nkiVmObjectFindOrAddEntry_public(vm, &o, &k, 1)); if(!e || e->intData != 100 + i) BAD("key %d lost", 16 * i); }
  nkxVmDelete(vm); puts("ok"); return 0; }
'''),
dict(id='P07-size-head-only', property='P07', needs='deleting an entry that is not the first one of its bucket', breaks='the size no longer equals the number of entries',
 edits=[('src/nkobjs.c', "        assert(ob->size);\n        ob->size--;\n", "        // No need to touch the size if the bucket went empty with the\n        // last entry.\n        assert(ob->size);\n        if(elPtr == obList || !*elPtr) {\n            ob->size--;\n        }\n")],
 demo='''
int main(void) { struct NKVM *vm = nkxVmCreate(); struct NKValue o, k; int i;
  GUARD(vm, nkxCreateObject(vm, &o); for(i = 0; i < 4; i++) { nkxValueSetInt(vm, &k, 16 * i); nkiVmObjectFindOrAddEntry_public(vm, &o, &k, 0); });
  GUARD(vm, nkxValueSetInt(vm, &k, 16); nkiVmObjectClearEntry_public(vm, &o, &k));
  if(nkiVmObjectGetSize(vm, &o) != 3) BAD("size %u with 3 entries", nkiVmObjectGetSize(vm, &o));
  nkxVmDelete(vm); puts("ok"); return 0; }
'''),
dict(id='P08-older-first', property='P08', needs='two objects held, the one acquired first released first', breaks='releasing one handle drops the other object from the list of held objects',
 edits=[('src/nkobjs.c', "    if(vm->objectsWithExternalHandles) {\n        vm->objectsWithExternalHandles->previousExternalHandleListPtr =\n            &ob->nextObjectWithExternalHandles;\n    }\n    vm->objectsWithExternalHandles = ob;", "    vm->objectsWithExternalHandles = ob;")],
 demo='''
int main(void) { struct NKVM *vm = nkxVmCreate(); struct NKValue a, b; struct NKVMObject *p; int n = 0;
  GUARD(vm, nkxCreateObject(vm, &a); nkxCreateObject(vm, &b); nkiVmObjectAcquireHandle(vm, &a); nkiVmObjectAcquireHandle(vm, &b); nkiVmObjectReleaseHandle(vm, &a));
  for(p = vm->objectsWithExternalHandles; p; p = p->nextObjectWithExternalHandles) n += p->objectTableIndex == b.objectId;
  if(n != 1) BAD("the held object is on the list %d times", n);
  puts("ok"); _Exit(0); }
'''),
dict(id='P10-difference', property='P10', needs='two integers more than 2^31 apart', breaks='the order of integers is not transitive: a large and a small one compare the wrong way round',
 edits=[('src/nkvalue.c', "            if(in1->intData > other) {\n                return 1;\n            } else if(in1->intData == other) {\n                return 0;\n            } else {\n                return -1;\n            }", "            nkint32_t diff = (nkint32_t)((nkuint32_t)in1->intData - (nkuint32_t)other);\n            return (diff > 0) - (diff < 0);")],
 demo='''
int main(void) { struct NKVM *vm = nkxVmCreate(); struct NKValue a, b; nkxValueSetInt(vm, &a, 2000000000); nkxValueSetInt(vm, &b, -2000000000);
  if(nkiValueCompare(vm, &a, &b, 1) <= 0) BAD("2000000000 is not above -2000000000");
  nkxVmDelete(vm); puts("ok"); return 0; }
'''),
dict(id='P18-long-line-number', property='P18', asan=True, needs='an error reported at a line number with more than six digits', breaks='the text of the error overruns its block',
 edits=[('src/nkerror.c', "        nkuint32_t fixedSpaceNeeded = NK_PRINTF_UINTCHARSNEED + 16 + 1;", "        // Separators, up to six digits of line number, terminator.\n        nkuint32_t fixedSpaceNeeded = 3 + 6 + 1;")],
 demo='''
int main(void) { struct NKVM *vm = nkxVmCreate(); GUARD(vm, nkiAddErrorEx(vm, 4000000000u, NK_INVALID_VALUE, "x")); char b[100]; nkxGetErrorText(vm, b);
  if(strcmp(b, "<unknown>:4000000000: x\\n")) BAD("%s", b);
  nkxVmDelete(vm); puts("ok"); return 0; }
'''),
]
