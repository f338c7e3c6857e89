// nkx.c: the recovery point, the failure flag and the failure value of every public operation.
// (written by tools/gen_nkx_spec.py)
ghost integer work;      // calls made into the machine so far
ghost integer thrown;    // how many of them were abandoned for lack of memory
// Assumed of every internal function: it may change anything except the recovery point (only the functions verified here
// assign it, see the writers check), and it may be abandoned, in which case the failure flag is set.
default contract nki {
  requires [recovery] vm != NULL && vm->catastrophicFailureJmpBuf != NULL;
  writes *, -NKVM.catastrophicFailureJmpBuf, -NKVMFunctionCallbackData.vm, -NKCompilerState.vm, -NKDynString.vm, -$born, work, thrown;
  throws; noframe;
  ensures [flag] \old(vm->errorState.allocationFailure) != 0 ==> vm->errorState.allocationFailure != 0;
  ensures [count] work == \old(work) + 1 && thrown == \old(thrown);
  exsures [flag] vm->errorState.allocationFailure == 1;
  exsures [count] work == \old(work) + 1 && thrown == \old(thrown) + 1;
}
extern contract nkiVmGarbageCollect_markValue(struct NKVMGCState *gcState, struct NKValue *v) {
  requires [recovery] gcState->vm != NULL && gcState->vm->catastrophicFailureJmpBuf != NULL;
  writes *, -NKVM.catastrophicFailureJmpBuf, -NKVMGCState.vm, -$born, work, thrown;
  throws; noframe;
  ensures [flag] \old(gcState->vm->errorState.allocationFailure) != 0 ==> gcState->vm->errorState.allocationFailure != 0;
  ensures [count] work == \old(work) + 1 && thrown == \old(thrown);
  exsures [flag] gcState->vm->errorState.allocationFailure == 1;
  exsures [count] work == \old(work) + 1 && thrown == \old(thrown) + 1;
}
extern contract nkiDynStrCreate(struct NKVM *vm, const char *str) : struct NKDynString * {
  requires [recovery] vm != NULL && vm->catastrophicFailureJmpBuf != NULL;
  writes *, -NKVM.catastrophicFailureJmpBuf, -NKVMFunctionCallbackData.vm, -NKCompilerState.vm, -NKDynString.vm, -$born, work, thrown;
  throws; noframe;
  ensures [owner] \result->vm == vm;
  ensures [flag] \old(vm->errorState.allocationFailure) != 0 ==> vm->errorState.allocationFailure != 0;
  ensures [count] work == \old(work) + 1 && thrown == \old(thrown);
  exsures [flag] vm->errorState.allocationFailure == 1;
  exsures [count] work == \old(work) + 1 && thrown == \old(thrown) + 1;
}
// libc
extern contract fopen(const char *n, const char *m) : void * { nothrow; assigns \nothing; }
extern contract fclose(void *f) : int { nothrow; assigns \nothing; }
extern contract fseek(void *f, long o, int w) : int { nothrow; assigns \nothing; }
extern contract ftell(void *f) : long { nothrow; assigns \nothing; }
extern contract fread(void *p, unsigned long s, unsigned long n, void *f) : unsigned long { nothrow; noframe; writes cell:i8; }
extern contract malloc(unsigned long n) : void * { nothrow; assigns \nothing; }
extern contract free(void *p) { nothrow; assigns \nothing; }
fnptr serializationState.writer(void *data, nkuint32_t size, void *u, nkbool w) : nkbool { nothrow; noframe; writes cell:i8; }
// may be called without a recovery point; each is verified not to allocate
extern contract nkiVmHasErrors(struct NKVM *vm) : nkbool { nothrow; assigns \nothing; ensures [errors] \result == (vm->errorState.firstError != NULL || vm->errorState.allocationFailure != 0 ? 1 : 0); }
extern contract nkiVmFindGlobalVariable(struct NKVM *vm, const char *name) : struct NKValue * { nothrow; assigns \nothing; }
extern contract nkiVmFindExternalType(struct NKVM *vm, const char *name) : NKVMExternalDataTypeID { nothrow; assigns \nothing; }
extern contract nkiVmGetExternalTypeName(struct NKVM *vm, NKVMExternalDataTypeID id) : const char * { nothrow; assigns \nothing; }
extern contract nkiVmObjectGetExternalData(struct NKVM *vm, struct NKValue *object) : void * { nothrow; assigns \nothing; }
extern contract nkiGetExternalSubsystemData(struct NKVM *vm, const char *name) : void * { nothrow; assigns \nothing; }
extern contract nkiGetErrorLength(struct NKVM *vm) : nkuint32_t { nothrow; assigns \nothing; }
extern contract nkiGetErrorText(struct NKVM *vm, char *buffer) { nothrow; noframe; writes cell:i8; }
extern contract nkiCompilerIsAtRootContext(struct NKCompilerState *cs) : nkbool { nothrow; assigns \nothing; }
extern contract nkiErrorStateSetAllocationFailFlag(struct NKVM *vm) { nothrow; writes NKErrorState.allocationFailure; assigns vm->errorState.allocationFailure; ensures [flag] vm->errorState.allocationFailure == 1; }
extern contract nkiValueTypeGetName(unsigned int type) : const char * { nothrow; assigns \nothing; }

contract nkxVmExecuteProgram {
  requires [vm] vm != NULL;  
  noframe; nothrow; opt nomem;
  loop * { invariant [flag] (\entry(vm->errorState.allocationFailure) != 0 ==> vm->errorState.allocationFailure != 0) && thrown == \entry(thrown) && work >= \entry(work); }
  ensures [recovery] \old(vm)->catastrophicFailureJmpBuf == \old(vm->catastrophicFailureJmpBuf);
  ensures [flag] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \old(vm)->errorState.allocationFailure != 0;
  ensures [refused] \old(vm->errorState.allocationFailure) != 0 ==> work == \old(work);
  ensures [value] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \result == 0;
}
contract nkxGetErrorCount {
  requires [vm] vm != NULL;  
  noframe; nothrow; opt nomem;
  loop * { invariant [flag] (\entry(vm->errorState.allocationFailure) != 0 ==> vm->errorState.allocationFailure != 0) && thrown == \entry(thrown) && work >= \entry(work); }
  ensures [recovery] \old(vm)->catastrophicFailureJmpBuf == \old(vm->catastrophicFailureJmpBuf);
  ensures [flag] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \old(vm)->errorState.allocationFailure != 0;
  ensures [refused] \old(vm->errorState.allocationFailure) != 0 ==> work == \old(work);
  ensures [value] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \result == 1;
}
contract nkxVmIterate {
  requires [vm] vm != NULL;  
  noframe; nothrow; opt nomem;
  loop * { invariant [flag] (\entry(vm->errorState.allocationFailure) != 0 ==> vm->errorState.allocationFailure != 0) && thrown == \entry(thrown) && work >= \entry(work); }
  ensures [recovery] \old(vm)->catastrophicFailureJmpBuf == \old(vm->catastrophicFailureJmpBuf);
  ensures [flag] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \old(vm)->errorState.allocationFailure != 0;
  ensures [refused] \old(vm->errorState.allocationFailure) != 0 ==> work == \old(work);
}
contract nkxVmGarbageCollect {
  requires [vm] vm != NULL;  
  noframe; nothrow; opt nomem;
  loop * { invariant [flag] (\entry(vm->errorState.allocationFailure) != 0 ==> vm->errorState.allocationFailure != 0) && thrown == \entry(thrown) && work >= \entry(work); }
  ensures [recovery] \old(vm)->catastrophicFailureJmpBuf == \old(vm->catastrophicFailureJmpBuf);
  ensures [flag] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \old(vm)->errorState.allocationFailure != 0;
  ensures [refused] \old(vm->errorState.allocationFailure) != 0 ==> work == \old(work);
}
contract nkxVmCallFunction {
  requires [vm] vm != NULL;  
  noframe; nothrow; opt nomem;
  loop * { invariant [flag] (\entry(vm->errorState.allocationFailure) != 0 ==> vm->errorState.allocationFailure != 0) && thrown == \entry(thrown) && work >= \entry(work); }
  ensures [recovery] \old(vm)->catastrophicFailureJmpBuf == \old(vm->catastrophicFailureJmpBuf);
  ensures [flag] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \old(vm)->errorState.allocationFailure != 0;
  ensures [refused] \old(vm->errorState.allocationFailure) != 0 ==> work == \old(work);
}
contract nkxForceCatastrophicFailure {
  requires [vm] vm != NULL;  
  noframe; nothrow; opt nomem;
  loop * { invariant [flag] (\entry(vm->errorState.allocationFailure) != 0 ==> vm->errorState.allocationFailure != 0) && thrown == \entry(thrown) && work >= \entry(work); }
  ensures [flag] \old(vm)->errorState.allocationFailure != 0;
  ensures [recovery] \old(vm)->catastrophicFailureJmpBuf == \old(vm->catastrophicFailureJmpBuf);
  ensures [flag] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \old(vm)->errorState.allocationFailure != 0;
  ensures [refused] \old(vm->errorState.allocationFailure) != 0 ==> work == \old(work);
}
contract nkxVmObjectAcquireHandle {
  requires [vm] vm != NULL;  
  noframe; nothrow; opt nomem;
  loop * { invariant [flag] (\entry(vm->errorState.allocationFailure) != 0 ==> vm->errorState.allocationFailure != 0) && thrown == \entry(thrown) && work >= \entry(work); }
  ensures [recovery] \old(vm)->catastrophicFailureJmpBuf == \old(vm->catastrophicFailureJmpBuf);
  ensures [flag] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \old(vm)->errorState.allocationFailure != 0;
  ensures [refused] \old(vm->errorState.allocationFailure) != 0 ==> work == \old(work);
}
contract nkxVmObjectReleaseHandle {
  requires [vm] vm != NULL;  
  noframe; nothrow; opt nomem;
  loop * { invariant [flag] (\entry(vm->errorState.allocationFailure) != 0 ==> vm->errorState.allocationFailure != 0) && thrown == \entry(thrown) && work >= \entry(work); }
  ensures [recovery] \old(vm)->catastrophicFailureJmpBuf == \old(vm->catastrophicFailureJmpBuf);
  ensures [flag] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \old(vm)->errorState.allocationFailure != 0;
  ensures [refused] \old(vm->errorState.allocationFailure) != 0 ==> work == \old(work);
}
contract nkxDbgDumpState {
  requires [vm] vm != NULL;  
  noframe; nothrow; opt nomem;
  loop * { invariant [flag] (\entry(vm->errorState.allocationFailure) != 0 ==> vm->errorState.allocationFailure != 0) && thrown == \entry(thrown) && work >= \entry(work); }
  ensures [recovery] \old(vm)->catastrophicFailureJmpBuf == \old(vm->catastrophicFailureJmpBuf);
  ensures [flag] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \old(vm)->errorState.allocationFailure != 0;
  ensures [refused] \old(vm->errorState.allocationFailure) != 0 ==> work == \old(work);
}
contract nkxAddError {
  requires [vm] vm != NULL;  
  noframe; nothrow; opt nomem;
  loop * { invariant [flag] (\entry(vm->errorState.allocationFailure) != 0 ==> vm->errorState.allocationFailure != 0) && thrown == \entry(thrown) && work >= \entry(work); }
  ensures [recovery] \old(vm)->catastrophicFailureJmpBuf == \old(vm->catastrophicFailureJmpBuf);
  ensures [flag] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \old(vm)->errorState.allocationFailure != 0;
  ensures [refused] \old(vm->errorState.allocationFailure) != 0 ==> work == \old(work);
}
contract nkxAddErrorEx {
  requires [vm] vm != NULL;  
  noframe; nothrow; opt nomem;
  loop * { invariant [flag] (\entry(vm->errorState.allocationFailure) != 0 ==> vm->errorState.allocationFailure != 0) && thrown == \entry(thrown) && work >= \entry(work); }
  ensures [recovery] \old(vm)->catastrophicFailureJmpBuf == \old(vm->catastrophicFailureJmpBuf);
  ensures [flag] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \old(vm)->errorState.allocationFailure != 0;
  ensures [refused] \old(vm->errorState.allocationFailure) != 0 ==> work == \old(work);
}
contract nkxVmShrink {
  requires [vm] vm != NULL;  
  noframe; nothrow; opt nomem;
  loop * { invariant [flag] (\entry(vm->errorState.allocationFailure) != 0 ==> vm->errorState.allocationFailure != 0) && thrown == \entry(thrown) && work >= \entry(work); }
  ensures [recovery] \old(vm)->catastrophicFailureJmpBuf == \old(vm->catastrophicFailureJmpBuf);
  ensures [flag] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \old(vm)->errorState.allocationFailure != 0;
  ensures [refused] \old(vm->errorState.allocationFailure) != 0 ==> work == \old(work);
}
contract nkxValueSetInt {
  requires [vm] vm != NULL;  
  noframe; nothrow; opt nomem;
  loop * { invariant [flag] (\entry(vm->errorState.allocationFailure) != 0 ==> vm->errorState.allocationFailure != 0) && thrown == \entry(thrown) && work >= \entry(work); }
  ensures [recovery] \old(vm)->catastrophicFailureJmpBuf == \old(vm->catastrophicFailureJmpBuf);
  ensures [flag] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \old(vm)->errorState.allocationFailure != 0;
  ensures [refused] \old(vm->errorState.allocationFailure) != 0 ==> work == \old(work);
}
contract nkxValueSetFloat {
  requires [vm] vm != NULL;  
  noframe; nothrow; opt nomem;
  loop * { invariant [flag] (\entry(vm->errorState.allocationFailure) != 0 ==> vm->errorState.allocationFailure != 0) && thrown == \entry(thrown) && work >= \entry(work); }
  ensures [recovery] \old(vm)->catastrophicFailureJmpBuf == \old(vm->catastrophicFailureJmpBuf);
  ensures [flag] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \old(vm)->errorState.allocationFailure != 0;
  ensures [refused] \old(vm->errorState.allocationFailure) != 0 ==> work == \old(work);
}
contract nkxValueSetString {
  requires [vm] vm != NULL;  
  noframe; nothrow; opt nomem;
  loop * { invariant [flag] (\entry(vm->errorState.allocationFailure) != 0 ==> vm->errorState.allocationFailure != 0) && thrown == \entry(thrown) && work >= \entry(work); }
  ensures [recovery] \old(vm)->catastrophicFailureJmpBuf == \old(vm->catastrophicFailureJmpBuf);
  ensures [flag] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \old(vm)->errorState.allocationFailure != 0;
  ensures [refused] \old(vm->errorState.allocationFailure) != 0 ==> work == \old(work);
}
contract nkxCreateObject {
  requires [vm] vm != NULL;  
  noframe; nothrow; opt nomem;
  loop * { invariant [flag] (\entry(vm->errorState.allocationFailure) != 0 ==> vm->errorState.allocationFailure != 0) && thrown == \entry(thrown) && work >= \entry(work); }
  ensures [recovery] \old(vm)->catastrophicFailureJmpBuf == \old(vm->catastrophicFailureJmpBuf);
  ensures [flag] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \old(vm)->errorState.allocationFailure != 0;
  ensures [refused] \old(vm->errorState.allocationFailure) != 0 ==> work == \old(work);
}
contract nkxVmGarbageCollect_markValue {
  requires [vm] vm != NULL;  requires [state] gcState != NULL && gcState->vm == vm;
  noframe; nothrow; opt nomem;
  loop * { invariant [flag] (\entry(vm->errorState.allocationFailure) != 0 ==> vm->errorState.allocationFailure != 0) && thrown == \entry(thrown) && work >= \entry(work); }
  ensures [recovery] \old(vm)->catastrophicFailureJmpBuf == \old(vm->catastrophicFailureJmpBuf);
  ensures [flag] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \old(vm)->errorState.allocationFailure != 0;
  ensures [refused] \old(vm->errorState.allocationFailure) != 0 ==> work == \old(work);
}
contract nkxVmObjectClearEntry {
  requires [vm] vm != NULL;  
  noframe; nothrow; opt nomem;
  loop * { invariant [flag] (\entry(vm->errorState.allocationFailure) != 0 ==> vm->errorState.allocationFailure != 0) && thrown == \entry(thrown) && work >= \entry(work); }
  ensures [recovery] \old(vm)->catastrophicFailureJmpBuf == \old(vm->catastrophicFailureJmpBuf);
  ensures [flag] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \old(vm)->errorState.allocationFailure != 0;
  ensures [refused] \old(vm->errorState.allocationFailure) != 0 ==> work == \old(work);
}
contract nkxValueSetFunction {
  requires [vm] vm != NULL;  
  noframe; nothrow; opt nomem;
  loop * { invariant [flag] (\entry(vm->errorState.allocationFailure) != 0 ==> vm->errorState.allocationFailure != 0) && thrown == \entry(thrown) && work >= \entry(work); }
  ensures [recovery] \old(vm)->catastrophicFailureJmpBuf == \old(vm->catastrophicFailureJmpBuf);
  ensures [flag] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \old(vm)->errorState.allocationFailure != 0;
  ensures [refused] \old(vm->errorState.allocationFailure) != 0 ==> work == \old(work);
}
contract nkxFree {
  requires [vm] vm != NULL;  
  noframe; nothrow; opt nomem;
  loop * { invariant [flag] (\entry(vm->errorState.allocationFailure) != 0 ==> vm->errorState.allocationFailure != 0) && thrown == \entry(thrown) && work >= \entry(work); }
  ensures [recovery] \old(vm)->catastrophicFailureJmpBuf == \old(vm->catastrophicFailureJmpBuf);
  ensures [flag] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \old(vm)->errorState.allocationFailure != 0;
  ensures [refused] \old(vm->errorState.allocationFailure) != 0 ==> work == \old(work);
}
contract nkxVmInitExecutionContext {
  requires [vm] vm != NULL;  
  noframe; nothrow; opt nomem;
  loop * { invariant [flag] (\entry(vm->errorState.allocationFailure) != 0 ==> vm->errorState.allocationFailure != 0) && thrown == \entry(thrown) && work >= \entry(work); }
  ensures [recovery] \old(vm)->catastrophicFailureJmpBuf == \old(vm->catastrophicFailureJmpBuf);
  ensures [flag] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \old(vm)->errorState.allocationFailure != 0;
  ensures [refused] \old(vm->errorState.allocationFailure) != 0 ==> work == \old(work);
}
contract nkxCompilerCreateCFunctionVariable {
  requires [vm] cs->vm != NULL; requires [cs] cs != NULL; 
  noframe; nothrow; opt nomem;
  loop * { invariant [flag] (\entry(cs->vm->errorState.allocationFailure) != 0 ==> cs->vm->errorState.allocationFailure != 0) && thrown == \entry(thrown) && work >= \entry(work); }
  ensures [recovery] \old(cs->vm)->catastrophicFailureJmpBuf == \old(cs->vm->catastrophicFailureJmpBuf);
  ensures [flag] \old(cs->vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \old(cs->vm)->errorState.allocationFailure != 0;
  ensures [refused] \old(cs->vm->errorState.allocationFailure) != 0 ==> work == \old(work);
}
contract nkxCompilerFinalize {
  requires [vm] cs->vm != NULL; requires [cs] cs != NULL; 
  noframe; nothrow; opt nomem;
  loop * { invariant [flag] (\entry(cs->vm->errorState.allocationFailure) != 0 ==> cs->vm->errorState.allocationFailure != 0) && thrown == \entry(thrown) && work >= \entry(work); }
  ensures [recovery] \old(cs->vm)->catastrophicFailureJmpBuf == \old(cs->vm->catastrophicFailureJmpBuf);
  ensures [flag] \old(cs->vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \old(cs->vm)->errorState.allocationFailure != 0;
  ensures [refused] \old(cs->vm->errorState.allocationFailure) != 0 ==> work == \old(work);
}
contract nkxCompilerPartiallyFinalize {
  requires [vm] cs->vm != NULL; requires [cs] cs != NULL; 
  noframe; nothrow; opt nomem;
  loop * { invariant [flag] (\entry(cs->vm->errorState.allocationFailure) != 0 ==> cs->vm->errorState.allocationFailure != 0) && thrown == \entry(thrown) && work >= \entry(work); }
  ensures [recovery] \old(cs->vm)->catastrophicFailureJmpBuf == \old(cs->vm->catastrophicFailureJmpBuf);
  ensures [flag] \old(cs->vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \old(cs->vm)->errorState.allocationFailure != 0;
  ensures [refused] \old(cs->vm->errorState.allocationFailure) != 0 ==> work == \old(work);
}
contract nkxCompilerClearReplErrorState {
  requires [vm] cs->vm != NULL; requires [cs] cs != NULL; 
  noframe; nothrow; opt nomem;
  loop * { invariant [flag] (\entry(cs->vm->errorState.allocationFailure) != 0 ==> cs->vm->errorState.allocationFailure != 0) && thrown == \entry(thrown) && work >= \entry(work); }
  ensures [recovery] \old(cs->vm)->catastrophicFailureJmpBuf == \old(cs->vm->catastrophicFailureJmpBuf);
  ensures [flag] \old(cs->vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \old(cs->vm)->errorState.allocationFailure != 0;
  ensures [refused] \old(cs->vm->errorState.allocationFailure) != 0 ==> work == \old(work);
}
contract nkxCompilerCreateGlobalVariable {
  requires [vm] cs->vm != NULL; requires [cs] cs != NULL; 
  noframe; nothrow; opt nomem;
  loop * { invariant [flag] (\entry(cs->vm->errorState.allocationFailure) != 0 ==> cs->vm->errorState.allocationFailure != 0) && thrown == \entry(thrown) && work >= \entry(work); }
  ensures [recovery] \old(cs->vm)->catastrophicFailureJmpBuf == \old(cs->vm->catastrophicFailureJmpBuf);
  ensures [flag] \old(cs->vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \old(cs->vm)->errorState.allocationFailure != 0;
  ensures [refused] \old(cs->vm->errorState.allocationFailure) != 0 ==> work == \old(work);
  ensures [value] \old(cs->vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \result == NULL;
}
contract nkxCompilerCompileScript {
  requires [vm] cs->vm != NULL; requires [cs] cs != NULL; 
  noframe; nothrow; opt nomem;
  loop * { invariant [flag] (\entry(cs->vm->errorState.allocationFailure) != 0 ==> cs->vm->errorState.allocationFailure != 0) && thrown == \entry(thrown) && work >= \entry(work); }
  ensures [recovery] \old(cs->vm)->catastrophicFailureJmpBuf == \old(cs->vm->catastrophicFailureJmpBuf);
  ensures [flag] \old(cs->vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \old(cs->vm)->errorState.allocationFailure != 0;
  ensures [refused] \old(cs->vm->errorState.allocationFailure) != 0 ==> work == \old(work);
  ensures [value] \old(cs->vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \result == 0;
}
contract nkxCompilerCompileScriptFile {
  requires [vm] cs->vm != NULL; requires [cs] cs != NULL; 
  noframe; nothrow; opt nomem;
  loop * { invariant [flag] (\entry(cs->vm->errorState.allocationFailure) != 0 ==> cs->vm->errorState.allocationFailure != 0) && thrown == \entry(thrown) && work >= \entry(work); }
  ensures [recovery] \old(cs->vm)->catastrophicFailureJmpBuf == \old(cs->vm->catastrophicFailureJmpBuf);
  ensures [flag] \old(cs->vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \old(cs->vm)->errorState.allocationFailure != 0;
  ensures [refused] \old(cs->vm->errorState.allocationFailure) != 0 ==> work == \old(work);
  ensures [value] \old(cs->vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \result == 0;
}
contract nkxCompilerCreate {
  requires [vm] vm != NULL;  
  noframe; nothrow; opt nomem;
  loop * { invariant [flag] (\entry(vm->errorState.allocationFailure) != 0 ==> vm->errorState.allocationFailure != 0) && thrown == \entry(thrown) && work >= \entry(work); }
  ensures [recovery] \old(vm)->catastrophicFailureJmpBuf == \old(vm->catastrophicFailureJmpBuf);
  ensures [flag] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \old(vm)->errorState.allocationFailure != 0;
  ensures [refused] \old(vm->errorState.allocationFailure) != 0 ==> work == \old(work);
  ensures [value] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \result == NULL;
}
contract nkxValueToString {
  requires [vm] vm != NULL;  
  noframe; nothrow; opt nomem;
  loop * { invariant [flag] (\entry(vm->errorState.allocationFailure) != 0 ==> vm->errorState.allocationFailure != 0) && thrown == \entry(thrown) && work >= \entry(work); }
  ensures [recovery] \old(vm)->catastrophicFailureJmpBuf == \old(vm->catastrophicFailureJmpBuf);
  ensures [flag] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \old(vm)->errorState.allocationFailure != 0;
  ensures [refused] \old(vm->errorState.allocationFailure) != 0 ==> work == \old(work);
  ensures [value] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \result == NULL;
}
contract nkxVmObjectFindOrAddEntry {
  requires [vm] vm != NULL;  
  noframe; nothrow; opt nomem;
  loop * { invariant [flag] (\entry(vm->errorState.allocationFailure) != 0 ==> vm->errorState.allocationFailure != 0) && thrown == \entry(thrown) && work >= \entry(work); }
  ensures [recovery] \old(vm)->catastrophicFailureJmpBuf == \old(vm->catastrophicFailureJmpBuf);
  ensures [flag] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \old(vm)->errorState.allocationFailure != 0;
  ensures [refused] \old(vm->errorState.allocationFailure) != 0 ==> work == \old(work);
  ensures [value] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \result == NULL;
}
contract nkxMalloc {
  requires [vm] vm != NULL;  
  noframe; nothrow; opt nomem;
  loop * { invariant [flag] (\entry(vm->errorState.allocationFailure) != 0 ==> vm->errorState.allocationFailure != 0) && thrown == \entry(thrown) && work >= \entry(work); }
  ensures [recovery] \old(vm)->catastrophicFailureJmpBuf == \old(vm->catastrophicFailureJmpBuf);
  ensures [flag] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \old(vm)->errorState.allocationFailure != 0;
  ensures [refused] \old(vm->errorState.allocationFailure) != 0 ==> work == \old(work);
  ensures [value] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \result == NULL;
}
contract nkxMallocArray {
  requires [vm] vm != NULL;  
  noframe; nothrow; opt nomem;
  loop * { invariant [flag] (\entry(vm->errorState.allocationFailure) != 0 ==> vm->errorState.allocationFailure != 0) && thrown == \entry(thrown) && work >= \entry(work); }
  ensures [recovery] \old(vm)->catastrophicFailureJmpBuf == \old(vm->catastrophicFailureJmpBuf);
  ensures [flag] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \old(vm)->errorState.allocationFailure != 0;
  ensures [refused] \old(vm->errorState.allocationFailure) != 0 ==> work == \old(work);
  ensures [value] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \result == NULL;
}
contract nkxRealloc {
  requires [vm] vm != NULL;  
  noframe; nothrow; opt nomem;
  loop * { invariant [flag] (\entry(vm->errorState.allocationFailure) != 0 ==> vm->errorState.allocationFailure != 0) && thrown == \entry(thrown) && work >= \entry(work); }
  ensures [recovery] \old(vm)->catastrophicFailureJmpBuf == \old(vm->catastrophicFailureJmpBuf);
  ensures [flag] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \old(vm)->errorState.allocationFailure != 0;
  ensures [refused] \old(vm->errorState.allocationFailure) != 0 ==> work == \old(work);
  ensures [value] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \result == NULL;
}
contract nkxReallocArray {
  requires [vm] vm != NULL;  
  noframe; nothrow; opt nomem;
  loop * { invariant [flag] (\entry(vm->errorState.allocationFailure) != 0 ==> vm->errorState.allocationFailure != 0) && thrown == \entry(thrown) && work >= \entry(work); }
  ensures [recovery] \old(vm)->catastrophicFailureJmpBuf == \old(vm->catastrophicFailureJmpBuf);
  ensures [flag] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \old(vm)->errorState.allocationFailure != 0;
  ensures [refused] \old(vm->errorState.allocationFailure) != 0 ==> work == \old(work);
  ensures [value] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \result == NULL;
}
contract nkxStrdup {
  requires [vm] vm != NULL;  
  noframe; nothrow; opt nomem;
  loop * { invariant [flag] (\entry(vm->errorState.allocationFailure) != 0 ==> vm->errorState.allocationFailure != 0) && thrown == \entry(thrown) && work >= \entry(work); }
  ensures [recovery] \old(vm)->catastrophicFailureJmpBuf == \old(vm->catastrophicFailureJmpBuf);
  ensures [flag] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \old(vm)->errorState.allocationFailure != 0;
  ensures [refused] \old(vm->errorState.allocationFailure) != 0 ==> work == \old(work);
  ensures [value] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \result == NULL;
}
contract nkxGetExternalSubsystemDataOrError {
  requires [vm] vm != NULL;  
  noframe; nothrow; opt nomem;
  loop * { invariant [flag] (\entry(vm->errorState.allocationFailure) != 0 ==> vm->errorState.allocationFailure != 0) && thrown == \entry(thrown) && work >= \entry(work); }
  ensures [recovery] \old(vm)->catastrophicFailureJmpBuf == \old(vm->catastrophicFailureJmpBuf);
  ensures [flag] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \old(vm)->errorState.allocationFailure != 0;
  ensures [refused] \old(vm->errorState.allocationFailure) != 0 ==> work == \old(work);
  ensures [value] thrown != \old(thrown) ==> \result == NULL;
}
contract nkxVmFindGlobalVariable {
  requires [vm] vm != NULL;  requires [machine] cs != NULL ==> cs->vm == vm;
  noframe; nothrow; opt nomem;
  loop * { invariant [flag] (\entry(vm->errorState.allocationFailure) != 0 ==> vm->errorState.allocationFailure != 0) && thrown == \entry(thrown) && work >= \entry(work); }
  ensures [recovery] \old(vm)->catastrophicFailureJmpBuf == \old(vm->catastrophicFailureJmpBuf);
  ensures [flag] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \old(vm)->errorState.allocationFailure != 0;
  ensures [value] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> (cs == NULL || \result == NULL);
}
contract nkxValueToInt {
  requires [vm] vm != NULL;  
  noframe; nothrow; opt nomem;
  loop * { invariant [flag] (\entry(vm->errorState.allocationFailure) != 0 ==> vm->errorState.allocationFailure != 0) && thrown == \entry(thrown) && work >= \entry(work); }
  ensures [recovery] \old(vm)->catastrophicFailureJmpBuf == \old(vm->catastrophicFailureJmpBuf);
  ensures [flag] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \old(vm)->errorState.allocationFailure != 0;
  ensures [refused] \old(vm->errorState.allocationFailure) != 0 ==> work == \old(work);
  ensures [value] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \result == 0;
}
contract nkxVmObjectGetSize {
  requires [vm] vm != NULL;  
  noframe; nothrow; opt nomem;
  loop * { invariant [flag] (\entry(vm->errorState.allocationFailure) != 0 ==> vm->errorState.allocationFailure != 0) && thrown == \entry(thrown) && work >= \entry(work); }
  ensures [recovery] \old(vm)->catastrophicFailureJmpBuf == \old(vm->catastrophicFailureJmpBuf);
  ensures [flag] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \old(vm)->errorState.allocationFailure != 0;
  ensures [refused] \old(vm->errorState.allocationFailure) != 0 ==> work == \old(work);
  ensures [value] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \result == 0;
}
contract nkxVmObjectSetExternalType {
  requires [vm] vm != NULL;  
  noframe; nothrow; opt nomem;
  loop * { invariant [flag] (\entry(vm->errorState.allocationFailure) != 0 ==> vm->errorState.allocationFailure != 0) && thrown == \entry(thrown) && work >= \entry(work); }
  ensures [recovery] \old(vm)->catastrophicFailureJmpBuf == \old(vm->catastrophicFailureJmpBuf);
  ensures [flag] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \old(vm)->errorState.allocationFailure != 0;
  ensures [refused] \old(vm->errorState.allocationFailure) != 0 ==> work == \old(work);
  ensures [value] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \result == 0;
}
contract nkxVmObjectSetExternalData {
  requires [vm] vm != NULL;  
  noframe; nothrow; opt nomem;
  loop * { invariant [flag] (\entry(vm->errorState.allocationFailure) != 0 ==> vm->errorState.allocationFailure != 0) && thrown == \entry(thrown) && work >= \entry(work); }
  ensures [recovery] \old(vm)->catastrophicFailureJmpBuf == \old(vm->catastrophicFailureJmpBuf);
  ensures [flag] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \old(vm)->errorState.allocationFailure != 0;
  ensures [refused] \old(vm->errorState.allocationFailure) != 0 ==> work == \old(work);
  ensures [value] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \result == 0;
}
contract nkxVmSerialize {
  requires [vm] vm != NULL;  
  noframe; nothrow; opt nomem;
  loop * { invariant [flag] (\entry(vm->errorState.allocationFailure) != 0 ==> vm->errorState.allocationFailure != 0) && thrown == \entry(thrown) && work >= \entry(work); }
  ensures [recovery] \old(vm)->catastrophicFailureJmpBuf == \old(vm->catastrophicFailureJmpBuf);
  ensures [flag] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \old(vm)->errorState.allocationFailure != 0;
  ensures [refused] \old(vm->errorState.allocationFailure) != 0 ==> work == \old(work);
  ensures [value] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \result == 0;
}
contract nkxVmObjectGetExternalHandleCount {
  requires [vm] vm != NULL;  
  noframe; nothrow; opt nomem;
  loop * { invariant [flag] (\entry(vm->errorState.allocationFailure) != 0 ==> vm->errorState.allocationFailure != 0) && thrown == \entry(thrown) && work >= \entry(work); }
  ensures [recovery] \old(vm)->catastrophicFailureJmpBuf == \old(vm->catastrophicFailureJmpBuf);
  ensures [flag] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \old(vm)->errorState.allocationFailure != 0;
  ensures [refused] \old(vm->errorState.allocationFailure) != 0 ==> work == \old(work);
  ensures [value] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \result == 0;
}
contract nkxInitSubsystem {
  requires [vm] vm != NULL;  
  noframe; nothrow; opt nomem;
  loop * { invariant [flag] (\entry(vm->errorState.allocationFailure) != 0 ==> vm->errorState.allocationFailure != 0) && thrown == \entry(thrown) && work >= \entry(work); }
  ensures [recovery] \old(vm)->catastrophicFailureJmpBuf == \old(vm->catastrophicFailureJmpBuf);
  ensures [flag] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \old(vm)->errorState.allocationFailure != 0;
  ensures [refused] \old(vm->errorState.allocationFailure) != 0 ==> work == \old(work);
  ensures [value] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \result == 0;
}
contract nkxSerializeData {
  requires [vm] vm != NULL;  
  noframe; nothrow; opt nomem;
  loop * { invariant [flag] (\entry(vm->errorState.allocationFailure) != 0 ==> vm->errorState.allocationFailure != 0) && thrown == \entry(thrown) && work >= \entry(work); }
  ensures [recovery] \old(vm)->catastrophicFailureJmpBuf == \old(vm->catastrophicFailureJmpBuf);
  ensures [flag] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \old(vm)->errorState.allocationFailure != 0;
  ensures [refused] \old(vm->errorState.allocationFailure) != 0 ==> work == \old(work);
  ensures [value] thrown != \old(thrown) ==> \result == 0;
}
contract nkxValueToFloat {
  requires [vm] vm != NULL;  
  noframe; nothrow; opt nomem;
  loop * { invariant [flag] (\entry(vm->errorState.allocationFailure) != 0 ==> vm->errorState.allocationFailure != 0) && thrown == \entry(thrown) && work >= \entry(work); }
  ensures [recovery] \old(vm)->catastrophicFailureJmpBuf == \old(vm->catastrophicFailureJmpBuf);
  ensures [flag] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \old(vm)->errorState.allocationFailure != 0;
  ensures [refused] \old(vm->errorState.allocationFailure) != 0 ==> work == \old(work);
  ensures [value] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \result == \f_zero();
}
contract nkxVmRegisterExternalFunction {
  requires [vm] vm != NULL;  
  noframe; nothrow; opt nomem;
  loop * { invariant [flag] (\entry(vm->errorState.allocationFailure) != 0 ==> vm->errorState.allocationFailure != 0) && thrown == \entry(thrown) && work >= \entry(work); }
  ensures [recovery] \old(vm)->catastrophicFailureJmpBuf == \old(vm->catastrophicFailureJmpBuf);
  ensures [flag] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \old(vm)->errorState.allocationFailure != 0;
  ensures [refused] \old(vm->errorState.allocationFailure) != 0 ==> work == \old(work);
  ensures [value] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \result.id == 0xffffffff;
}
contract nkxVmGetOrCreateInternalFunctionForExternalFunction {
  requires [vm] vm != NULL;  
  noframe; nothrow; opt nomem;
  loop * { invariant [flag] (\entry(vm->errorState.allocationFailure) != 0 ==> vm->errorState.allocationFailure != 0) && thrown == \entry(thrown) && work >= \entry(work); }
  ensures [recovery] \old(vm)->catastrophicFailureJmpBuf == \old(vm->catastrophicFailureJmpBuf);
  ensures [flag] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \old(vm)->errorState.allocationFailure != 0;
  ensures [refused] \old(vm->errorState.allocationFailure) != 0 ==> work == \old(work);
  ensures [value] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \result.id == 0xffffffff;
}
contract nkxVmRegisterExternalType {
  requires [vm] vm != NULL;  
  noframe; nothrow; opt nomem;
  loop * { invariant [flag] (\entry(vm->errorState.allocationFailure) != 0 ==> vm->errorState.allocationFailure != 0) && thrown == \entry(thrown) && work >= \entry(work); }
  ensures [recovery] \old(vm)->catastrophicFailureJmpBuf == \old(vm->catastrophicFailureJmpBuf);
  ensures [flag] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \old(vm)->errorState.allocationFailure != 0;
  ensures [refused] \old(vm->errorState.allocationFailure) != 0 ==> work == \old(work);
  ensures [value] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \result.id == 0xffffffff;
}
contract nkxVmObjectGetExternalType {
  requires [vm] vm != NULL;  
  noframe; nothrow; opt nomem;
  loop * { invariant [flag] (\entry(vm->errorState.allocationFailure) != 0 ==> vm->errorState.allocationFailure != 0) && thrown == \entry(thrown) && work >= \entry(work); }
  ensures [recovery] \old(vm)->catastrophicFailureJmpBuf == \old(vm->catastrophicFailureJmpBuf);
  ensures [flag] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \old(vm)->errorState.allocationFailure != 0;
  ensures [refused] \old(vm->errorState.allocationFailure) != 0 ==> work == \old(work);
  ensures [value] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \result.id == 0xffffffff;
}
contract nkxVmSetupExternalFunction {
  requires [vm] vm != NULL;  requires [compiler] cs != NULL ==> cs->vm == vm;
  noframe; nothrow; opt nomem;
  loop * { invariant [flag] (\entry(vm->errorState.allocationFailure) != 0 ==> vm->errorState.allocationFailure != 0) && thrown == \entry(thrown) && work >= \entry(work); }
  ensures [recovery] \old(vm)->catastrophicFailureJmpBuf == \old(vm->catastrophicFailureJmpBuf);
  ensures [flag] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \old(vm)->errorState.allocationFailure != 0;
  ensures [refused] \old(vm->errorState.allocationFailure) != 0 ==> work == \old(work);
  ensures [value] \old(vm->errorState.allocationFailure) != 0 ==> \result.id == 0xffffffff;
}
contract nkxFunctionCallbackCheckArgCount {
  requires [vm] data->vm != NULL; requires [data] data != NULL; 
  noframe; nothrow; opt nomem;
  loop * { invariant [flag] (\entry(data->vm->errorState.allocationFailure) != 0 ==> data->vm->errorState.allocationFailure != 0) && thrown == \entry(thrown) && work >= \entry(work); }
  ensures [recovery] \old(data->vm)->catastrophicFailureJmpBuf == \old(data->vm->catastrophicFailureJmpBuf);
  ensures [flag] \old(data->vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \old(data->vm)->errorState.allocationFailure != 0;
  ensures [refused] \old(data->vm->errorState.allocationFailure) != 0 ==> work == \old(work);
  ensures [value] \old(data->vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \result == 0;
}
contract nkxFunctionCallbackCheckArguments {
  requires [vm] data->vm != NULL; requires [data] data != NULL; 
  noframe; nothrow; opt nomem;
  loop * { invariant [flag] (\entry(data->vm->errorState.allocationFailure) != 0 ==> data->vm->errorState.allocationFailure != 0) && thrown == \entry(thrown) && work >= \entry(work); }
  ensures [recovery] \old(data->vm)->catastrophicFailureJmpBuf == \old(data->vm->catastrophicFailureJmpBuf);
  ensures [flag] \old(data->vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \old(data->vm)->errorState.allocationFailure != 0;
  ensures [refused] \old(data->vm->errorState.allocationFailure) != 0 ==> work == \old(work);
  ensures [value] \old(data->vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \result == 0;
}
contract nkxFunctionCallbackGetExternalDataArgument {
  requires [vm] data->vm != NULL; requires [data] data != NULL; 
  noframe; nothrow; opt nomem;
  loop * { invariant [flag] (\entry(data->vm->errorState.allocationFailure) != 0 ==> data->vm->errorState.allocationFailure != 0) && thrown == \entry(thrown) && work >= \entry(work); }
  ensures [recovery] \old(data->vm)->catastrophicFailureJmpBuf == \old(data->vm->catastrophicFailureJmpBuf);
  ensures [flag] \old(data->vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \old(data->vm)->errorState.allocationFailure != 0;
  ensures [refused] \old(data->vm->errorState.allocationFailure) != 0 ==> work == \old(work);
  ensures [value] \old(data->vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \result == NULL;
}
// other recovery points
fnptr NKVMCreateParams.mallocReplacement(unsigned int size, void *userData) : void * { nothrow; noframe; }
extern contract nkiCompilerPushContext(struct NKCompilerState *cs) { requires [recovery] cs->vm != NULL && cs->vm->catastrophicFailureJmpBuf != NULL;
  writes *, -NKVM.catastrophicFailureJmpBuf, -NKCompilerState.vm, -$born, work, thrown; throws; noframe;
  ensures [flag] \old(cs->vm->errorState.allocationFailure) != 0 ==> cs->vm->errorState.allocationFailure != 0;
  ensures [count] work == \old(work) + 1 && thrown == \old(thrown);
  exsures [flag] cs->vm->errorState.allocationFailure == 1;
  exsures [count] work == \old(work) + 1 && thrown == \old(thrown) + 1; }
contract nkxVmCreateEx {
  requires [params] params != NULL;
  noframe; nothrow; opt nomem;
  ensures [recovery] \result != NULL ==> \result->catastrophicFailureJmpBuf == NULL;
  ensures [flag] \result != NULL && thrown != \old(thrown) ==> \result->errorState.allocationFailure != 0;
}
contract nkiCompilerCreate {
  requires [vm] vm != NULL;
  noframe; nothrow; opt nomem;
  ensures [recovery] vm->catastrophicFailureJmpBuf == \old(vm->catastrophicFailureJmpBuf);
  ensures [flag] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> vm->errorState.allocationFailure != 0;
  ensures [refused] \old(vm->errorState.allocationFailure) != 0 ==> work == \old(work);
  ensures [value] \old(vm->errorState.allocationFailure) != 0 || thrown != \old(thrown) ==> \result == NULL;
}

