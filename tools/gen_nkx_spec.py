# writes specs/nkx.spec: the recovery contract of every public function
import re
W = {}   # name -> failure value ('' for void)
def fn(names, fail, vm='vm', extra=''):
    for n in names.split(): W[n] = (fail, vm, extra)
fn('nkxVmExecuteProgram', '\\result == 0')
fn('nkxGetErrorCount', '\\result == 1')
fn('nkxVmIterate nkxVmGarbageCollect nkxVmCallFunction nkxForceCatastrophicFailure nkxVmObjectAcquireHandle nkxVmObjectReleaseHandle nkxDbgDumpState nkxAddError nkxAddErrorEx nkxVmShrink nkxValueSetInt nkxValueSetFloat nkxValueSetString nkxCreateObject nkxVmGarbageCollect_markValue nkxVmObjectClearEntry nkxValueSetFunction nkxFree nkxVmInitExecutionContext', '')
fn('nkxCompilerCreateCFunctionVariable nkxCompilerFinalize nkxCompilerPartiallyFinalize nkxCompilerClearReplErrorState', '', 'cs->vm')
fn('nkxCompilerCreateGlobalVariable', '\\result == NULL', 'cs->vm')
fn('nkxCompilerCompileScript nkxCompilerCompileScriptFile', '\\result == 0', 'cs->vm')
fn('nkxCompilerCreate nkxValueToString nkxVmObjectFindOrAddEntry nkxMalloc nkxMallocArray nkxRealloc nkxReallocArray nkxStrdup nkxGetExternalSubsystemDataOrError', '\\result == NULL')
fn('nkxVmFindGlobalVariable', 'cs == NULL || \\result == NULL')
fn('nkxValueToInt nkxVmObjectGetSize nkxVmObjectSetExternalType nkxVmObjectSetExternalData nkxVmSerialize nkxVmObjectGetExternalHandleCount nkxInitSubsystem', '\\result == 0')
fn('nkxSerializeData', '\\result == 0')
ONLY_THROWN = {'nkxVmSetupExternalFunction': 0, 'nkxGetExternalSubsystemDataOrError': 1, 'nkxSerializeData': 1}   # what an already failed machine returns is not fixed for these
fn('nkxValueToFloat', '\\result == \\f_zero()')
fn('nkxVmRegisterExternalFunction nkxVmGetOrCreateInternalFunctionForExternalFunction nkxVmRegisterExternalType nkxVmObjectGetExternalType', '\\result.id == 0xffffffff')
fn('nkxVmSetupExternalFunction', '\\result.id == 0xffffffff')
fn('nkxFunctionCallbackCheckArgCount nkxFunctionCallbackCheckArguments', '\\result == 0', 'data->vm')
fn('nkxFunctionCallbackGetExternalDataArgument', '\\result == NULL', 'data->vm')
PRE = {
       'nkxVmFindGlobalVariable': 'requires [machine] cs != NULL ==> cs->vm == vm;',
       'nkxVmGarbageCollect_markValue': 'requires [state] gcState != NULL && gcState->vm == vm;',
       'nkxVmSetupExternalFunction': 'requires [compiler] cs != NULL ==> cs->vm == vm;',
       'nkxVmIterate': ''}
# quiet: neither allocates nor fails, so it needs no recovery point
QUIET = '''nkxVmHasErrors nkxCompilerIsAtRootContext nkxCompilerGetInstructionWriteIndex nkxSetUserData nkxGetUserData nkxVmFindExternalType nkxVmGetExternalTypeName nkxVmObjectGetExternalData nkxGetErrorLength nkxGetErrorText
nkxSetRemainingInstructionLimit nkxGetRemainingInstructionLimit nkxSetMaxStackSize nkxGetMaxStackSize nkxSetMaxFieldsPerObject nkxGetMaxFieldsPerObject nkxSetMaxAllocatedMemory nkxGetMaxAllocatedMemory nkxSetGarbageCollectionInterval nkxGetGarbageCollectionInterval
nkxSetGarbageCollectionNewObjectInterval nkxGetGarbageCollectionNewObjectInterval nkxGetExternalSubsystemData nkxValueSetNil nkxSerializerGetWriteMode nkxVmHasAllocationFailure nkxVmGetCurrentMemoryUsage nkxVmGetPeakMemoryUsage'''.split()
out = ['''// nkx.c: the recovery point, the failure flag and the failure value of every public operation.
// (written by tools/gen_nkx_spec.py)
ghost integer work;      // calls made into the machine so far
ghost integer thrown;    // how many of them were abandoned for lack of memory
// Assumed of every internal function: it may change anything except the recovery point (only the functions verified here
// assign it, see the writers check), and it may be abandoned, in which case the failure flag is set.
default contract nki {
  requires [recovery] vm != NULL && vm->catastrophicFailureJmpBuf != NULL;
  writes *, -NKVM.catastrophicFailureJmpBuf, -NKVMFunctionCallbackData.vm, -NKCompilerState.vm, -NKDynString.vm, -$born, work, thrown;
  throws; noframe;
  ensures [flag] \\old(vm->errorState.allocationFailure) != 0 ==> vm->errorState.allocationFailure != 0;
  ensures [count] work == \\old(work) + 1 && thrown == \\old(thrown);
  exsures [flag] vm->errorState.allocationFailure == 1;
  exsures [count] work == \\old(work) + 1 && thrown == \\old(thrown) + 1;
}
extern contract nkiVmGarbageCollect_markValue(struct NKVMGCState *gcState, struct NKValue *v) {
  requires [recovery] gcState->vm != NULL && gcState->vm->catastrophicFailureJmpBuf != NULL;
  writes *, -NKVM.catastrophicFailureJmpBuf, -NKVMGCState.vm, -$born, work, thrown;
  throws; noframe;
  ensures [flag] \\old(gcState->vm->errorState.allocationFailure) != 0 ==> gcState->vm->errorState.allocationFailure != 0;
  ensures [count] work == \\old(work) + 1 && thrown == \\old(thrown);
  exsures [flag] gcState->vm->errorState.allocationFailure == 1;
  exsures [count] work == \\old(work) + 1 && thrown == \\old(thrown) + 1;
}
extern contract nkiDynStrCreate(struct NKVM *vm, const char *str) : struct NKDynString * {
  requires [recovery] vm != NULL && vm->catastrophicFailureJmpBuf != NULL;
  writes *, -NKVM.catastrophicFailureJmpBuf, -NKVMFunctionCallbackData.vm, -NKCompilerState.vm, -NKDynString.vm, -$born, work, thrown;
  throws; noframe;
  ensures [owner] \\result->vm == vm;
  ensures [flag] \\old(vm->errorState.allocationFailure) != 0 ==> vm->errorState.allocationFailure != 0;
  ensures [count] work == \\old(work) + 1 && thrown == \\old(thrown);
  exsures [flag] vm->errorState.allocationFailure == 1;
  exsures [count] work == \\old(work) + 1 && thrown == \\old(thrown) + 1;
}
// libc
extern contract fopen(const char *n, const char *m) : void * { nothrow; assigns \\nothing; }
extern contract fclose(void *f) : int { nothrow; assigns \\nothing; }
extern contract fseek(void *f, long o, int w) : int { nothrow; assigns \\nothing; }
extern contract ftell(void *f) : long { nothrow; assigns \\nothing; }
extern contract fread(void *p, unsigned long s, unsigned long n, void *f) : unsigned long { nothrow; noframe; writes cell:i8; }
extern contract malloc(unsigned long n) : void * { nothrow; assigns \\nothing; }
extern contract free(void *p) { nothrow; assigns \\nothing; }
fnptr serializationState.writer(void *data, nkuint32_t size, void *u, nkbool w) : nkbool { nothrow; noframe; writes cell:i8; }
// may be called without a recovery point; each is verified not to allocate
extern contract nkiVmHasErrors(struct NKVM *vm) : nkbool { nothrow; assigns \\nothing; ensures [errors] \\result == (vm->errorState.firstError != NULL || vm->errorState.allocationFailure != 0 ? 1 : 0); }
extern contract nkiVmFindGlobalVariable(struct NKVM *vm, const char *name) : struct NKValue * { nothrow; assigns \\nothing; }
extern contract nkiVmFindExternalType(struct NKVM *vm, const char *name) : NKVMExternalDataTypeID { nothrow; assigns \\nothing; }
extern contract nkiVmGetExternalTypeName(struct NKVM *vm, NKVMExternalDataTypeID id) : const char * { nothrow; assigns \\nothing; }
extern contract nkiVmObjectGetExternalData(struct NKVM *vm, struct NKValue *object) : void * { nothrow; assigns \\nothing; }
extern contract nkiGetExternalSubsystemData(struct NKVM *vm, const char *name) : void * { nothrow; assigns \\nothing; }
extern contract nkiGetErrorLength(struct NKVM *vm) : nkuint32_t { nothrow; assigns \\nothing; }
extern contract nkiGetErrorText(struct NKVM *vm, char *buffer) { nothrow; noframe; writes cell:i8; }
extern contract nkiCompilerIsAtRootContext(struct NKCompilerState *cs) : nkbool { nothrow; assigns \\nothing; }
extern contract nkiErrorStateSetAllocationFailFlag(struct NKVM *vm) { nothrow; writes NKErrorState.allocationFailure; assigns vm->errorState.allocationFailure; ensures [flag] vm->errorState.allocationFailure == 1; }
extern contract nkiValueTypeGetName(unsigned int type) : const char * { nothrow; assigns \\nothing; }
''']
for n, (fail, vm, extra) in W.items():
    pre = ''
    if vm != 'vm': pre = 'requires [%s] %s != NULL;' % (vm.split('->')[0], vm.split('->')[0])
    out.append('contract %s {' % n)
    out.append('  requires [vm] %s != NULL; %s %s' % (vm, pre, PRE.get(n, '')))
    out.append('  noframe; nothrow; opt nomem;')
    out.append('  loop * { invariant [flag] (\\entry(%s->errorState.allocationFailure) != 0 ==> %s->errorState.allocationFailure != 0) && thrown == \\entry(thrown) && work >= \\entry(work); }' % (vm, vm))
    o = '\\old(%s)' % vm
    if n == 'nkxForceCatastrophicFailure':
        out.append('  ensures [flag] %s->errorState.allocationFailure != 0;' % o)
    out.append('  ensures [recovery] %s->catastrophicFailureJmpBuf == \\old(%s->catastrophicFailureJmpBuf);' % (o, vm))
    out.append('  ensures [flag] \\old(%s->errorState.allocationFailure) != 0 || thrown != \\old(thrown) ==> %s->errorState.allocationFailure != 0;' % (vm, o))
    if n not in ('nkxVmFindGlobalVariable',):
        out.append('  ensures [refused] \\old(%s->errorState.allocationFailure) != 0 ==> work == \\old(work);' % vm)
    if fail:
        cond = {None: '\\old(%s->errorState.allocationFailure) != 0 || thrown != \\old(thrown)' % vm, 0: '\\old(%s->errorState.allocationFailure) != 0' % vm, 1: 'thrown != \\old(thrown)'}[ONLY_THROWN.get(n)]
        out.append('  ensures [value] %s ==> %s;' % (cond, fail if '||' not in fail else '(' + fail + ')'))
    out.append('}')
out.append('''// other recovery points
fnptr NKVMCreateParams.mallocReplacement(unsigned int size, void *userData) : void * { nothrow; noframe; }
extern contract nkiCompilerPushContext(struct NKCompilerState *cs) { requires [recovery] cs->vm != NULL && cs->vm->catastrophicFailureJmpBuf != NULL;
  writes *, -NKVM.catastrophicFailureJmpBuf, -NKCompilerState.vm, -$born, work, thrown; throws; noframe;
  ensures [flag] \\old(cs->vm->errorState.allocationFailure) != 0 ==> cs->vm->errorState.allocationFailure != 0;
  ensures [count] work == \\old(work) + 1 && thrown == \\old(thrown);
  exsures [flag] cs->vm->errorState.allocationFailure == 1;
  exsures [count] work == \\old(work) + 1 && thrown == \\old(thrown) + 1; }
contract nkxVmCreateEx {
  requires [params] params != NULL;
  noframe; nothrow; opt nomem;
  ensures [recovery] \\result != NULL ==> \\result->catastrophicFailureJmpBuf == NULL;
  ensures [flag] \\result != NULL && thrown != \\old(thrown) ==> \\result->errorState.allocationFailure != 0;
}
contract nkiCompilerCreate {
  requires [vm] vm != NULL;
  noframe; nothrow; opt nomem;
  ensures [recovery] vm->catastrophicFailureJmpBuf == \\old(vm->catastrophicFailureJmpBuf);
  ensures [flag] \\old(vm->errorState.allocationFailure) != 0 || thrown != \\old(thrown) ==> vm->errorState.allocationFailure != 0;
  ensures [refused] \\old(vm->errorState.allocationFailure) != 0 ==> work == \\old(work);
  ensures [value] \\old(vm->errorState.allocationFailure) != 0 || thrown != \\old(thrown) ==> \\result == NULL;
}
''')
open('/verif/specs/nkx.spec', 'w').write('\n'.join(out) + '\n')
