// The parts of a machine its instructions reach: code, global space, function tables, execution contexts and their stacks.
ghost field struct NKVMExecutionContext kn : struct NKVM *;   // the machine a live context belongs to
pred atable(ptr p, integer n, integer size) = n == 0 || \valid(p, n * size);
pred ext_ok(struct NKVMExternalFunction *f) = (f->name == NULL || \isblock(f->name) && cstr(f->name)) && (f->argumentCount == 0xffffffff || f->argumentCount == 0 ||
    \isblock(f->argTypes) && \bsize(f->argTypes) >= 4 * f->argumentCount && \isblock(f->argExternalTypes) && \bsize(f->argExternalTypes) >= 4 * f->argumentCount);
pred code_ok(struct NKVM *vm) = \isblock(vm->instructions) && \bsize(vm->instructions) >= \sizeof(struct NKInstruction) * (vm->instructionAddressMask + 1);
pred static_ok(struct NKVM *vm) = \isblock(vm->staticSpace) && \bsize(vm->staticSpace) >= 8 * (vm->staticAddressMask + 1);
pred funcs_ok(struct NKVM *vm) = vm->functionCount == 0 || \isblock(vm->functionTable) && \bsize(vm->functionTable) >= \sizeof(struct NKVMFunction) * vm->functionCount;
pred exts_ok(struct NKVM *vm) = (vm->externalFunctionCount == 0 || \isblock(vm->externalFunctionTable) && \bsize(vm->externalFunctionTable) >= \sizeof(struct NKVMExternalFunction) * vm->externalFunctionCount) &&
  (forall integer i; {vm->externalFunctionTable[i].argTypes} {vm->externalFunctionTable[i].name} {vm->externalFunctionTable[i].argumentCount} 0 <= i && i < vm->externalFunctionCount ==> ext_ok(&vm->externalFunctionTable[i]));
pred ctx_in(struct NKVM *vm, struct NKVMExecutionContext *c) = stack_ok(&c->stack) && (c == &vm->rootExecutionContext || \isblock(c) && \bsize(c) == \sizeof(struct NKVMExecutionContext)) &&
   (c->parent == NULL || c->parent->kn == vm) && c->stack.values != vm->staticSpace && c->stack.values != c;
pred ctxs(struct NKVM *vm) = vm->currentExecutionContext->kn == vm && (&vm->rootExecutionContext)->kn == vm &&
  (forall struct NKVMExecutionContext *c; {c->kn} c->kn == vm ==> ctx_in(vm, c)) &&
  (forall struct NKVMExecutionContext *c, struct NKVMExecutionContext *d; {c->kn, d->kn} c->kn == vm && d->kn == vm && c != d ==> c->stack.values != d->stack.values);
pred machine(struct NKVM *vm) = vmok(vm) && vm->catastrophicFailureJmpBuf != NULL && code_ok(vm) && static_ok(vm) && funcs_ok(vm) && exts_ok(vm) && ctxs(vm);
// ---- generated: what the instructions rely on of the object table (functional contracts: P04 to P08)
pred entp(struct NKValue *v) = v == NULL || \valid(v) && \rtype(v, struct NKVMObjectElement);
extern contract nkiVmObjectTableGetEntryById(struct NKVMTable *table, unsigned int index) : struct NKVMObject * {
  requires \valid(table);
  nothrow; assigns \nothing; writes \nothing;
  ensures [object] \result == NULL || \valid(\result) && \rtype(\result, struct NKVMObject);
}
extern contract nkiVmObjectFindOrAddEntry(struct NKVM *vm, struct NKVMObject *ob, struct NKValue *key, unsigned char noAdd) : struct NKValue * {
  requires \valid(vm) && \valid(ob) && \valid(key);
  noframe; writes *, -NKVM.instructions, -NKVM.instructionAddressMask, -NKVM.staticSpace, -NKVM.staticAddressMask, -NKVM.functionCount, -NKVM.functionTable, -NKVM.externalFunctionCount, -NKVM.externalFunctionTable, -NKVM.currentExecutionContext, -NKVM.instructionsLeftBeforeTimeout, -NKGarbageCollectionInfo.gcCountdown, -NKGarbageCollectionInfo.gcInterval, -NKVMStack.values, -NKVMStack.size, -NKVMStack.capacity, -NKVMStack.indexMask, -NKVMExecutionContext.parent, -G.NKVMExecutionContext.kn, -NKVMExternalFunction.name, -NKVMExternalFunction.argumentCount, -NKVMExternalFunction.argTypes, -NKVMExternalFunction.argExternalTypes, -cell:i8, -NKVM.catastrophicFailureJmpBuf;
  throws;
  ensures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
  ensures [err] \old(vm->errorState.firstError) != NULL ==> vm->errorState.firstError != NULL;
  exsures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
  exsures [flag] vm->errorState.allocationFailure == 1;
  ensures [entry] entp(\result);
}
extern contract nkiVmObjectFindOrAddEntry_public(struct NKVM *vm, struct NKValue *objectId, struct NKValue *key, unsigned char noAdd) : struct NKValue * {
  requires \valid(vm) && \valid(objectId) && \valid(key);
  noframe; writes *, -NKVM.instructions, -NKVM.instructionAddressMask, -NKVM.staticSpace, -NKVM.staticAddressMask, -NKVM.functionCount, -NKVM.functionTable, -NKVM.externalFunctionCount, -NKVM.externalFunctionTable, -NKVM.currentExecutionContext, -NKVM.instructionsLeftBeforeTimeout, -NKGarbageCollectionInfo.gcCountdown, -NKGarbageCollectionInfo.gcInterval, -NKVMStack.values, -NKVMStack.size, -NKVMStack.capacity, -NKVMStack.indexMask, -NKVMExecutionContext.parent, -G.NKVMExecutionContext.kn, -NKVMExternalFunction.name, -NKVMExternalFunction.argumentCount, -NKVMExternalFunction.argTypes, -NKVMExternalFunction.argExternalTypes, -cell:i8, -NKVM.catastrophicFailureJmpBuf;
  throws;
  ensures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
  ensures [err] \old(vm->errorState.firstError) != NULL ==> vm->errorState.firstError != NULL;
  exsures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
  exsures [flag] vm->errorState.allocationFailure == 1;
  ensures [entry] entp(\result);
}
extern contract nkiVmObjectClearEntry(struct NKVM *vm, struct NKVMObject *ob, struct NKValue *key) {
  requires \valid(vm) && \valid(ob) && \valid(key);
  noframe; writes *, -NKVM.instructions, -NKVM.instructionAddressMask, -NKVM.staticSpace, -NKVM.staticAddressMask, -NKVM.functionCount, -NKVM.functionTable, -NKVM.externalFunctionCount, -NKVM.externalFunctionTable, -NKVM.currentExecutionContext, -NKVM.instructionsLeftBeforeTimeout, -NKGarbageCollectionInfo.gcCountdown, -NKGarbageCollectionInfo.gcInterval, -NKVMStack.values, -NKVMStack.size, -NKVMStack.capacity, -NKVMStack.indexMask, -NKVMExecutionContext.parent, -G.NKVMExecutionContext.kn, -NKVMExternalFunction.name, -NKVMExternalFunction.argumentCount, -NKVMExternalFunction.argTypes, -NKVMExternalFunction.argExternalTypes, -cell:i8, -NKVM.catastrophicFailureJmpBuf;
  throws;
  ensures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) && !\rtype(p, struct NKVMObjectElement) ==> \alive(p);
  ensures [err] \old(vm->errorState.firstError) != NULL ==> vm->errorState.firstError != NULL;
  exsures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) && !\rtype(p, struct NKVMObjectElement) ==> \alive(p);
  exsures [flag] vm->errorState.allocationFailure == 1;
}
extern contract nkiVmObjectTableCreateObject(struct NKVM *vm) : unsigned int {
  requires \valid(vm);
  noframe; writes *, -NKVM.instructions, -NKVM.instructionAddressMask, -NKVM.staticSpace, -NKVM.staticAddressMask, -NKVM.functionCount, -NKVM.functionTable, -NKVM.externalFunctionCount, -NKVM.externalFunctionTable, -NKVM.currentExecutionContext, -NKVM.instructionsLeftBeforeTimeout, -NKGarbageCollectionInfo.gcCountdown, -NKGarbageCollectionInfo.gcInterval, -NKVMStack.values, -NKVMStack.size, -NKVMStack.capacity, -NKVMStack.indexMask, -NKVMExecutionContext.parent, -G.NKVMExecutionContext.kn, -NKVMExternalFunction.name, -NKVMExternalFunction.argumentCount, -NKVMExternalFunction.argTypes, -NKVMExternalFunction.argExternalTypes, -cell:i8, -NKVM.catastrophicFailureJmpBuf;
  throws;
  ensures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
  ensures [err] \old(vm->errorState.firstError) != NULL ==> vm->errorState.firstError != NULL;
  exsures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
  exsures [flag] vm->errorState.allocationFailure == 1;
}
extern contract nkiVmObjectGetSize(struct NKVM *vm, struct NKValue *objectId) : unsigned int {
  requires \valid(vm) && \valid(objectId);
  noframe; writes *, -NKVM.instructions, -NKVM.instructionAddressMask, -NKVM.staticSpace, -NKVM.staticAddressMask, -NKVM.functionCount, -NKVM.functionTable, -NKVM.externalFunctionCount, -NKVM.externalFunctionTable, -NKVM.currentExecutionContext, -NKVM.instructionsLeftBeforeTimeout, -NKGarbageCollectionInfo.gcCountdown, -NKGarbageCollectionInfo.gcInterval, -NKVMStack.values, -NKVMStack.size, -NKVMStack.capacity, -NKVMStack.indexMask, -NKVMExecutionContext.parent, -G.NKVMExecutionContext.kn, -NKVMExternalFunction.name, -NKVMExternalFunction.argumentCount, -NKVMExternalFunction.argTypes, -NKVMExternalFunction.argExternalTypes, -cell:i8, -NKVM.catastrophicFailureJmpBuf;
  throws;
  ensures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
  ensures [err] \old(vm->errorState.firstError) != NULL ==> vm->errorState.firstError != NULL;
  exsures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
  exsures [flag] vm->errorState.allocationFailure == 1;
}
extern contract nkiVmObjectGetExternalType(struct NKVM *vm, struct NKValue *object) : NKVMExternalDataTypeID {
  requires \valid(vm) && \valid(object);
  noframe; writes *, -NKVM.instructions, -NKVM.instructionAddressMask, -NKVM.staticSpace, -NKVM.staticAddressMask, -NKVM.functionCount, -NKVM.functionTable, -NKVM.externalFunctionCount, -NKVM.externalFunctionTable, -NKVM.currentExecutionContext, -NKVM.instructionsLeftBeforeTimeout, -NKGarbageCollectionInfo.gcCountdown, -NKGarbageCollectionInfo.gcInterval, -NKVMStack.values, -NKVMStack.size, -NKVMStack.capacity, -NKVMStack.indexMask, -NKVMExecutionContext.parent, -G.NKVMExecutionContext.kn, -NKVMExternalFunction.name, -NKVMExternalFunction.argumentCount, -NKVMExternalFunction.argTypes, -NKVMExternalFunction.argExternalTypes, -cell:i8, -NKVM.catastrophicFailureJmpBuf;
  throws;
  ensures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
  ensures [err] \old(vm->errorState.firstError) != NULL ==> vm->errorState.firstError != NULL;
  exsures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
  exsures [flag] vm->errorState.allocationFailure == 1;
}
extern contract nkiVmObjectSetExternalType(struct NKVM *vm, struct NKValue *object, NKVMExternalDataTypeID externalType) : unsigned char {
  requires \valid(vm) && \valid(object);
  noframe; writes *, -NKVM.instructions, -NKVM.instructionAddressMask, -NKVM.staticSpace, -NKVM.staticAddressMask, -NKVM.functionCount, -NKVM.functionTable, -NKVM.externalFunctionCount, -NKVM.externalFunctionTable, -NKVM.currentExecutionContext, -NKVM.instructionsLeftBeforeTimeout, -NKGarbageCollectionInfo.gcCountdown, -NKGarbageCollectionInfo.gcInterval, -NKVMStack.values, -NKVMStack.size, -NKVMStack.capacity, -NKVMStack.indexMask, -NKVMExecutionContext.parent, -G.NKVMExecutionContext.kn, -NKVMExternalFunction.name, -NKVMExternalFunction.argumentCount, -NKVMExternalFunction.argTypes, -NKVMExternalFunction.argExternalTypes, -cell:i8, -NKVM.catastrophicFailureJmpBuf;
  throws;
  ensures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
  ensures [err] \old(vm->errorState.firstError) != NULL ==> vm->errorState.firstError != NULL;
  exsures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
  exsures [flag] vm->errorState.allocationFailure == 1;
}
extern contract nkiVmObjectSetExternalData(struct NKVM *vm, struct NKValue *object, void *data) : unsigned char {
  requires \valid(vm) && \valid(object);
  noframe; writes *, -NKVM.instructions, -NKVM.instructionAddressMask, -NKVM.staticSpace, -NKVM.staticAddressMask, -NKVM.functionCount, -NKVM.functionTable, -NKVM.externalFunctionCount, -NKVM.externalFunctionTable, -NKVM.currentExecutionContext, -NKVM.instructionsLeftBeforeTimeout, -NKGarbageCollectionInfo.gcCountdown, -NKGarbageCollectionInfo.gcInterval, -NKVMStack.values, -NKVMStack.size, -NKVMStack.capacity, -NKVMStack.indexMask, -NKVMExecutionContext.parent, -G.NKVMExecutionContext.kn, -NKVMExternalFunction.name, -NKVMExternalFunction.argumentCount, -NKVMExternalFunction.argTypes, -NKVMExternalFunction.argExternalTypes, -cell:i8, -NKVM.catastrophicFailureJmpBuf;
  throws;
  ensures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
  ensures [err] \old(vm->errorState.firstError) != NULL ==> vm->errorState.firstError != NULL;
  exsures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
  exsures [flag] vm->errorState.allocationFailure == 1;
}
extern contract nkiVmObjectClearExternalDataAndType(struct NKVM *vm, struct NKValue *object) : unsigned char {
  requires \valid(vm) && \valid(object);
  noframe; writes *, -NKVM.instructions, -NKVM.instructionAddressMask, -NKVM.staticSpace, -NKVM.staticAddressMask, -NKVM.functionCount, -NKVM.functionTable, -NKVM.externalFunctionCount, -NKVM.externalFunctionTable, -NKVM.currentExecutionContext, -NKVM.instructionsLeftBeforeTimeout, -NKGarbageCollectionInfo.gcCountdown, -NKGarbageCollectionInfo.gcInterval, -NKVMStack.values, -NKVMStack.size, -NKVMStack.capacity, -NKVMStack.indexMask, -NKVMExecutionContext.parent, -G.NKVMExecutionContext.kn, -NKVMExternalFunction.name, -NKVMExternalFunction.argumentCount, -NKVMExternalFunction.argTypes, -NKVMExternalFunction.argExternalTypes, -cell:i8, -NKVM.catastrophicFailureJmpBuf;
  throws;
  ensures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
  ensures [err] \old(vm->errorState.firstError) != NULL ==> vm->errorState.firstError != NULL;
  exsures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
  exsures [flag] vm->errorState.allocationFailure == 1;
}
extern contract nkiVmObjectGetExternalData(struct NKVM *vm, struct NKValue *object) : void * {
  requires \valid(vm) && \valid(object);
  noframe; writes *, -NKVM.instructions, -NKVM.instructionAddressMask, -NKVM.staticSpace, -NKVM.staticAddressMask, -NKVM.functionCount, -NKVM.functionTable, -NKVM.externalFunctionCount, -NKVM.externalFunctionTable, -NKVM.currentExecutionContext, -NKVM.instructionsLeftBeforeTimeout, -NKGarbageCollectionInfo.gcCountdown, -NKGarbageCollectionInfo.gcInterval, -NKVMStack.values, -NKVMStack.size, -NKVMStack.capacity, -NKVMStack.indexMask, -NKVMExecutionContext.parent, -G.NKVMExecutionContext.kn, -NKVMExternalFunction.name, -NKVMExternalFunction.argumentCount, -NKVMExternalFunction.argTypes, -NKVMExternalFunction.argExternalTypes, -cell:i8, -NKVM.catastrophicFailureJmpBuf;
  throws;
  ensures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
  ensures [err] \old(vm->errorState.firstError) != NULL ==> vm->errorState.firstError != NULL;
  exsures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
  exsures [flag] vm->errorState.allocationFailure == 1;
  ensures [data] \result == NULL || \as(struct NKVMExecutionContext *, \result)->kn == vm;
}
extern contract nkxVmObjectGetExternalData(struct NKVM *vm, struct NKValue *object) : void * {
  requires \valid(vm) && \valid(object);
  noframe; writes *, -NKVM.instructions, -NKVM.instructionAddressMask, -NKVM.staticSpace, -NKVM.staticAddressMask, -NKVM.functionCount, -NKVM.functionTable, -NKVM.externalFunctionCount, -NKVM.externalFunctionTable, -NKVM.currentExecutionContext, -NKVM.instructionsLeftBeforeTimeout, -NKGarbageCollectionInfo.gcCountdown, -NKGarbageCollectionInfo.gcInterval, -NKVMStack.values, -NKVMStack.size, -NKVMStack.capacity, -NKVMStack.indexMask, -NKVMExecutionContext.parent, -G.NKVMExecutionContext.kn, -NKVMExternalFunction.name, -NKVMExternalFunction.argumentCount, -NKVMExternalFunction.argTypes, -NKVMExternalFunction.argExternalTypes, -cell:i8, -NKVM.catastrophicFailureJmpBuf;
  throws;
  ensures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
  ensures [err] \old(vm->errorState.firstError) != NULL ==> vm->errorState.firstError != NULL;
  exsures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
  exsures [flag] vm->errorState.allocationFailure == 1;
  ensures [data] \result == NULL || \as(struct NKVMExecutionContext *, \result)->kn == vm;
}
extern contract nkxValueSetString(struct NKVM *vm, struct NKValue *value, const char *str) {
  requires \valid(vm) && \valid(value) && cstr(str);
  noframe; writes *, -NKVM.instructions, -NKVM.instructionAddressMask, -NKVM.staticSpace, -NKVM.staticAddressMask, -NKVM.functionCount, -NKVM.functionTable, -NKVM.externalFunctionCount, -NKVM.externalFunctionTable, -NKVM.currentExecutionContext, -NKVM.instructionsLeftBeforeTimeout, -NKGarbageCollectionInfo.gcCountdown, -NKGarbageCollectionInfo.gcInterval, -NKVMStack.values, -NKVMStack.size, -NKVMStack.capacity, -NKVMStack.indexMask, -NKVMExecutionContext.parent, -G.NKVMExecutionContext.kn, -NKVMExternalFunction.name, -NKVMExternalFunction.argumentCount, -NKVMExternalFunction.argTypes, -NKVMExternalFunction.argExternalTypes, -cell:i8, -NKVM.catastrophicFailureJmpBuf;
  throws;
  ensures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
  ensures [err] \old(vm->errorState.firstError) != NULL ==> vm->errorState.firstError != NULL;
  exsures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
  exsures [flag] vm->errorState.allocationFailure == 1;
}
