// Calls, coroutines and the instruction loop keep the machine well formed as well.
pred optable() = forall integer i; {nkiOpcodeTable[i]} 0 <= i && i < 64 ==> nkiOpcodeTable[i] != NULL;
extern contract nkiErrorStateSetAllocationFailFlag(struct NKVM *vm) { nothrow; writes NKErrorState.allocationFailure; assigns vm->errorState.allocationFailure; ensures [flag] vm->errorState.allocationFailure == 1; }
pred priv(struct NKVM *vm, struct NKValue *p) = \isblock(p) && p != vm->staticSpace && (forall struct NKVMExecutionContext *c; {c->kn} c->kn == vm ==> c->stack.values != p);
fnptr type.NKVMFunctionCallback(struct NKVMFunctionCallbackData *data) {
  requires [machine] machine(data->vm);
  requires [arguments] data->argumentCount == 0 || \isblock(data->arguments) && \bsize(data->arguments) >= 8 * data->argumentCount;
  noframe; writes *, -NKVM.catastrophicFailureJmpBuf;
  throws;
  ensures [machine] data->vm == \old(data->vm) && machine(data->vm);
  ensures [arguments] data->arguments == \old(data->arguments);
  ensures [private] forall struct NKValue *p; {\alive(p)} \old(priv(data->vm, p)) ==> priv(\old(data->vm), p) && \bsize(p) == \old(\bsize(p));
  exsures [machine] machine(\old(data->vm));
  exsures [private] forall struct NKValue *p; {\alive(p)} \old(priv(data->vm, p)) ==> priv(\old(data->vm), p) && \bsize(p) == \old(\bsize(p));
}
contract nkiOpcode_call {
  opt literals; opt splitthrow;
  requires machine(vm);
  noframe;
  after nkiDynStrCreate [chain] machine(vm);
  after nkiDynStrAppend [chain] machine(vm);
  after nkiDynStrAppendUint32 [chain] machine(vm);
  after nkiDynStrDelete [chain] machine(vm);
  after nkiAddError [chain] machine(vm);
  after nkiDynStrAppend [chainq] forall struct NKValue *p; {\alive(p)} \old(priv(vm, p)) ==> priv(vm, p) && \bsize(p) == \old(\bsize(p));
  after nkiDynStrAppendUint32 [chainq] forall struct NKValue *p; {\alive(p)} \old(priv(vm, p)) ==> priv(vm, p) && \bsize(p) == \old(\bsize(p));
  after nkiDynStrDelete [chainp] forall struct NKValue *p; {\alive(p)} \old(priv(vm, p)) ==> priv(vm, p) && \bsize(p) == \old(\bsize(p));
  after nkiFree [freed] machine(vm);
  after nkiFree [freedp] forall struct NKValue *p; {\alive(p)} \old(priv(vm, p)) ==> priv(vm, p) && \bsize(p) == \old(\bsize(p));
  after nkiVmStackPopN [popped] machine(vm);
  after type.NKVMFunctionCallback [kept] data.arguments == NULL || priv(vm, data.arguments);
  loop 0 {
    invariant [machine] machine(vm);
    invariant [callee] functionIdValue == NULL || \valid(functionIdValue);
    invariant [private] forall struct NKValue *p; {\alive(p)} \old(priv(vm, p)) ==> priv(vm, p) && \bsize(p) == \old(\bsize(p));
  }
  loop 1 {
    invariant [i] i <= argumentCount;
    invariant [mask] stackMask == stack->indexMask && stackValues == stack->values;
    assigns stackValues[*];
  }
  loop 2 {
    invariant [i] i <= argumentCount;
    assigns data.arguments[*];
  }
  loop 3 {
    invariant [i] i <= argumentCount;
    invariant [alive] forall ptr p; {\alive(p)} \entry(\alive(p)) ==> \alive(p);
    assigns \nothing;
  }
  ensures [machine] machine(vm);
  exsures [machine] machine(vm);
  ensures [private] forall struct NKValue *p; {\alive(p)} \old(priv(vm, p)) ==> priv(vm, p) && \bsize(p) == \old(\bsize(p));
}
extern contract nkiMemcpy(void *dst, const void *src, unsigned int len) {
  requires [to] len == 0 || \valid((char *)dst, len);
  requires [from] len == 0 || \valid((char *)src, len);
  nothrow; assigns ((struct NKValue *)dst)[*];
}
extern contract nkiVmGarbageCollect(struct NKVM *vm) {
  requires [machine] machine(vm);
  noframe; writes *, -NKVM.catastrophicFailureJmpBuf;
  throws;
  ensures [machine] machine(vm);
  ensures [table] optable();
  exsures [machine] machine(vm);
}
contract nkiVmInitExecutionContext {
  requires machine(vm) && \isblock(context) && \bsize(context) == \sizeof(struct NKVMExecutionContext) && context->kn != vm && context != vm->staticSpace;
  noframe;
  ghost_exit { context->kn := vm; }
  ensures [machine] machine(vm);
  ensures [new] context->kn == vm && context->parent == NULL && context->stack.size == 0;
  ensures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
  ensures [known] forall struct NKVMExecutionContext *c; {c->kn} c != context ==> c->kn == \old(c->kn);
  ensures [others] forall struct NKVMExecutionContext *c; {c->kn} \old(c->kn) == vm ==> c->stack.values == \old(c->stack.values) && c->stack.size == \old(c->stack.size);
  ensures [fresh] \fresh(context->stack.values);
  ensures [block] \isblock(context);
  ensures [parent] forall struct NKVMExecutionContext *c; {c->kn} c->kn == vm ==> c->parent != context;
  exsures [machine] machine(vm);
}
contract nkiVmDeinitExecutionContext {
  requires machine(vm) && context->kn == vm && context != vm->currentExecutionContext && context != &vm->rootExecutionContext && (forall struct NKVMExecutionContext *c; {c->kn} c->kn == vm ==> c->parent != context);
  noframe; nothrow;
  ghost_exit { context->kn := NULL; }
  ensures [block] \isblock(context) && context->kn == NULL;
  ensures [machine] machine(vm);
}
contract nkiOpcode_coroutineCreate {
  opt literals; opt splitthrow;
  requires machine(vm);
  noframe;
  after nkiVmStackPushInt [kept] arguments == NULL || priv(vm, arguments);
  after nkiVmDeinitExecutionContext [gone] \isblock(executionContext) && (forall struct NKVMExecutionContext *c; {c->kn} c->kn == vm ==> c != executionContext && \as(ptr, c->stack.values) != \as(ptr, executionContext));
  after nkiFree [freed] machine(vm);
  after nkiOpcode_call [machine] machine(vm);
  after nkiOpcode_call [kept] arguments == NULL || priv(vm, arguments);
  loop 0 {
    invariant [machine] machine(vm);
    invariant [i] i <= argCount;
    invariant [arguments] arguments == NULL && argCount == 0 || priv(vm, arguments) && \bsize(arguments) >= 8 * argCount;
  }
  ensures [machine] machine(vm);
  exsures [machine] machine(vm);
}
fnptr type.NKVMOpcodeCall(struct NKVM *vm) {
  requires [machine] machine(vm);
  noframe; writes *, -NKVM.catastrophicFailureJmpBuf;
  throws;
  ensures [machine] machine(vm);
  ensures [table] optable();
  exsures [machine] machine(vm);
}
extern contract nkiVmHasErrors(struct NKVM *vm) : unsigned char { requires \valid(vm); nothrow; assigns \nothing; writes \nothing; }
contract nkiVmIterate {
  requires machine(vm) && optable();
  noframe;
  ensures [table] optable();
  ensures [machine] machine(vm);
  exsures [machine] machine(vm);
}
contract nkiVmExecuteProgram {
  requires machine(vm) && optable();
  noframe;
  loop 0 { invariant [machine] machine(vm) && optable(); }
  ensures [table] optable();
  ensures [machine] machine(vm);
  exsures [machine] machine(vm);
}
