#include "common.h"
#include "nkopcode.h"
// P12: random instruction words, operands, global space and stack contents on a machine with native functions,
// objects and coroutines; every access is watched by the address and undefined-behaviour sanitizers, natives check
// that their arguments are what the declaration says, and the stack stays well formed.
typedef struct NKValue Val;
static const enum NKValueType decl1[] = {NK_VALUETYPE_INT, NK_VALUETYPE_NIL};
static volatile uint32_t sink_; static uint32_t calls_[3];
static void touch(struct NKVMFunctionCallbackData *d) { nkuint32_t i; for(i = 0; i < d->argumentCount && i < 100000; i++) sink_ += (uint32_t)d->arguments[i].type + (uint32_t)d->arguments[i].intData; }
static void n_any(struct NKVMFunctionCallbackData *d) { touch(d); calls_[0]++; if(d->argumentCount) d->returnValue = d->arguments[rndn(d->argumentCount)]; }
static void n_two(struct NKVMFunctionCallbackData *d) {
    touch(d); calls_[1]++;
    CHECK(d->argumentCount == 2, "native of two arguments ran with %u", d->argumentCount);
    CHECK(d->arguments[0].type == decl1[0], "native ran with a first argument of type %d", (int)d->arguments[0].type);
    nkxValueSetInt(d->vm, &d->returnValue, d->arguments[0].intData);
}
static void n_deep(struct NKVMFunctionCallbackData *d) {
    Val r; touch(d); calls_[2]++; memset(&r, 0, sizeof r); r.type = NK_VALUETYPE_NIL;
    if(d->argumentCount && calls_[2] < 6 && d->arguments[0].type == NK_VALUETYPE_FUNCTIONID) nkxVmCallFunction(d->vm, &d->arguments[0], d->argumentCount - 1, d->arguments + 1, &r);
    d->returnValue = r;
}
static uint32_t rv(void) { switch(rndn(8)) { case 0: return rnd(); case 1: return 0xffffffffu - rndn(4); case 2: return 0x80000000u + rndn(3) - 1; case 3: return 1u << rndn(32); default: return rndn(12); } }
static Val mk(struct NKVM *vm, uint32_t nobj, uint32_t nstr) {
    Val v; memset(&v, 0, sizeof v); (void)vm;
    switch(rndn(9)) {
    case 0: v.type = NK_VALUETYPE_FLOAT; v.intData = (nkint32_t)(rndn(2) ? rnd() : 0x3f800000u); break;
    case 1: v.type = NK_VALUETYPE_STRING; v.stringTableEntry = rndn(4) ? rndn(nstr + 3) : rv(); break;
    case 2: v.type = NK_VALUETYPE_FUNCTIONID; v.functionId.id = rndn(6) ? rndn(8) : rv(); break;
    case 3: case 4: v.type = NK_VALUETYPE_OBJECTID; v.objectId = rndn(6) ? rndn(nobj + 3) : rv(); break;
    case 5: v.type = NK_VALUETYPE_NIL; break;
    default: v.type = NK_VALUETYPE_INT; v.intData = (nkint32_t)rv(); }
    return v;
}
static const int pushes[] = {NK_OP_PUSHLITERAL_INT, NK_OP_PUSHLITERAL_INT, NK_OP_PUSHLITERAL_INT, NK_OP_PUSHLITERAL_FUNCTIONID, NK_OP_PUSHLITERAL_FUNCTIONID, NK_OP_PUSHLITERAL_FLOAT, NK_OP_PUSHLITERAL_STRING, NK_OP_PUSHNIL, NK_OP_CREATEOBJECT, NK_OP_PUSHLITERAL_INT};
static void setup(struct NKVM *vm, uint32_t len, uint32_t slen, uint32_t nobj, uint32_t nstr) {
    uint32_t i;
        NKVMExternalFunctionID a, b, c; enum NKValueType ty[2]; Val key, ob, *slot;
        a = nkxVmRegisterExternalFunction(vm, "any", n_any); b = nkxVmRegisterExternalFunction(vm, "two", n_two); c = nkxVmRegisterExternalFunction(vm, "deep", n_deep);
        ty[0] = decl1[0]; ty[1] = decl1[1];
        { struct NKVMExternalFunction *x = &vm->externalFunctionTable[b.id]; x->argumentCount = 2; x->argTypes = nkiMalloc(vm, sizeof ty); memcpy(x->argTypes, ty, sizeof ty); x->argExternalTypes = nkiMalloc(vm, 2 * sizeof(NKVMExternalDataTypeID)); x->argExternalTypes[0].id = x->argExternalTypes[1].id = NK_INVALID_VALUE; }
        for(i = 0; i < 7; i++) { NKVMInternalFunctionID id; struct NKVMFunction *f = nkiVmCreateFunction(vm, &id); f->argumentCount = rndn(3) ? NK_INVALID_VALUE : rndn(4); f->firstInstructionIndex = rndn(4) ? rndn(len) : rnd(); if(rndn(2)) f->externalFunctionId = rndn(3) == 0 ? a : rndn(2) ? b : c; if(rndn(12) == 0) f->externalFunctionId.id = rv(); }
        for(i = 0; i < nobj; i++) { ob.type = NK_VALUETYPE_OBJECTID; ob.objectId = nkiVmObjectTableCreateObject(vm); nkxVmObjectAcquireHandle(vm, &ob);
            if(rndn(2)) { nkxValueSetString(vm, &key, "_exec"); slot = nkiVmObjectFindOrAddEntry_public(vm, &ob, &key, nkfalse); if(slot) *slot = mk(vm, nobj, nstr); }
            if(rndn(3) == 0) { nkxValueSetString(vm, &key, "_data"); slot = nkiVmObjectFindOrAddEntry_public(vm, &ob, &key, nkfalse); if(slot) *slot = mk(vm, nobj, nstr); }
            if(rndn(8) == 0) nkiVmObjectSetExternalType(vm, &ob, vm->internalObjectTypes.coroutine); }
        nkiFree(vm, vm->instructions); vm->instructions = nkiMalloc(vm, len * (uint32_t)sizeof(struct NKInstruction)); vm->instructionAddressMask = len - 1;
        nkiFree(vm, vm->staticSpace); vm->staticSpace = nkiMalloc(vm, slen * (uint32_t)sizeof(Val)); vm->staticAddressMask = slen - 1;
        for(i = 0; i < slen; i++) vm->staticSpace[i] = mk(vm, nobj, nstr);
        for(i = 0; i < len; ) {
            uint32_t k = rndn(20); struct NKInstruction *w = &vm->instructions[i];
            if(k < 8) { w->opcode = (enum NKOpcode)pushes[rndn(10)]; if(i + 1 < len) { w[1].opData_int = (nkint32_t)(w->opcode == NK_OP_PUSHLITERAL_FUNCTIONID ? (rndn(5) ? rndn(8) : rv()) : rv()); i++; } }
            else if(k == 8) w->opData_int = (nkint32_t)rnd();
            else if(k < 12) w->opcode = rndn(2) ? NK_OP_CALL : (enum NKOpcode)(NK_OP_COROUTINE_CREATE + rndn(4));
            else w->opcode = (enum NKOpcode)(rndn(4) ? rndn(NK_OPCODE_REALCOUNT) : rnd());
            i++; }
        for(i = rndn(20); i; i--) { Val *p = nkiVmStackPush_internal(vm); *p = mk(vm, nobj, nstr); }
}
static void one_case(uint64_t n) {
    struct NKVM *vm = new_vm(); uint32_t i, len = 1u << rndn(8), slen = 1u << rndn(5), nobj = rndn(6), nstr = 4, steps, ok; (void)n;
    memset(calls_, 0, sizeof calls_);
    CHECK(vm, "no machine"); vm->limits.maxStackSize = 1u << (4 + rndn(9)); vm->limits.maxAllocatedMemory = 1u << 22;
    nkxSetRemainingInstructionLimit(vm, 30000); nkxSetGarbageCollectionInterval(vm, 1 + rndn(40));
    ok = GUARD(vm, setup(vm, len, slen, nobj, nstr));
    CHECK(ok, "setting up failed");
    for(i = 0; i < len; i++) tr("%u: %u %d\n", i, vm->instructions[i].opcode & 63u, vm->instructions[i].opData_int);
    steps = 0;
    while(steps < 400) {
        struct NKVMStack *s;
        if(!GUARD(vm, nkiVmIterate(vm))) break;
        steps++; ops_++; s = &vm->currentExecutionContext->stack;
        CHECK(s->capacity && !(s->capacity & (s->capacity - 1)) && s->indexMask == s->capacity - 1 && s->size <= s->capacity, "operand stack broken after %u instructions", steps);
        if(nkxVmHasErrors(vm) && rndn(8) == 0) break;
    }
    if(!vm->errorState.allocationFailure && rndn(2)) GUARD(vm, nkiVmGarbageCollect(vm));
    nkxVmDelete(vm);
}
