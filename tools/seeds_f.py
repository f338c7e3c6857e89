LIT = '''    stackVal->type = NK_VALUETYPE_FLOAT;
    stackVal->floatData =
        vm->instructions[vm->currentExecutionContext->instructionPointer & vm->instructionAddressMask].opData_float;
'''
seeds = [
dict(id='P12-literal-edge', property='P12', asan=True, needs='a float literal instruction in the last word of the code, so that its operand is the word after the end', breaks='the operand is read from behind the instruction array instead of wrapping round',
 edits=[('src/nkopcode.c', LIT, '''    stackVal->type = NK_VALUETYPE_FLOAT;
    stackVal->floatData =
        (vm->instructions + ((vm->currentExecutionContext->instructionPointer - 1) & vm->instructionAddressMask) + 1)->opData_float;
''')],
 demo='''
#include "nkopcode.h"
static int body(struct NKVM *vm) { nkuint32_t i; for(i = 0; i < 4; i++) vm->instructions[i].opcode = NK_OP_NOP; vm->instructions[0].opData_float = 2.5f; vm->instructions[3].opcode = NK_OP_PUSHLITERAL_FLOAT; vm->currentExecutionContext->instructionPointer = 3; nkiVmIterate(vm); if(nkiVmStackPop(vm)->floatData != 2.5f) BAD("wrong operand"); return 0; }
int main(void) { struct NKVM *vm = nkxVmCreate(); if(vm->instructionAddressMask != 3) return 0; if(!GUARD(vm, body(vm))) BAD("refused"); nkxVmDelete(vm); puts("ok"); return 0; }
'''),
dict(id='P12-coroutine-args', property='P12', asan=True, needs='a coroutine created by corrupted code with more arguments than are on the stack but not more than the stack has room for', breaks='the arguments are copied from before the start of the stack, or far outside it',
 edits=[('src/nkopcode.c', 'if((nkuint32_t)argCount > parentExecutionContext->stack.size) {', 'if((nkuint32_t)argCount > parentExecutionContext->stack.capacity) {')],
 demo='''
#include "nkopcode.h"
static int body(struct NKVM *vm) { int i; for(i = 0; i < 20; i++) nkiVmStackPushInt(vm, i); for(i = 0; i < 17; i++) nkiVmStackPop(vm); nkiVmStackPushInt(vm, 9); nkiOpcode_coroutineCreate(vm); if(!vm->errorState.firstError) BAD("not refused"); return 0; }
int main(void) { struct NKVM *vm = nkxVmCreate(); if(!GUARD(vm, body(vm))) BAD("abandoned"); nkxVmDelete(vm); puts("ok"); return 0; }
'''),
dict(id='P12-function-id', property='P12', asan=True, needs='a call of the function id one past the last function', breaks='the call reads a function entry behind the end of the function table',
 edits=[('src/nkopcode.c', 'if(functionId.id >= vm->functionCount) {', 'if(functionId.id > vm->functionCount) {')],
 demo='''
#include "nkopcode.h"
static int body(struct NKVM *vm) { NKVMInternalFunctionID id; struct NKValue *v; nkiVmCreateFunction(vm, &id); v = nkiVmStackPush_internal(vm); v->type = NK_VALUETYPE_FUNCTIONID; v->functionId.id = vm->functionCount; nkiVmStackPushInt(vm, 0); nkiOpcode_call(vm); if(!vm->errorState.firstError) BAD("not refused"); return 0; }
int main(void) { struct NKVM *vm = nkxVmCreate(); if(!GUARD(vm, body(vm))) BAD("abandoned"); nkxVmDelete(vm); puts("ok"); return 0; }
'''),
]
