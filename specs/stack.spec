// nkstack.c: the operand stack of the running context
pred vmok(struct NKVM *vm) = \valid(vm) && \rtype(vm, struct NKVM);
pred placed(struct NKVMStack *s) = \valid(s) && (\rtype(s, struct NKVM) || \rtype(s, struct NKVMExecutionContext));
pred stack_ok(struct NKVMStack *s) = placed(s) && 1 <= s->capacity && s->capacity <= 0x80000000 && \pow2(s->capacity) && s->indexMask == s->capacity - 1 &&
   \block(s->values, 8 * s->capacity) && s->size <= s->capacity && 8 * s->capacity <= 0xffffffff;
pred ctx_ok(struct NKVM *vm) = \valid(vm->currentExecutionContext) && stack_ok(&vm->currentExecutionContext->stack) &&
   (vm->currentExecutionContext == &vm->rootExecutionContext || \rtype(vm->currentExecutionContext, struct NKVMExecutionContext));
fun struct NKVMStack *stk(struct NKVM *vm) = &vm->currentExecutionContext->stack;
pred errors(struct NKVM *vm) = vm->errorState.firstError != NULL;

extern contract nkiVmStringTableFindOrAddString(struct NKVM *vm, const char *str) : unsigned int {
  requires \valid(vm);
  writes $alive, $born, NKVM.currentMemoryUsage, NKVM.peakMemoryUsage, NKErrorState.allocationFailure, NKErrorState.lastError, NKErrorState.firstError;
  throws;
  assigns vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure, vm->errorState.lastError, vm->errorState.firstError;
  ensures forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
  ensures \old(vm->errorState.firstError) != NULL ==> vm->errorState.firstError != NULL;
  exsures forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
  exsures [flag] vm->errorState.allocationFailure == 1;
}

contract nkiVmStackInit {
  requires vmok(vm) && placed(stack);
  assigns stack->values, stack->size, stack->capacity, stack->indexMask, vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure;
  ensures [inv] stack_ok(stack) && stack->size == 0 && stack->capacity == 1;
  ensures [where] \fresh(stack->values);
  ensures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
  exsures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
}
contract nkiVmStackPush_internal {
  requires vmok(vm) && ctx_ok(vm);
  assigns stk(vm)->values, stk(vm)->size, stk(vm)->capacity, stk(vm)->indexMask, \free(stk(vm)->values),
     vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure, vm->errorState.lastError, vm->errorState.firstError;
  ensures [inv] stack_ok(stk(vm));
  ensures [top] stk(vm)->size == \old(stk(vm)->size) + 1 && \result == &stk(vm)->values[\old(stk(vm)->size)] || 
       stk(vm)->size == \old(stk(vm)->size) && \result == &stk(vm)->values[0] && errors(vm);
  ensures [granted] \old(stk(vm)->size) < \old(stk(vm)->capacity) ==> stk(vm)->size == \old(stk(vm)->size) + 1;
  ensures [where] stk(vm)->values == \old(stk(vm)->values) || \fresh(stk(vm)->values);
  ensures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) && \root(p) != \old(stk(vm)->values) ==> \alive(p);
  exsures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
  ensures [grows] \old(stk(vm)->capacity) <= 0xffff && 2 * \old(stk(vm)->capacity) <= vm->limits.maxStackSize ==> stk(vm)->size == \old(stk(vm)->size) + 1;
  ensures [kept] forall integer i; {stk(vm)->values[i].type} 0 <= i && i < \old(stk(vm)->size) ==> \val(stk(vm)->values + i) == \old(\val(stk(vm)->values + i));
  ensures [limit] stk(vm)->capacity == \old(stk(vm)->capacity) || stk(vm)->capacity <= vm->limits.maxStackSize && stk(vm)->capacity <= 0x10000;
  exsures [inv] stack_ok(stk(vm)) && stk(vm)->size == \old(stk(vm)->size) && stk(vm)->values == \old(stk(vm)->values);
  ensures [errkept] \old(vm->errorState.firstError) != NULL ==> vm->errorState.firstError != NULL;
  exsures [flag] vm->errorState.allocationFailure == 1;
  ensures [noerror] \old(stk(vm)->size) < \old(stk(vm)->capacity) ==> vm->errorState.firstError == \old(vm->errorState.firstError) && vm->errorState.lastError == \old(vm->errorState.lastError);
  ensures [inplace] \old(stk(vm)->size) < \old(stk(vm)->capacity) ==> stk(vm)->values == \old(stk(vm)->values) && stk(vm)->capacity == \old(stk(vm)->capacity) && (forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p));
}
contract nkiVmStackPushInt {
  requires vmok(vm) && ctx_ok(vm);
  assigns stk(vm)->values, stk(vm)->size, stk(vm)->capacity, stk(vm)->indexMask, \free(stk(vm)->values), stk(vm)->values[*],
     vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure, vm->errorState.lastError, vm->errorState.firstError;
  ensures [granted] \old(stk(vm)->size) < \old(stk(vm)->capacity) ==> stk(vm)->size == \old(stk(vm)->size) + 1;
  ensures [where] stk(vm)->values == \old(stk(vm)->values) || \fresh(stk(vm)->values);
  ensures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) && \root(p) != \old(stk(vm)->values) ==> \alive(p);
  ensures [inv] stack_ok(stk(vm));
  ensures [pushed] errors(vm) && stk(vm)->size == \old(stk(vm)->size) || stk(vm)->size == \old(stk(vm)->size) + 1 && stk(vm)->values[\old(stk(vm)->size)].type == NK_VALUETYPE_INT && stk(vm)->values[\old(stk(vm)->size)].intData == value;
  ensures [kept] stk(vm)->size == \old(stk(vm)->size) + 1 ==> (forall integer i; {stk(vm)->values[i].type} 0 <= i && i < \old(stk(vm)->size) ==> \val(stk(vm)->values + i) == \old(\val(stk(vm)->values + i)));
  ensures [ok] \result == 1;
  exsures [inv] stack_ok(stk(vm)) && stk(vm)->size == \old(stk(vm)->size) && stk(vm)->values == \old(stk(vm)->values);
  ensures [errkept] \old(vm->errorState.firstError) != NULL ==> vm->errorState.firstError != NULL;
  exsures [flag] vm->errorState.allocationFailure == 1;
  ensures [noerror] \old(stk(vm)->size) < \old(stk(vm)->capacity) ==> vm->errorState.firstError == \old(vm->errorState.firstError) && vm->errorState.lastError == \old(vm->errorState.lastError);
  ensures [inplace] \old(stk(vm)->size) < \old(stk(vm)->capacity) ==> stk(vm)->values == \old(stk(vm)->values) && stk(vm)->capacity == \old(stk(vm)->capacity) && (forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p));
  exsures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
}
contract nkiVmStackPushFloat {
  requires vmok(vm) && ctx_ok(vm);
  assigns stk(vm)->values, stk(vm)->size, stk(vm)->capacity, stk(vm)->indexMask, \free(stk(vm)->values), stk(vm)->values[*],
     vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure, vm->errorState.lastError, vm->errorState.firstError;
  ensures [granted] \old(stk(vm)->size) < \old(stk(vm)->capacity) ==> stk(vm)->size == \old(stk(vm)->size) + 1;
  ensures [where] stk(vm)->values == \old(stk(vm)->values) || \fresh(stk(vm)->values);
  ensures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) && \root(p) != \old(stk(vm)->values) ==> \alive(p);
  ensures [inv] stack_ok(stk(vm));
  ensures [pushed] errors(vm) && stk(vm)->size == \old(stk(vm)->size) || stk(vm)->size == \old(stk(vm)->size) + 1 && stk(vm)->values[\old(stk(vm)->size)].type == NK_VALUETYPE_FLOAT && stk(vm)->values[\old(stk(vm)->size)].floatData == value;
  ensures [kept] stk(vm)->size == \old(stk(vm)->size) + 1 ==> (forall integer i; {stk(vm)->values[i].type} 0 <= i && i < \old(stk(vm)->size) ==> \val(stk(vm)->values + i) == \old(\val(stk(vm)->values + i)));
  ensures [ok] \result == 1;
  exsures [inv] stack_ok(stk(vm)) && stk(vm)->size == \old(stk(vm)->size) && stk(vm)->values == \old(stk(vm)->values);
  ensures [errkept] \old(vm->errorState.firstError) != NULL ==> vm->errorState.firstError != NULL;
  exsures [flag] vm->errorState.allocationFailure == 1;
  ensures [noerror] \old(stk(vm)->size) < \old(stk(vm)->capacity) ==> vm->errorState.firstError == \old(vm->errorState.firstError) && vm->errorState.lastError == \old(vm->errorState.lastError);
  ensures [inplace] \old(stk(vm)->size) < \old(stk(vm)->capacity) ==> stk(vm)->values == \old(stk(vm)->values) && stk(vm)->capacity == \old(stk(vm)->capacity) && (forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p));
  exsures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
}
contract nkiVmStackPushString {
  requires vmok(vm) && ctx_ok(vm);
  assigns stk(vm)->values, stk(vm)->size, stk(vm)->capacity, stk(vm)->indexMask, \free(stk(vm)->values), stk(vm)->values[*],
     vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure, vm->errorState.lastError, vm->errorState.firstError;
  ensures [granted] \old(stk(vm)->size) < \old(stk(vm)->capacity) ==> stk(vm)->size == \old(stk(vm)->size) + 1;
  ensures [where] stk(vm)->values == \old(stk(vm)->values) || \fresh(stk(vm)->values);
  ensures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) && \root(p) != \old(stk(vm)->values) ==> \alive(p);
  ensures [inv] stack_ok(stk(vm));
  ensures [pushed] errors(vm) && stk(vm)->size == \old(stk(vm)->size) || stk(vm)->size == \old(stk(vm)->size) + 1 && stk(vm)->values[\old(stk(vm)->size)].type == NK_VALUETYPE_STRING;
  ensures [kept] stk(vm)->size == \old(stk(vm)->size) + 1 ==> (forall integer i; {stk(vm)->values[i].type} 0 <= i && i < \old(stk(vm)->size) ==> \val(stk(vm)->values + i) == \old(\val(stk(vm)->values + i)));
  ensures [ok] \result == 1;
  exsures [inv] stack_ok(stk(vm));
  ensures [errkept] \old(vm->errorState.firstError) != NULL ==> vm->errorState.firstError != NULL;
  exsures [flag] vm->errorState.allocationFailure == 1;
  exsures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) && \root(p) != \old(stk(vm)->values) ==> \alive(p);
  exsures [where] stk(vm)->values == \old(stk(vm)->values) || \fresh(stk(vm)->values);
}
contract nkiVmStackPop {
  requires vmok(vm) && ctx_ok(vm);
  assigns stk(vm)->size, vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure, vm->errorState.lastError, vm->errorState.firstError;
  ensures [inv] stack_ok(stk(vm));
  ensures [popped] \old(stk(vm)->size) > 0 ==> stk(vm)->size == \old(stk(vm)->size) - 1 && \result == &stk(vm)->values[\old(stk(vm)->size) - 1];
  ensures [underflow] \old(stk(vm)->size) == 0 ==> errors(vm) && stk(vm)->size == 0 && \result == &stk(vm)->values[0];
  ensures [noerror] \old(stk(vm)->size) > 0 ==> vm->errorState.firstError == \old(vm->errorState.firstError) && vm->errorState.lastError == \old(vm->errorState.lastError);
  exsures [inv] stack_ok(stk(vm)) && stk(vm)->size == \old(stk(vm)->size);
  ensures [errkept] \old(vm->errorState.firstError) != NULL ==> vm->errorState.firstError != NULL;
  exsures [flag] vm->errorState.allocationFailure == 1;
  exsures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
}
contract nkiVmStackPopN {
  requires vmok(vm) && ctx_ok(vm);
  assigns stk(vm)->size, vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure, vm->errorState.lastError, vm->errorState.firstError;
  ensures [inv] stack_ok(stk(vm));
  ensures [popped] \old(stk(vm)->size) >= count ==> stk(vm)->size == \old(stk(vm)->size) - count && vm->errorState.firstError == \old(vm->errorState.firstError);
  ensures [underflow] \old(stk(vm)->size) < count ==> errors(vm) && stk(vm)->size == 0;
  exsures [inv] stack_ok(stk(vm)) && stk(vm)->size == \old(stk(vm)->size);
  ensures [errkept] \old(vm->errorState.firstError) != NULL ==> vm->errorState.firstError != NULL;
  exsures [flag] vm->errorState.allocationFailure == 1;
  exsures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
}
contract nkiVmStackPeek {
  requires vmok(vm) && ctx_ok(vm);
  assigns \nothing; nothrow;
  ensures [inside] \valid(\result) && \result == &stk(vm)->values[\band(index, stk(vm)->indexMask)] && \band(index, stk(vm)->indexMask) < stk(vm)->capacity;
  ensures [exact] index < stk(vm)->capacity ==> \result == &stk(vm)->values[index];
}
contract nkiVmStackClear {
  requires vmok(vm) && stack_ok(stack);
  assigns stack->values, stack->size, stack->capacity, stack->indexMask, \free(stack->values), stack->values[*], 
     vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure;
  ensures [inv] stack_ok(stack) && stack->size == 0;
  exsures [inv] stack_ok(stack) && stack->size == 0;
}
contract nkiVmStackDestroy {
  requires vmok(vm) && (stack == NULL || placed(stack) && (stack->values == NULL || \isblock(stack->values)));
  nothrow;
  assigns stack->values, stack->size, stack->capacity, stack->indexMask, \free(stack->values), vm->currentMemoryUsage;
  ensures [empty] stack != NULL ==> stack->values == NULL && stack->size == 0 && stack->capacity == 0;
  ensures [released] stack != NULL && \old(stack->values) != NULL ==> !\alive(\old(stack->values));
}
