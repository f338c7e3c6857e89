// The arithmetic, comparison and logical instructions: what they leave on the operand stack.
fun struct NKValue *opa(struct NKVM *vm) = stk(vm)->values + (stk(vm)->size - 2);
fun struct NKValue *opb(struct NKVM *vm) = stk(vm)->values + (stk(vm)->size - 1);
pred isfl(struct NKValue *v) = v->type == NK_VALUETYPE_INT || v->type == NK_VALUETYPE_FLOAT || v->type == NK_VALUETYPE_NIL;
contract nkiOpcode_add {
  opt literals;
  requires vmok(vm) && ctx_ok(vm);
  assigns stk(vm)->values, stk(vm)->size, stk(vm)->capacity, stk(vm)->indexMask, \free(stk(vm)->values), stk(vm)->values[*],
     vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure, vm->errorState.lastError, vm->errorState.firstError;
  ensures [inv] ctx_ok(vm);
  ensures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) && \root(p) != \old(stk(vm)->values) ==> \alive(p);
  exsures [inv] ctx_ok(vm);
  exsures [flag] vm->errorState.allocationFailure == 1;
  ensures [kept] \old(stk(vm)->size) >= 2 ==> (forall integer i; {stk(vm)->values[i].type} 0 <= i && i < \old(stk(vm)->size) - 2 ==> \val(stk(vm)->values + i) == \old(\val(stk(vm)->values + i)));
  ensures [underflow] \old(stk(vm)->size) < 2 ==> errors(vm);
  ensures [ints] \old(stk(vm)->size) >= 2 && \old(opa(vm)->type) == NK_VALUETYPE_INT && \old(isnum(opb(vm))) ==> stk(vm)->size == \old(stk(vm)->size) - 1 && stk(vm)->values[\old(stk(vm)->size) - 2].type == NK_VALUETYPE_INT && stk(vm)->values[\old(stk(vm)->size) - 2].intData == \s32(\old(opa(vm)->intData) + \old(toint(opb(vm)))) && vm->errorState.firstError == \old(vm->errorState.firstError);
  ensures [floats] \old(stk(vm)->size) >= 2 && \old(opa(vm)->type) == NK_VALUETYPE_FLOAT && \old(isfl(opb(vm))) ==> stk(vm)->size == \old(stk(vm)->size) - 1 && stk(vm)->values[\old(stk(vm)->size) - 2].type == NK_VALUETYPE_FLOAT && stk(vm)->values[\old(stk(vm)->size) - 2].floatData == \f_add_float(\old(opa(vm)->floatData), \old(tofloat(opb(vm)))) && vm->errorState.firstError == \old(vm->errorState.firstError);
  ensures [bad] \old(stk(vm)->size) >= 2 && \old(opa(vm)->type) != NK_VALUETYPE_INT && \old(opa(vm)->type) != NK_VALUETYPE_FLOAT && \old(opa(vm)->type) != NK_VALUETYPE_STRING ==> errors(vm) && stk(vm)->size == \old(stk(vm)->size) - 2;
  ensures [texts] \old(stk(vm)->size) >= 2 && \old(opa(vm)->type) == NK_VALUETYPE_STRING ==> stk(vm)->size == \old(stk(vm)->size) - 1 && stk(vm)->values[\old(stk(vm)->size) - 2].type == NK_VALUETYPE_STRING;
}
contract nkiOpcode_subtract {
  opt literals;
  requires vmok(vm) && ctx_ok(vm);
  assigns stk(vm)->values, stk(vm)->size, stk(vm)->capacity, stk(vm)->indexMask, \free(stk(vm)->values), stk(vm)->values[*],
     vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure, vm->errorState.lastError, vm->errorState.firstError;
  ensures [inv] ctx_ok(vm);
  ensures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) && \root(p) != \old(stk(vm)->values) ==> \alive(p);
  exsures [inv] ctx_ok(vm);
  exsures [flag] vm->errorState.allocationFailure == 1;
  ensures [kept] \old(stk(vm)->size) >= 2 ==> (forall integer i; {stk(vm)->values[i].type} 0 <= i && i < \old(stk(vm)->size) - 2 ==> \val(stk(vm)->values + i) == \old(\val(stk(vm)->values + i)));
  ensures [underflow] \old(stk(vm)->size) < 2 ==> errors(vm);
  ensures [ints] \old(stk(vm)->size) >= 2 && \old(opa(vm)->type) == NK_VALUETYPE_INT && \old(isnum(opb(vm))) ==> stk(vm)->size == \old(stk(vm)->size) - 1 && stk(vm)->values[\old(stk(vm)->size) - 2].type == NK_VALUETYPE_INT && stk(vm)->values[\old(stk(vm)->size) - 2].intData == \s32(\old(opa(vm)->intData) - \old(toint(opb(vm)))) && vm->errorState.firstError == \old(vm->errorState.firstError);
  ensures [floats] \old(stk(vm)->size) >= 2 && \old(opa(vm)->type) == NK_VALUETYPE_FLOAT && \old(isfl(opb(vm))) ==> stk(vm)->size == \old(stk(vm)->size) - 1 && stk(vm)->values[\old(stk(vm)->size) - 2].type == NK_VALUETYPE_FLOAT && stk(vm)->values[\old(stk(vm)->size) - 2].floatData == \f_sub_float(\old(opa(vm)->floatData), \old(tofloat(opb(vm)))) && vm->errorState.firstError == \old(vm->errorState.firstError);
  ensures [bad] \old(stk(vm)->size) >= 2 && \old(opa(vm)->type) != NK_VALUETYPE_INT && \old(opa(vm)->type) != NK_VALUETYPE_FLOAT ==> errors(vm) && stk(vm)->size == \old(stk(vm)->size) - 2;
}
contract nkiOpcode_multiply {
  opt literals;
  requires vmok(vm) && ctx_ok(vm);
  assigns stk(vm)->values, stk(vm)->size, stk(vm)->capacity, stk(vm)->indexMask, \free(stk(vm)->values), stk(vm)->values[*],
     vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure, vm->errorState.lastError, vm->errorState.firstError;
  ensures [inv] ctx_ok(vm);
  ensures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) && \root(p) != \old(stk(vm)->values) ==> \alive(p);
  exsures [inv] ctx_ok(vm);
  exsures [flag] vm->errorState.allocationFailure == 1;
  ensures [kept] \old(stk(vm)->size) >= 2 ==> (forall integer i; {stk(vm)->values[i].type} 0 <= i && i < \old(stk(vm)->size) - 2 ==> \val(stk(vm)->values + i) == \old(\val(stk(vm)->values + i)));
  ensures [underflow] \old(stk(vm)->size) < 2 ==> errors(vm);
  ensures [ints] \old(stk(vm)->size) >= 2 && \old(opa(vm)->type) == NK_VALUETYPE_INT && \old(isnum(opb(vm))) ==> stk(vm)->size == \old(stk(vm)->size) - 1 && stk(vm)->values[\old(stk(vm)->size) - 2].type == NK_VALUETYPE_INT && stk(vm)->values[\old(stk(vm)->size) - 2].intData == \s32(\old(opa(vm)->intData) * \old(toint(opb(vm)))) && vm->errorState.firstError == \old(vm->errorState.firstError);
  ensures [floats] \old(stk(vm)->size) >= 2 && \old(opa(vm)->type) == NK_VALUETYPE_FLOAT && \old(isfl(opb(vm))) ==> stk(vm)->size == \old(stk(vm)->size) - 1 && stk(vm)->values[\old(stk(vm)->size) - 2].type == NK_VALUETYPE_FLOAT && stk(vm)->values[\old(stk(vm)->size) - 2].floatData == \f_mul_float(\old(opa(vm)->floatData), \old(tofloat(opb(vm)))) && vm->errorState.firstError == \old(vm->errorState.firstError);
  ensures [bad] \old(stk(vm)->size) >= 2 && \old(opa(vm)->type) != NK_VALUETYPE_INT && \old(opa(vm)->type) != NK_VALUETYPE_FLOAT ==> errors(vm) && stk(vm)->size == \old(stk(vm)->size) - 2;
}
contract nkiOpcode_divide {
  opt literals;
  requires vmok(vm) && ctx_ok(vm);
  assigns stk(vm)->values, stk(vm)->size, stk(vm)->capacity, stk(vm)->indexMask, \free(stk(vm)->values), stk(vm)->values[*],
     vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure, vm->errorState.lastError, vm->errorState.firstError;
  ensures [inv] ctx_ok(vm);
  ensures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) && \root(p) != \old(stk(vm)->values) ==> \alive(p);
  exsures [inv] ctx_ok(vm);
  exsures [flag] vm->errorState.allocationFailure == 1;
  ensures [kept] \old(stk(vm)->size) >= 2 ==> (forall integer i; {stk(vm)->values[i].type} 0 <= i && i < \old(stk(vm)->size) - 2 ==> \val(stk(vm)->values + i) == \old(\val(stk(vm)->values + i)));
  ensures [underflow] \old(stk(vm)->size) < 2 ==> errors(vm);
  ensures [ints] \old(stk(vm)->size) >= 2 && \old(opa(vm)->type) == NK_VALUETYPE_INT && \old(isnum(opb(vm))) && \old(toint(opb(vm))) != 0 && !(\old(toint(opb(vm))) == 0 - 1 && \old(opa(vm)->intData) == 0 - 2147483648) ==> stk(vm)->size == \old(stk(vm)->size) - 1 && stk(vm)->values[\old(stk(vm)->size) - 2].type == NK_VALUETYPE_INT && stk(vm)->values[\old(stk(vm)->size) - 2].intData == \tdiv(\old(opa(vm)->intData), \old(toint(opb(vm)))) && vm->errorState.firstError == \old(vm->errorState.firstError);
  ensures [floats] \old(stk(vm)->size) >= 2 && \old(opa(vm)->type) == NK_VALUETYPE_FLOAT && \old(isfl(opb(vm))) ==> stk(vm)->size == \old(stk(vm)->size) - 1 && stk(vm)->values[\old(stk(vm)->size) - 2].type == NK_VALUETYPE_FLOAT && stk(vm)->values[\old(stk(vm)->size) - 2].floatData == \f_div_float(\old(opa(vm)->floatData), \old(tofloat(opb(vm)))) && vm->errorState.firstError == \old(vm->errorState.firstError);
  ensures [bad] \old(stk(vm)->size) >= 2 && \old(opa(vm)->type) != NK_VALUETYPE_INT && \old(opa(vm)->type) != NK_VALUETYPE_FLOAT ==> errors(vm) && stk(vm)->size == \old(stk(vm)->size) - 2;
  ensures [refused] \old(stk(vm)->size) >= 2 && \old(opa(vm)->type) == NK_VALUETYPE_INT && \old(isnum(opb(vm))) && (\old(toint(opb(vm))) == 0 || \old(toint(opb(vm))) == 0 - 1 && \old(opa(vm)->intData) == 0 - 2147483648) ==> errors(vm) && stk(vm)->size == \old(stk(vm)->size) - 2;
}
contract nkiOpcode_modulo {
  opt literals;
  requires vmok(vm) && ctx_ok(vm);
  assigns stk(vm)->values, stk(vm)->size, stk(vm)->capacity, stk(vm)->indexMask, \free(stk(vm)->values), stk(vm)->values[*],
     vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure, vm->errorState.lastError, vm->errorState.firstError;
  ensures [inv] ctx_ok(vm);
  ensures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) && \root(p) != \old(stk(vm)->values) ==> \alive(p);
  exsures [inv] ctx_ok(vm);
  exsures [flag] vm->errorState.allocationFailure == 1;
  ensures [kept] \old(stk(vm)->size) >= 2 ==> (forall integer i; {stk(vm)->values[i].type} 0 <= i && i < \old(stk(vm)->size) - 2 ==> \val(stk(vm)->values + i) == \old(\val(stk(vm)->values + i)));
  ensures [underflow] \old(stk(vm)->size) < 2 ==> errors(vm);
  ensures [ints] \old(stk(vm)->size) >= 2 && \old(opa(vm)->type) == NK_VALUETYPE_INT && \old(isnum(opb(vm))) && \old(toint(opb(vm))) != 0 && !(\old(toint(opb(vm))) == 0 - 1 && \old(opa(vm)->intData) == 0 - 2147483648) ==> stk(vm)->size == \old(stk(vm)->size) - 1 && stk(vm)->values[\old(stk(vm)->size) - 2].type == NK_VALUETYPE_INT && stk(vm)->values[\old(stk(vm)->size) - 2].intData == \tmod(\old(opa(vm)->intData), \old(toint(opb(vm)))) && vm->errorState.firstError == \old(vm->errorState.firstError);
  ensures [bad] \old(stk(vm)->size) >= 2 && \old(opa(vm)->type) != NK_VALUETYPE_INT ==> errors(vm) && stk(vm)->size == \old(stk(vm)->size) - 2;
  ensures [refused] \old(stk(vm)->size) >= 2 && \old(opa(vm)->type) == NK_VALUETYPE_INT && \old(isnum(opb(vm))) && (\old(toint(opb(vm))) == 0 || \old(toint(opb(vm))) == 0 - 1 && \old(opa(vm)->intData) == 0 - 2147483648) ==> errors(vm) && stk(vm)->size == \old(stk(vm)->size) - 2;
}
contract nkiOpcode_negate {
  opt literals;
  requires vmok(vm) && ctx_ok(vm);
  assigns stk(vm)->values, stk(vm)->size, stk(vm)->capacity, stk(vm)->indexMask, \free(stk(vm)->values), stk(vm)->values[*],
     vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure, vm->errorState.lastError, vm->errorState.firstError;
  ensures [inv] ctx_ok(vm);
  ensures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) && \root(p) != \old(stk(vm)->values) ==> \alive(p);
  exsures [inv] ctx_ok(vm);
  exsures [flag] vm->errorState.allocationFailure == 1;
  ensures [kept] \old(stk(vm)->size) >= 1 ==> (forall integer i; {stk(vm)->values[i].type} 0 <= i && i < \old(stk(vm)->size) - 1 ==> \val(stk(vm)->values + i) == \old(\val(stk(vm)->values + i)));
  ensures [underflow] \old(stk(vm)->size) < 1 ==> errors(vm);
  ensures [ints] \old(stk(vm)->size) >= 1 && \old(opb(vm)->type) == NK_VALUETYPE_INT ==> stk(vm)->size == \old(stk(vm)->size) - 0 && stk(vm)->values[\old(stk(vm)->size) - 1].type == NK_VALUETYPE_INT && stk(vm)->values[\old(stk(vm)->size) - 1].intData == \s32(0 - \old(opb(vm)->intData)) && vm->errorState.firstError == \old(vm->errorState.firstError);
  ensures [floats] \old(stk(vm)->size) >= 1 && \old(opb(vm)->type) == NK_VALUETYPE_FLOAT ==> stk(vm)->size == \old(stk(vm)->size) - 0 && stk(vm)->values[\old(stk(vm)->size) - 1].type == NK_VALUETYPE_FLOAT && stk(vm)->values[\old(stk(vm)->size) - 1].floatData == \f_neg_float(\old(opb(vm)->floatData)) && vm->errorState.firstError == \old(vm->errorState.firstError);
  ensures [bad] \old(stk(vm)->size) >= 1 && \old(opb(vm)->type) != NK_VALUETYPE_INT && \old(opb(vm)->type) != NK_VALUETYPE_FLOAT ==> errors(vm) && stk(vm)->size == \old(stk(vm)->size) - 1;
}
contract nkiOpcode_not {
  opt literals;
  requires vmok(vm) && ctx_ok(vm);
  assigns stk(vm)->values, stk(vm)->size, stk(vm)->capacity, stk(vm)->indexMask, \free(stk(vm)->values), stk(vm)->values[*],
     vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure, vm->errorState.lastError, vm->errorState.firstError;
  ensures [inv] ctx_ok(vm);
  ensures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) && \root(p) != \old(stk(vm)->values) ==> \alive(p);
  exsures [inv] ctx_ok(vm);
  exsures [flag] vm->errorState.allocationFailure == 1;
  ensures [kept] \old(stk(vm)->size) >= 1 ==> (forall integer i; {stk(vm)->values[i].type} 0 <= i && i < \old(stk(vm)->size) - 1 ==> \val(stk(vm)->values + i) == \old(\val(stk(vm)->values + i)));
  ensures [underflow] \old(stk(vm)->size) < 1 ==> errors(vm);
  ensures [value] \old(stk(vm)->size) >= 1 && \old(isnum(opb(vm))) ==> stk(vm)->size == \old(stk(vm)->size) - 0 && stk(vm)->values[\old(stk(vm)->size) - 1].type == NK_VALUETYPE_INT && stk(vm)->values[\old(stk(vm)->size) - 1].intData == (\old(toint(opb(vm))) == 0 ? 1 : 0) && vm->errorState.firstError == \old(vm->errorState.firstError);
}
contract nkiOpcode_and {
  opt literals;
  requires vmok(vm) && ctx_ok(vm);
  assigns stk(vm)->values, stk(vm)->size, stk(vm)->capacity, stk(vm)->indexMask, \free(stk(vm)->values), stk(vm)->values[*],
     vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure, vm->errorState.lastError, vm->errorState.firstError;
  ensures [inv] ctx_ok(vm);
  ensures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) && \root(p) != \old(stk(vm)->values) ==> \alive(p);
  exsures [inv] ctx_ok(vm);
  exsures [flag] vm->errorState.allocationFailure == 1;
  ensures [kept] \old(stk(vm)->size) >= 2 ==> (forall integer i; {stk(vm)->values[i].type} 0 <= i && i < \old(stk(vm)->size) - 2 ==> \val(stk(vm)->values + i) == \old(\val(stk(vm)->values + i)));
  ensures [underflow] \old(stk(vm)->size) < 2 ==> errors(vm);
  ensures [value] \old(stk(vm)->size) >= 2 && \old(isnum(opa(vm))) && \old(isnum(opb(vm))) ==> stk(vm)->size == \old(stk(vm)->size) - 1 && stk(vm)->values[\old(stk(vm)->size) - 2].type == NK_VALUETYPE_INT && stk(vm)->values[\old(stk(vm)->size) - 2].intData == (\old(toint(opa(vm))) != 0 && \old(toint(opb(vm))) != 0 ? 1 : 0) && vm->errorState.firstError == \old(vm->errorState.firstError);
}
contract nkiOpcode_or {
  opt literals;
  requires vmok(vm) && ctx_ok(vm);
  assigns stk(vm)->values, stk(vm)->size, stk(vm)->capacity, stk(vm)->indexMask, \free(stk(vm)->values), stk(vm)->values[*],
     vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure, vm->errorState.lastError, vm->errorState.firstError;
  ensures [inv] ctx_ok(vm);
  ensures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) && \root(p) != \old(stk(vm)->values) ==> \alive(p);
  exsures [inv] ctx_ok(vm);
  exsures [flag] vm->errorState.allocationFailure == 1;
  ensures [kept] \old(stk(vm)->size) >= 2 ==> (forall integer i; {stk(vm)->values[i].type} 0 <= i && i < \old(stk(vm)->size) - 2 ==> \val(stk(vm)->values + i) == \old(\val(stk(vm)->values + i)));
  ensures [underflow] \old(stk(vm)->size) < 2 ==> errors(vm);
  ensures [value] \old(stk(vm)->size) >= 2 && \old(isnum(opa(vm))) && \old(isnum(opb(vm))) ==> stk(vm)->size == \old(stk(vm)->size) - 1 && stk(vm)->values[\old(stk(vm)->size) - 2].type == NK_VALUETYPE_INT && stk(vm)->values[\old(stk(vm)->size) - 2].intData == (\old(toint(opa(vm))) != 0 || \old(toint(opb(vm))) != 0 ? 1 : 0) && vm->errorState.firstError == \old(vm->errorState.firstError);
}
contract nkiOpcode_gt {
  opt literals;
  requires vmok(vm) && ctx_ok(vm);
  assigns stk(vm)->values, stk(vm)->size, stk(vm)->capacity, stk(vm)->indexMask, \free(stk(vm)->values), stk(vm)->values[*],
     vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure, vm->errorState.lastError, vm->errorState.firstError;
  ensures [inv] ctx_ok(vm);
  ensures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) && \root(p) != \old(stk(vm)->values) ==> \alive(p);
  exsures [inv] ctx_ok(vm);
  exsures [flag] vm->errorState.allocationFailure == 1;
  ensures [kept] \old(stk(vm)->size) >= 2 ==> (forall integer i; {stk(vm)->values[i].type} 0 <= i && i < \old(stk(vm)->size) - 2 ==> \val(stk(vm)->values + i) == \old(\val(stk(vm)->values + i)));
  ensures [underflow] \old(stk(vm)->size) < 2 ==> errors(vm);
  ensures [ints] \old(stk(vm)->size) >= 2 && \old(opa(vm)->type) == NK_VALUETYPE_INT && \old(opb(vm)->type) != NK_VALUETYPE_NIL && \old(isnum(opb(vm))) ==> stk(vm)->size == \old(stk(vm)->size) - 1 && stk(vm)->values[\old(stk(vm)->size) - 2].type == NK_VALUETYPE_INT && stk(vm)->values[\old(stk(vm)->size) - 2].intData == (\old(opa(vm)->intData) > \old(toint(opb(vm))) ? 1 : 0) && vm->errorState.firstError == \old(vm->errorState.firstError);
  ensures [floats] \old(stk(vm)->size) >= 2 && \old(opa(vm)->type) == NK_VALUETYPE_FLOAT && (\old(opb(vm)->type) == NK_VALUETYPE_INT || \old(opb(vm)->type) == NK_VALUETYPE_FLOAT) ==> stk(vm)->size == \old(stk(vm)->size) - 1 && stk(vm)->values[\old(stk(vm)->size) - 2].type == NK_VALUETYPE_INT && stk(vm)->values[\old(stk(vm)->size) - 2].intData == (\f_lt(\old(tofloat(opb(vm))), \old(opa(vm)->floatData)) ? 1 : 0) && vm->errorState.firstError == \old(vm->errorState.firstError);
  ensures [nil] \old(stk(vm)->size) >= 2 && \old(opa(vm)->type) == NK_VALUETYPE_NIL && \old(opb(vm)->type) == NK_VALUETYPE_NIL ==> stk(vm)->size == \old(stk(vm)->size) - 1 && stk(vm)->values[\old(stk(vm)->size) - 2].type == NK_VALUETYPE_INT && stk(vm)->values[\old(stk(vm)->size) - 2].intData == 0;
  ensures [nil1] \old(stk(vm)->size) >= 2 && \old(opa(vm)->type) == NK_VALUETYPE_NIL && \old(opb(vm)->type) != NK_VALUETYPE_NIL ==> stk(vm)->size == \old(stk(vm)->size) - 1 && stk(vm)->values[\old(stk(vm)->size) - 2].type == NK_VALUETYPE_INT && stk(vm)->values[\old(stk(vm)->size) - 2].intData == 1;
  ensures [nil2] \old(stk(vm)->size) >= 2 && \old(opa(vm)->type) != NK_VALUETYPE_NIL && \old(opb(vm)->type) == NK_VALUETYPE_NIL ==> stk(vm)->size == \old(stk(vm)->size) - 1 && stk(vm)->values[\old(stk(vm)->size) - 2].type == NK_VALUETYPE_INT && stk(vm)->values[\old(stk(vm)->size) - 2].intData == 0;
}
contract nkiOpcode_lt {
  opt literals;
  requires vmok(vm) && ctx_ok(vm);
  assigns stk(vm)->values, stk(vm)->size, stk(vm)->capacity, stk(vm)->indexMask, \free(stk(vm)->values), stk(vm)->values[*],
     vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure, vm->errorState.lastError, vm->errorState.firstError;
  ensures [inv] ctx_ok(vm);
  ensures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) && \root(p) != \old(stk(vm)->values) ==> \alive(p);
  exsures [inv] ctx_ok(vm);
  exsures [flag] vm->errorState.allocationFailure == 1;
  ensures [kept] \old(stk(vm)->size) >= 2 ==> (forall integer i; {stk(vm)->values[i].type} 0 <= i && i < \old(stk(vm)->size) - 2 ==> \val(stk(vm)->values + i) == \old(\val(stk(vm)->values + i)));
  ensures [underflow] \old(stk(vm)->size) < 2 ==> errors(vm);
  ensures [ints] \old(stk(vm)->size) >= 2 && \old(opa(vm)->type) == NK_VALUETYPE_INT && \old(opb(vm)->type) != NK_VALUETYPE_NIL && \old(isnum(opb(vm))) ==> stk(vm)->size == \old(stk(vm)->size) - 1 && stk(vm)->values[\old(stk(vm)->size) - 2].type == NK_VALUETYPE_INT && stk(vm)->values[\old(stk(vm)->size) - 2].intData == (\old(opa(vm)->intData) < \old(toint(opb(vm))) ? 1 : 0) && vm->errorState.firstError == \old(vm->errorState.firstError);
  ensures [floats] \old(stk(vm)->size) >= 2 && \old(opa(vm)->type) == NK_VALUETYPE_FLOAT && (\old(opb(vm)->type) == NK_VALUETYPE_INT || \old(opb(vm)->type) == NK_VALUETYPE_FLOAT) ==> stk(vm)->size == \old(stk(vm)->size) - 1 && stk(vm)->values[\old(stk(vm)->size) - 2].type == NK_VALUETYPE_INT && stk(vm)->values[\old(stk(vm)->size) - 2].intData == (!\f_lt(\old(tofloat(opb(vm))), \old(opa(vm)->floatData)) && !\f_eq(\old(opa(vm)->floatData), \old(tofloat(opb(vm)))) ? 1 : 0) && vm->errorState.firstError == \old(vm->errorState.firstError);
  ensures [nil] \old(stk(vm)->size) >= 2 && \old(opa(vm)->type) == NK_VALUETYPE_NIL && \old(opb(vm)->type) == NK_VALUETYPE_NIL ==> stk(vm)->size == \old(stk(vm)->size) - 1 && stk(vm)->values[\old(stk(vm)->size) - 2].type == NK_VALUETYPE_INT && stk(vm)->values[\old(stk(vm)->size) - 2].intData == 0;
  ensures [nil1] \old(stk(vm)->size) >= 2 && \old(opa(vm)->type) == NK_VALUETYPE_NIL && \old(opb(vm)->type) != NK_VALUETYPE_NIL ==> stk(vm)->size == \old(stk(vm)->size) - 1 && stk(vm)->values[\old(stk(vm)->size) - 2].type == NK_VALUETYPE_INT && stk(vm)->values[\old(stk(vm)->size) - 2].intData == 0;
  ensures [nil2] \old(stk(vm)->size) >= 2 && \old(opa(vm)->type) != NK_VALUETYPE_NIL && \old(opb(vm)->type) == NK_VALUETYPE_NIL ==> stk(vm)->size == \old(stk(vm)->size) - 1 && stk(vm)->values[\old(stk(vm)->size) - 2].type == NK_VALUETYPE_INT && stk(vm)->values[\old(stk(vm)->size) - 2].intData == 1;
}
contract nkiOpcode_ge {
  opt literals;
  requires vmok(vm) && ctx_ok(vm);
  assigns stk(vm)->values, stk(vm)->size, stk(vm)->capacity, stk(vm)->indexMask, \free(stk(vm)->values), stk(vm)->values[*],
     vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure, vm->errorState.lastError, vm->errorState.firstError;
  ensures [inv] ctx_ok(vm);
  ensures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) && \root(p) != \old(stk(vm)->values) ==> \alive(p);
  exsures [inv] ctx_ok(vm);
  exsures [flag] vm->errorState.allocationFailure == 1;
  ensures [kept] \old(stk(vm)->size) >= 2 ==> (forall integer i; {stk(vm)->values[i].type} 0 <= i && i < \old(stk(vm)->size) - 2 ==> \val(stk(vm)->values + i) == \old(\val(stk(vm)->values + i)));
  ensures [underflow] \old(stk(vm)->size) < 2 ==> errors(vm);
  ensures [ints] \old(stk(vm)->size) >= 2 && \old(opa(vm)->type) == NK_VALUETYPE_INT && \old(opb(vm)->type) != NK_VALUETYPE_NIL && \old(isnum(opb(vm))) ==> stk(vm)->size == \old(stk(vm)->size) - 1 && stk(vm)->values[\old(stk(vm)->size) - 2].type == NK_VALUETYPE_INT && stk(vm)->values[\old(stk(vm)->size) - 2].intData == (\old(opa(vm)->intData) >= \old(toint(opb(vm))) ? 1 : 0) && vm->errorState.firstError == \old(vm->errorState.firstError);
  ensures [floats] \old(stk(vm)->size) >= 2 && \old(opa(vm)->type) == NK_VALUETYPE_FLOAT && (\old(opb(vm)->type) == NK_VALUETYPE_INT || \old(opb(vm)->type) == NK_VALUETYPE_FLOAT) ==> stk(vm)->size == \old(stk(vm)->size) - 1 && stk(vm)->values[\old(stk(vm)->size) - 2].type == NK_VALUETYPE_INT && stk(vm)->values[\old(stk(vm)->size) - 2].intData == ((\f_lt(\old(tofloat(opb(vm))), \old(opa(vm)->floatData)) || \f_eq(\old(opa(vm)->floatData), \old(tofloat(opb(vm))))) ? 1 : 0) && vm->errorState.firstError == \old(vm->errorState.firstError);
  ensures [nil] \old(stk(vm)->size) >= 2 && \old(opa(vm)->type) == NK_VALUETYPE_NIL && \old(opb(vm)->type) == NK_VALUETYPE_NIL ==> stk(vm)->size == \old(stk(vm)->size) - 1 && stk(vm)->values[\old(stk(vm)->size) - 2].type == NK_VALUETYPE_INT && stk(vm)->values[\old(stk(vm)->size) - 2].intData == 1;
  ensures [nil1] \old(stk(vm)->size) >= 2 && \old(opa(vm)->type) == NK_VALUETYPE_NIL && \old(opb(vm)->type) != NK_VALUETYPE_NIL ==> stk(vm)->size == \old(stk(vm)->size) - 1 && stk(vm)->values[\old(stk(vm)->size) - 2].type == NK_VALUETYPE_INT && stk(vm)->values[\old(stk(vm)->size) - 2].intData == 1;
  ensures [nil2] \old(stk(vm)->size) >= 2 && \old(opa(vm)->type) != NK_VALUETYPE_NIL && \old(opb(vm)->type) == NK_VALUETYPE_NIL ==> stk(vm)->size == \old(stk(vm)->size) - 1 && stk(vm)->values[\old(stk(vm)->size) - 2].type == NK_VALUETYPE_INT && stk(vm)->values[\old(stk(vm)->size) - 2].intData == 0;
}
contract nkiOpcode_le {
  opt literals;
  requires vmok(vm) && ctx_ok(vm);
  assigns stk(vm)->values, stk(vm)->size, stk(vm)->capacity, stk(vm)->indexMask, \free(stk(vm)->values), stk(vm)->values[*],
     vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure, vm->errorState.lastError, vm->errorState.firstError;
  ensures [inv] ctx_ok(vm);
  ensures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) && \root(p) != \old(stk(vm)->values) ==> \alive(p);
  exsures [inv] ctx_ok(vm);
  exsures [flag] vm->errorState.allocationFailure == 1;
  ensures [kept] \old(stk(vm)->size) >= 2 ==> (forall integer i; {stk(vm)->values[i].type} 0 <= i && i < \old(stk(vm)->size) - 2 ==> \val(stk(vm)->values + i) == \old(\val(stk(vm)->values + i)));
  ensures [underflow] \old(stk(vm)->size) < 2 ==> errors(vm);
  ensures [ints] \old(stk(vm)->size) >= 2 && \old(opa(vm)->type) == NK_VALUETYPE_INT && \old(opb(vm)->type) != NK_VALUETYPE_NIL && \old(isnum(opb(vm))) ==> stk(vm)->size == \old(stk(vm)->size) - 1 && stk(vm)->values[\old(stk(vm)->size) - 2].type == NK_VALUETYPE_INT && stk(vm)->values[\old(stk(vm)->size) - 2].intData == (\old(opa(vm)->intData) <= \old(toint(opb(vm))) ? 1 : 0) && vm->errorState.firstError == \old(vm->errorState.firstError);
  ensures [floats] \old(stk(vm)->size) >= 2 && \old(opa(vm)->type) == NK_VALUETYPE_FLOAT && (\old(opb(vm)->type) == NK_VALUETYPE_INT || \old(opb(vm)->type) == NK_VALUETYPE_FLOAT) ==> stk(vm)->size == \old(stk(vm)->size) - 1 && stk(vm)->values[\old(stk(vm)->size) - 2].type == NK_VALUETYPE_INT && stk(vm)->values[\old(stk(vm)->size) - 2].intData == (!\f_lt(\old(tofloat(opb(vm))), \old(opa(vm)->floatData)) ? 1 : 0) && vm->errorState.firstError == \old(vm->errorState.firstError);
  ensures [nil] \old(stk(vm)->size) >= 2 && \old(opa(vm)->type) == NK_VALUETYPE_NIL && \old(opb(vm)->type) == NK_VALUETYPE_NIL ==> stk(vm)->size == \old(stk(vm)->size) - 1 && stk(vm)->values[\old(stk(vm)->size) - 2].type == NK_VALUETYPE_INT && stk(vm)->values[\old(stk(vm)->size) - 2].intData == 1;
  ensures [nil1] \old(stk(vm)->size) >= 2 && \old(opa(vm)->type) == NK_VALUETYPE_NIL && \old(opb(vm)->type) != NK_VALUETYPE_NIL ==> stk(vm)->size == \old(stk(vm)->size) - 1 && stk(vm)->values[\old(stk(vm)->size) - 2].type == NK_VALUETYPE_INT && stk(vm)->values[\old(stk(vm)->size) - 2].intData == 0;
  ensures [nil2] \old(stk(vm)->size) >= 2 && \old(opa(vm)->type) != NK_VALUETYPE_NIL && \old(opb(vm)->type) == NK_VALUETYPE_NIL ==> stk(vm)->size == \old(stk(vm)->size) - 1 && stk(vm)->values[\old(stk(vm)->size) - 2].type == NK_VALUETYPE_INT && stk(vm)->values[\old(stk(vm)->size) - 2].intData == 1;
}
contract nkiOpcode_eq {
  opt literals;
  requires vmok(vm) && ctx_ok(vm);
  assigns stk(vm)->values, stk(vm)->size, stk(vm)->capacity, stk(vm)->indexMask, \free(stk(vm)->values), stk(vm)->values[*],
     vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure, vm->errorState.lastError, vm->errorState.firstError;
  ensures [inv] ctx_ok(vm);
  ensures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) && \root(p) != \old(stk(vm)->values) ==> \alive(p);
  exsures [inv] ctx_ok(vm);
  exsures [flag] vm->errorState.allocationFailure == 1;
  ensures [kept] \old(stk(vm)->size) >= 2 ==> (forall integer i; {stk(vm)->values[i].type} 0 <= i && i < \old(stk(vm)->size) - 2 ==> \val(stk(vm)->values + i) == \old(\val(stk(vm)->values + i)));
  ensures [underflow] \old(stk(vm)->size) < 2 ==> errors(vm);
  ensures [ints] \old(stk(vm)->size) >= 2 && \old(opa(vm)->type) == NK_VALUETYPE_INT && \old(opb(vm)->type) != NK_VALUETYPE_NIL && \old(isnum(opb(vm))) ==> stk(vm)->size == \old(stk(vm)->size) - 1 && stk(vm)->values[\old(stk(vm)->size) - 2].type == NK_VALUETYPE_INT && stk(vm)->values[\old(stk(vm)->size) - 2].intData == (\old(opa(vm)->intData) == \old(toint(opb(vm))) ? 1 : 0) && vm->errorState.firstError == \old(vm->errorState.firstError);
  ensures [floats] \old(stk(vm)->size) >= 2 && \old(opa(vm)->type) == NK_VALUETYPE_FLOAT && (\old(opb(vm)->type) == NK_VALUETYPE_INT || \old(opb(vm)->type) == NK_VALUETYPE_FLOAT) ==> stk(vm)->size == \old(stk(vm)->size) - 1 && stk(vm)->values[\old(stk(vm)->size) - 2].type == NK_VALUETYPE_INT && stk(vm)->values[\old(stk(vm)->size) - 2].intData == (\f_eq(\old(opa(vm)->floatData), \old(tofloat(opb(vm)))) && !\f_lt(\old(tofloat(opb(vm))), \old(opa(vm)->floatData)) ? 1 : 0) && vm->errorState.firstError == \old(vm->errorState.firstError);
  ensures [nil] \old(stk(vm)->size) >= 2 && \old(opa(vm)->type) == NK_VALUETYPE_NIL && \old(opb(vm)->type) == NK_VALUETYPE_NIL ==> stk(vm)->size == \old(stk(vm)->size) - 1 && stk(vm)->values[\old(stk(vm)->size) - 2].type == NK_VALUETYPE_INT && stk(vm)->values[\old(stk(vm)->size) - 2].intData == 1;
  ensures [nil1] \old(stk(vm)->size) >= 2 && \old(opa(vm)->type) == NK_VALUETYPE_NIL && \old(opb(vm)->type) != NK_VALUETYPE_NIL ==> stk(vm)->size == \old(stk(vm)->size) - 1 && stk(vm)->values[\old(stk(vm)->size) - 2].type == NK_VALUETYPE_INT && stk(vm)->values[\old(stk(vm)->size) - 2].intData == 0;
  ensures [nil2] \old(stk(vm)->size) >= 2 && \old(opa(vm)->type) != NK_VALUETYPE_NIL && \old(opb(vm)->type) == NK_VALUETYPE_NIL ==> stk(vm)->size == \old(stk(vm)->size) - 1 && stk(vm)->values[\old(stk(vm)->size) - 2].type == NK_VALUETYPE_INT && stk(vm)->values[\old(stk(vm)->size) - 2].intData == 0;
}
contract nkiOpcode_ne {
  opt literals;
  requires vmok(vm) && ctx_ok(vm);
  assigns stk(vm)->values, stk(vm)->size, stk(vm)->capacity, stk(vm)->indexMask, \free(stk(vm)->values), stk(vm)->values[*],
     vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure, vm->errorState.lastError, vm->errorState.firstError;
  ensures [inv] ctx_ok(vm);
  ensures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) && \root(p) != \old(stk(vm)->values) ==> \alive(p);
  exsures [inv] ctx_ok(vm);
  exsures [flag] vm->errorState.allocationFailure == 1;
  ensures [kept] \old(stk(vm)->size) >= 2 ==> (forall integer i; {stk(vm)->values[i].type} 0 <= i && i < \old(stk(vm)->size) - 2 ==> \val(stk(vm)->values + i) == \old(\val(stk(vm)->values + i)));
  ensures [underflow] \old(stk(vm)->size) < 2 ==> errors(vm);
  ensures [ints] \old(stk(vm)->size) >= 2 && \old(opa(vm)->type) == NK_VALUETYPE_INT && \old(opb(vm)->type) != NK_VALUETYPE_NIL && \old(isnum(opb(vm))) ==> stk(vm)->size == \old(stk(vm)->size) - 1 && stk(vm)->values[\old(stk(vm)->size) - 2].type == NK_VALUETYPE_INT && stk(vm)->values[\old(stk(vm)->size) - 2].intData == (\old(opa(vm)->intData) != \old(toint(opb(vm))) ? 1 : 0) && vm->errorState.firstError == \old(vm->errorState.firstError);
  ensures [floats] \old(stk(vm)->size) >= 2 && \old(opa(vm)->type) == NK_VALUETYPE_FLOAT && (\old(opb(vm)->type) == NK_VALUETYPE_INT || \old(opb(vm)->type) == NK_VALUETYPE_FLOAT) ==> stk(vm)->size == \old(stk(vm)->size) - 1 && stk(vm)->values[\old(stk(vm)->size) - 2].type == NK_VALUETYPE_INT && stk(vm)->values[\old(stk(vm)->size) - 2].intData == (!(\f_eq(\old(opa(vm)->floatData), \old(tofloat(opb(vm)))) && !\f_lt(\old(tofloat(opb(vm))), \old(opa(vm)->floatData))) ? 1 : 0) && vm->errorState.firstError == \old(vm->errorState.firstError);
  ensures [nil] \old(stk(vm)->size) >= 2 && \old(opa(vm)->type) == NK_VALUETYPE_NIL && \old(opb(vm)->type) == NK_VALUETYPE_NIL ==> stk(vm)->size == \old(stk(vm)->size) - 1 && stk(vm)->values[\old(stk(vm)->size) - 2].type == NK_VALUETYPE_INT && stk(vm)->values[\old(stk(vm)->size) - 2].intData == 0;
  ensures [nil1] \old(stk(vm)->size) >= 2 && \old(opa(vm)->type) == NK_VALUETYPE_NIL && \old(opb(vm)->type) != NK_VALUETYPE_NIL ==> stk(vm)->size == \old(stk(vm)->size) - 1 && stk(vm)->values[\old(stk(vm)->size) - 2].type == NK_VALUETYPE_INT && stk(vm)->values[\old(stk(vm)->size) - 2].intData == 1;
  ensures [nil2] \old(stk(vm)->size) >= 2 && \old(opa(vm)->type) != NK_VALUETYPE_NIL && \old(opb(vm)->type) == NK_VALUETYPE_NIL ==> stk(vm)->size == \old(stk(vm)->size) - 1 && stk(vm)->values[\old(stk(vm)->size) - 2].type == NK_VALUETYPE_INT && stk(vm)->values[\old(stk(vm)->size) - 2].intData == 1;
}
contract nkiOpcode_eqsametype {
  opt literals;
  requires vmok(vm) && ctx_ok(vm);
  assigns stk(vm)->values, stk(vm)->size, stk(vm)->capacity, stk(vm)->indexMask, \free(stk(vm)->values), stk(vm)->values[*],
     vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure, vm->errorState.lastError, vm->errorState.firstError;
  ensures [inv] ctx_ok(vm);
  ensures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) && \root(p) != \old(stk(vm)->values) ==> \alive(p);
  exsures [inv] ctx_ok(vm);
  exsures [flag] vm->errorState.allocationFailure == 1;
  ensures [kept] \old(stk(vm)->size) >= 2 ==> (forall integer i; {stk(vm)->values[i].type} 0 <= i && i < \old(stk(vm)->size) - 2 ==> \val(stk(vm)->values + i) == \old(\val(stk(vm)->values + i)));
  ensures [underflow] \old(stk(vm)->size) < 2 ==> errors(vm);
  ensures [ints] \old(stk(vm)->size) >= 2 && \old(opa(vm)->type) == NK_VALUETYPE_INT && \old(opb(vm)->type) != NK_VALUETYPE_NIL && \old(isnum(opb(vm))) && \old(opa(vm)->type) == \old(opb(vm)->type) ==> stk(vm)->size == \old(stk(vm)->size) - 1 && stk(vm)->values[\old(stk(vm)->size) - 2].type == NK_VALUETYPE_INT && stk(vm)->values[\old(stk(vm)->size) - 2].intData == (\old(opa(vm)->intData) == \old(toint(opb(vm))) ? 1 : 0) && vm->errorState.firstError == \old(vm->errorState.firstError);
  ensures [floats] \old(stk(vm)->size) >= 2 && \old(opa(vm)->type) == NK_VALUETYPE_FLOAT && (\old(opb(vm)->type) == NK_VALUETYPE_INT || \old(opb(vm)->type) == NK_VALUETYPE_FLOAT) && \old(opa(vm)->type) == \old(opb(vm)->type) ==> stk(vm)->size == \old(stk(vm)->size) - 1 && stk(vm)->values[\old(stk(vm)->size) - 2].type == NK_VALUETYPE_INT && stk(vm)->values[\old(stk(vm)->size) - 2].intData == (\f_eq(\old(opa(vm)->floatData), \old(tofloat(opb(vm)))) && !\f_lt(\old(tofloat(opb(vm))), \old(opa(vm)->floatData)) ? 1 : 0) && vm->errorState.firstError == \old(vm->errorState.firstError);
  ensures [nil] \old(stk(vm)->size) >= 2 && \old(opa(vm)->type) == NK_VALUETYPE_NIL && \old(opb(vm)->type) == NK_VALUETYPE_NIL ==> stk(vm)->size == \old(stk(vm)->size) - 1 && stk(vm)->values[\old(stk(vm)->size) - 2].type == NK_VALUETYPE_INT && stk(vm)->values[\old(stk(vm)->size) - 2].intData == 1;
  ensures [types] \old(stk(vm)->size) >= 2 && \old(opa(vm)->type) != \old(opb(vm)->type) ==> stk(vm)->size == \old(stk(vm)->size) - 1 && stk(vm)->values[\old(stk(vm)->size) - 2].type == NK_VALUETYPE_INT && stk(vm)->values[\old(stk(vm)->size) - 2].intData == 0 && vm->errorState.firstError == \old(vm->errorState.firstError);
}
