// Values of any content, as a program (or a loaded snapshot) may hold them: conversions and comparison.
// strings: what is known of a looked-up text (proved in string.spec for a well-formed table)
pred textp(const char *p) = p == NULL || cstr(p);
extern contract nkiVmStringTableGetStringById(struct NKVMTable *table, unsigned int index) : const char * {
  requires [table] \valid(table);
  nothrow; assigns \nothing; writes \nothing;
  ensures [text] textp(\result);
}
extern contract nkiVmStringTableFindOrAddString(struct NKVM *vm, const char *str) : unsigned int {
  requires \valid(vm) && textp(str);
  writes $alive, $born, NKVM.currentMemoryUsage, NKVM.peakMemoryUsage, NKErrorState.allocationFailure, NKErrorState.lastError, NKErrorState.firstError, NKDynString.data;
  throws;
  assigns vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure, vm->errorState.lastError, vm->errorState.firstError;
  ensures forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
  ensures \old(vm->errorState.firstError) != NULL ==> vm->errorState.firstError != NULL;
  exsures forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
  exsures vm->errorState.allocationFailure == 1;
}
// text buffers (proved in dynstr.spec)
pred ds_ok(struct NKVM *vm, struct NKDynString *d) = \isblock(d) && \valid(d) && \rtype(d, struct NKDynString) && d->vm == vm && d->data != NULL && cstr(d->data) && \isblock(d->data) && d->data != d && d->data != vm && d != vm;
extern contract nkiDynStrCreate(struct NKVM *vm, const char *str) : struct NKDynString * {
  opt alloc;
  requires \valid(vm) && textp(str);
  writes $alive, $born, NKVM.currentMemoryUsage, NKVM.peakMemoryUsage, NKErrorState.allocationFailure;
  throws;
  assigns vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure;
  ensures [made] \fresh(\result) && ds_ok(vm, \result) && \fresh(\result->data) && \result->data != \result;
  ensures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
  exsures [flag] vm->errorState.allocationFailure == 1;
  exsures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
}
extern contract nkiDynStrAppend(struct NKDynString *d, const char *str) {
  opt alloc;
  requires ds_ok(d->vm, d) && \valid(d->vm) && textp(str);
  writes $alive, $born, NKVM.currentMemoryUsage, NKVM.peakMemoryUsage, NKErrorState.allocationFailure, NKErrorState.lastError, NKErrorState.firstError, NKDynString.data;
  throws;
  assigns d->data, \free(d->data), d->vm->currentMemoryUsage, d->vm->peakMemoryUsage, d->vm->errorState.allocationFailure, d->vm->errorState.lastError, d->vm->errorState.firstError;
  ensures [ok] ds_ok(\old(d->vm), d) && \fresh(d->data);
  ensures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) && \root(p) != \old(d->data) ==> \alive(p);
  ensures [err] \old(d->vm->errorState.firstError) != NULL ==> d->vm->errorState.firstError != NULL;
  exsures [flag] \old(d->vm)->errorState.allocationFailure == 1;
  exsures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
}
extern contract nkiDynStrAppendInt32(struct NKDynString *d, int value) {
  opt alloc;
  requires ds_ok(d->vm, d) && \valid(d->vm) && 0 == 0;
  writes $alive, $born, NKVM.currentMemoryUsage, NKVM.peakMemoryUsage, NKErrorState.allocationFailure, NKErrorState.lastError, NKErrorState.firstError, NKDynString.data;
  throws;
  assigns d->data, \free(d->data), d->vm->currentMemoryUsage, d->vm->peakMemoryUsage, d->vm->errorState.allocationFailure, d->vm->errorState.lastError, d->vm->errorState.firstError;
  ensures [ok] ds_ok(\old(d->vm), d) && \fresh(d->data);
  ensures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) && \root(p) != \old(d->data) ==> \alive(p);
  ensures [err] \old(d->vm->errorState.firstError) != NULL ==> d->vm->errorState.firstError != NULL;
  exsures [flag] \old(d->vm)->errorState.allocationFailure == 1;
  exsures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
}
extern contract nkiDynStrAppendUint32(struct NKDynString *d, unsigned int value) {
  opt alloc;
  requires ds_ok(d->vm, d) && \valid(d->vm) && 0 == 0;
  writes $alive, $born, NKVM.currentMemoryUsage, NKVM.peakMemoryUsage, NKErrorState.allocationFailure, NKErrorState.lastError, NKErrorState.firstError, NKDynString.data;
  throws;
  assigns d->data, \free(d->data), d->vm->currentMemoryUsage, d->vm->peakMemoryUsage, d->vm->errorState.allocationFailure, d->vm->errorState.lastError, d->vm->errorState.firstError;
  ensures [ok] ds_ok(\old(d->vm), d) && \fresh(d->data);
  ensures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) && \root(p) != \old(d->data) ==> \alive(p);
  ensures [err] \old(d->vm->errorState.firstError) != NULL ==> d->vm->errorState.firstError != NULL;
  exsures [flag] \old(d->vm)->errorState.allocationFailure == 1;
  exsures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
}
extern contract nkiDynStrAppendFloat(struct NKDynString *d, float value) {
  opt alloc;
  requires ds_ok(d->vm, d) && \valid(d->vm) && 0 == 0;
  writes $alive, $born, NKVM.currentMemoryUsage, NKVM.peakMemoryUsage, NKErrorState.allocationFailure, NKErrorState.lastError, NKErrorState.firstError, NKDynString.data;
  throws;
  assigns d->data, \free(d->data), d->vm->currentMemoryUsage, d->vm->peakMemoryUsage, d->vm->errorState.allocationFailure, d->vm->errorState.lastError, d->vm->errorState.firstError;
  ensures [ok] ds_ok(\old(d->vm), d) && \fresh(d->data);
  ensures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) && \root(p) != \old(d->data) ==> \alive(p);
  ensures [err] \old(d->vm->errorState.firstError) != NULL ==> d->vm->errorState.firstError != NULL;
  exsures [flag] \old(d->vm)->errorState.allocationFailure == 1;
  exsures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
}
extern contract nkiDynStrDelete(struct NKDynString *d) {
  requires ds_ok(d->vm, d) && \valid(d->vm);
  writes $alive, NKVM.currentMemoryUsage;
  nothrow;
  assigns d->vm->currentMemoryUsage, \free(d->data), \free(d);
  ensures [alive] forall ptr p; {\alive(p)} \alive(p) <==> \old(\alive(p)) && \root(p) != d && \root(p) != \old(d->data);
}
// libc
extern contract atol(const char *s) : long { requires [text] cstr(s); nothrow; assigns \nothing; writes \nothing; }
extern contract atof(const char *s) : double { requires [text] cstr(s); nothrow; assigns \nothing; writes \nothing; }
contract nkiValueTypeGetName {
  opt literals;
  nothrow; assigns \nothing; writes \nothing;
  ensures [text] cstr(\result);
}
axiom fits: forall float x; {\f_fits_i32(x)} \f_fits_i32(x) <==> \f_le(\f_neg_float(\f_lit(2147483648)), x) && \f_lt(x, \f_lit(2147483648));
axiom fits_range: forall float x; {\f_to_int(x)} \f_fits_i32(x) ==> 0 - 2147483648 <= \f_to_int(x) && \f_to_int(x) <= 2147483647;
// what a value is as an integer: numbers by truncation (the lowest integer when it does not fit), objects 1, nil 0
pred isnum(struct NKValue *v) = v->type == NK_VALUETYPE_INT || v->type == NK_VALUETYPE_FLOAT || v->type == NK_VALUETYPE_OBJECTID || v->type == NK_VALUETYPE_NIL;
pred badint(struct NKValue *v) = v->type != NK_VALUETYPE_INT && v->type != NK_VALUETYPE_FLOAT && v->type != NK_VALUETYPE_STRING && v->type != NK_VALUETYPE_OBJECTID && v->type != NK_VALUETYPE_NIL;
pred badfloat(struct NKValue *v) = v->type != NK_VALUETYPE_INT && v->type != NK_VALUETYPE_FLOAT && v->type != NK_VALUETYPE_STRING && v->type != NK_VALUETYPE_NIL;
fun integer toint(struct NKValue *v) = v->type == NK_VALUETYPE_INT ? v->intData : v->type == NK_VALUETYPE_FLOAT ? (\f_fits_i32(v->floatData) ? \f_to_int(v->floatData) : 0 - 2147483648) : v->type == NK_VALUETYPE_OBJECTID ? 1 : 0;
fun float tofloat(struct NKValue *v) = v->type == NK_VALUETYPE_INT ? \f_of_int_float(v->intData) : v->type == NK_VALUETYPE_FLOAT ? v->floatData : \f_zero();
contract nkiValueToInt {
  opt literals;
  requires vmok(vm) && \valid(value);
  assigns vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure, vm->errorState.lastError, vm->errorState.firstError;
  writes $alive, $born, NKVM.currentMemoryUsage, NKVM.peakMemoryUsage, NKErrorState.allocationFailure, NKErrorState.lastError, NKErrorState.firstError, NKDynString.data;
  ensures [number] \old(isnum(value)) ==> \result == \old(toint(value)) && vm->errorState.firstError == \old(vm->errorState.firstError);
  ensures [bad] \old(badint(value)) ==> \result == 0 && vm->errorState.firstError != NULL;
  ensures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
  ensures [err] \old(vm->errorState.firstError) != NULL ==> vm->errorState.firstError != NULL;
  exsures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
  exsures [flag] vm->errorState.allocationFailure == 1;
}
contract nkiValueToFloat {
  opt literals;
  requires vmok(vm) && \valid(value);
  assigns vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure, vm->errorState.lastError, vm->errorState.firstError;
  writes $alive, $born, NKVM.currentMemoryUsage, NKVM.peakMemoryUsage, NKErrorState.allocationFailure, NKErrorState.lastError, NKErrorState.firstError, NKDynString.data;
  ensures [number] \old(value->type) == NK_VALUETYPE_INT || \old(value->type) == NK_VALUETYPE_FLOAT || \old(value->type) == NK_VALUETYPE_NIL ==> \result == \old(tofloat(value)) && vm->errorState.firstError == \old(vm->errorState.firstError);
  ensures [bad] \old(badfloat(value)) ==> vm->errorState.firstError != NULL;
  ensures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
  ensures [err] \old(vm->errorState.firstError) != NULL ==> vm->errorState.firstError != NULL;
  exsures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
  exsures [flag] vm->errorState.allocationFailure == 1;
}
contract nkiValueToString {
  opt literals;
  requires vmok(vm) && \valid(value);
  assigns vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure, vm->errorState.lastError, vm->errorState.firstError;
  writes $alive, $born, NKVM.currentMemoryUsage, NKVM.peakMemoryUsage, NKErrorState.allocationFailure, NKErrorState.lastError, NKErrorState.firstError, NKDynString.data;
  ensures [text] textp(\result);
  ensures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
  ensures [err] \old(vm->errorState.firstError) != NULL ==> vm->errorState.firstError != NULL;
  exsures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
  exsures [flag] vm->errorState.allocationFailure == 1;
}
extern contract nkiValueHash(struct NKVM *vm, struct NKValue *value) : unsigned int { requires \valid(vm) && \valid(value); nothrow; assigns \nothing; writes \nothing; }
contract nkiValueCompare {
  opt literals;
  requires vmok(vm) && \valid(in1) && \valid(in2);
  assigns vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure, vm->errorState.lastError, vm->errorState.firstError;
  writes $alive, $born, NKVM.currentMemoryUsage, NKVM.peakMemoryUsage, NKErrorState.allocationFailure, NKErrorState.lastError, NKErrorState.firstError, NKDynString.data;
  ensures [ints] \old(in1->type) == NK_VALUETYPE_INT && \old(in2->type) != NK_VALUETYPE_NIL && \old(isnum(in2)) && (strictType == 0 || \old(in1->type) == \old(in2->type)) ==>
     \result == (\old(in1->intData) > \old(toint(in2)) ? 1 : \old(in1->intData) == \old(toint(in2)) ? 0 : 0 - 1) && vm->errorState.firstError == \old(vm->errorState.firstError);
  ensures [floats] \old(in1->type) == NK_VALUETYPE_FLOAT && (\old(in2->type) == NK_VALUETYPE_INT || \old(in2->type) == NK_VALUETYPE_FLOAT) && (strictType == 0 || \old(in1->type) == \old(in2->type)) ==>
     \result == (\f_lt(\old(tofloat(in2)), \old(in1->floatData)) ? 1 : \f_eq(\old(in1->floatData), \old(tofloat(in2))) ? 0 : 0 - 1) && vm->errorState.firstError == \old(vm->errorState.firstError);
  ensures [nil] strictType == 0 && \old(in1->type) == NK_VALUETYPE_NIL ==> \result == (\old(in2->type) == NK_VALUETYPE_NIL ? 0 : 1);
  ensures [nil2] strictType == 0 && \old(in1->type) != NK_VALUETYPE_NIL && \old(in2->type) == NK_VALUETYPE_NIL ==> \result == 0 - 1;
  ensures [ids] \old(in1->type) == \old(in2->type) && (\old(in1->type) == NK_VALUETYPE_FUNCTIONID || \old(in1->type) == NK_VALUETYPE_OBJECTID) ==> (\result == 0 <==> \old(\raw(in1)) == \old(\raw(in2)));
  ensures [sign] \old(in1->type) <= NK_VALUETYPE_NIL ==> \result == 0 || \result == 1 || \result == 0 - 1;
  ensures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
  ensures [err] \old(vm->errorState.firstError) != NULL ==> vm->errorState.firstError != NULL;
  exsures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
  exsures [flag] vm->errorState.allocationFailure == 1;
}
extern contract nkiStrcmp(const char *a, const char *b) : int { requires [texts] cstr(a) && cstr(b); nothrow; assigns \nothing; writes \nothing; ensures [sign] \result == 0 || \result == 1 || \result == 0 - 1; }
