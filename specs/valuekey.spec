// Values as keys: which two name the same thing, and that they hash alike.
axiom feq_sym: forall float x, float y; {\f_eq(x, y)} \f_eq(x, y) ==> \f_eq(y, x);
axiom feq_trans: forall float x, float y, float z; {\f_eq(x, y), \f_eq(y, z)} \f_eq(x, y) && \f_eq(y, z) ==> \f_eq(x, z);
axiom flt_strict: forall float x, float y; {\f_lt(x, y)} \f_lt(x, y) ==> !\f_eq(x, y) && !\f_lt(y, x) && !\f_eq(y, x);
// two numbers that compare equal have the same bits, unless both are zeros
axiom feq_bits: forall integer b, integer c; {\f_eq(\f32_of_bits(b), \f32_of_bits(c))} \f_eq(\f32_of_bits(b), \f32_of_bits(c)) ==> b == c || \f_eq(\f32_of_bits(b), \f_zero()) && \f_eq(\f32_of_bits(c), \f_zero());
// a value a program can hold: a proper type, and a text that is there
pred keyok(struct NKVM *vm, struct NKValue *v) = v->type <= NK_VALUETYPE_NIL && (v->type == NK_VALUETYPE_STRING ==> \raw(v) < vm->stringTable.capacity && vm->stringTable.stringTable[\raw(v)] != NULL);
pred samekey(struct NKValue *a, struct NKValue *b) = a->type == b->type && (a->type == NK_VALUETYPE_NIL || (a->type == NK_VALUETYPE_FLOAT ? \f_eq(\f32_of_bits(\raw(a)), \f32_of_bits(\raw(b))) : \raw(a) == \raw(b)));
fun integer vhash(struct NKVM *vm, struct NKValue *v) =
  v->type == NK_VALUETYPE_FLOAT ? (\f_eq(\f32_of_bits(\raw(v)), \f_zero()) ? 0 : \raw(v)) :
  v->type == NK_VALUETYPE_STRING ? vm->stringTable.stringTable[\raw(v)]->hash :
  v->type == NK_VALUETYPE_NIL ? 0 : \raw(v);
contract nkiValueCompare {
  opt prune;
  requires [strict] strictType != 0;
  requires vm_(vm) && strings_ok(vm) && \valid(in1) && \valid(in2) && keyok(vm, in1) && keyok(vm, in2);
  nothrow; assigns \nothing; writes \nothing;
  ensures [equal] \result == 0 <==> samekey(in1, in2);
  ensures [sign] \result == 0 || \result == 1 || \result == -1;
  ensures [types] in1->type < in2->type ==> \result == -1;
  ensures [types2] in1->type > in2->type ==> \result == 1;
  ensures [ints] in1->type == NK_VALUETYPE_INT && in2->type == NK_VALUETYPE_INT ==> (\result == -1 <==> in1->intData < in2->intData) && (\result == 1 <==> in1->intData > in2->intData);
  ensures [ids] in1->type == in2->type && (in1->type == NK_VALUETYPE_FUNCTIONID || in1->type == NK_VALUETYPE_OBJECTID) ==> (\result == -1 <==> \raw(in1) < \raw(in2)) && (\result == 1 <==> \raw(in1) > \raw(in2));
  ensures [floats] in1->type == NK_VALUETYPE_FLOAT && in2->type == NK_VALUETYPE_FLOAT ==> (\result == 1 <==> \f_lt(\f32_of_bits(\raw(in2)), \f32_of_bits(\raw(in1))));
  ensures [texts] in1->type == NK_VALUETYPE_STRING && in2->type == NK_VALUETYPE_STRING ==> (\result == -1 <==> tless(\chars(vm->stringTable.stringTable[\raw(in1)]->str), \chars(vm->stringTable.stringTable[\raw(in2)]->str))) && (\result == 1 <==> tless(\chars(vm->stringTable.stringTable[\raw(in2)]->str), \chars(vm->stringTable.stringTable[\raw(in1)]->str)));
}
// a text comes before another when, at the first place where they differ, it has the smaller character
logic bool tless(imap m, imap k);
axiom tless_def: forall imap m, imap k; {tless(m, k)} tless(m, k) <==> (exists integer i; 0 <= i && i <= slen(m) && i <= slen(k) && m[i] < k[i] && (forall integer j; {m[j]} {k[j]} 0 <= j && j < i ==> m[j] == k[j]));
contract nkiValueHash {
  requires vm_(vm) && strings_ok(vm) && \valid(value) && keyok(vm, value);
  nothrow; assigns \nothing; writes \nothing;
  ensures [hash] \result == vhash(vm, value);
}
