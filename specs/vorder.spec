// The comparison is an order: what the contracts of nkiValueCompare promise adds up.
lemma tless_irreflexive: forall imap a; {slen(a)} is_str(a) ==> !tless(a, a);
lemma tless_asymmetric: forall imap a, imap b; {tless(a, b)} is_str(a) && is_str(b) && tless(a, b) ==> !tless(b, a);
lemma tless_transitive: forall imap a, imap b, imap c; {tless(a, b), tless(b, c)} is_str(a) && is_str(b) && is_str(c) && tless(a, b) && tless(b, c) ==> tless(a, c);
lemma tless_excludes_equal: forall imap a, imap b; {tless(a, b)} is_str(a) && is_str(b) && tless(a, b) ==> txt(a) != txt(b);
axiom flt_trans: forall float x, float y, float z; {\f_lt(x, y), \f_lt(y, z)} \f_lt(x, y) && \f_lt(y, z) ==> \f_lt(x, z);
// keys that name the same thing hash alike
pred isval(struct NKValue *a) = \raw(a) >= 0;
lemma same_hash: forall struct NKVM *vm, struct NKValue *a, struct NKValue *b; {vhash(vm, a), vhash(vm, b)} samekey(a, b) ==> vhash(vm, a) == vhash(vm, b);
lemma same_refl: forall struct NKVM *vm, struct NKValue *a; (a->type == NK_VALUETYPE_FLOAT ==> \f_eq(\f32_of_bits(\raw(a)), \f32_of_bits(\raw(a)))) ==> samekey(a, a);
lemma same_sym: forall struct NKVM *vm, struct NKValue *a, struct NKValue *b; samekey(a, b) ==> samekey(b, a);
lemma same_trans: forall struct NKVM *vm, struct NKValue *a, struct NKValue *b, struct NKValue *c; samekey(a, b) && samekey(b, c) ==> samekey(a, c);
