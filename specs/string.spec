// nkstring.c: the string table.  A stored text is found through its hash bucket and through its id.
ghost field struct NKVMString own : ptr;          // the machine whose table it was entered into
ghost field struct NKVMString pos : integer;      // decreases along a bucket's chain
ghost field struct NKVMString text : integer;     // which text it stores
logic integer ha(imap m, integer i);
logic integer hb(imap m, integer i);
logic integer shash(imap m);
logic integer hashtxt(integer t);
axiom ha0: forall imap m, integer i; {ha(m, i)} i == 0 ==> ha(m, i) == 1;
axiom hb0: forall imap m, integer i; {hb(m, i)} i == 0 ==> hb(m, i) == 0;
axiom ha1: forall imap m, integer i; {ha(m, i), m[i]} {hb(m, i), m[i]} i >= 0 ==> ha(m, i + 1) == \u32(ha(m, i) + \u32(m[i])) % 65521 && hb(m, i + 1) == (hb(m, i) + ha(m, i + 1)) % 65521 && 0 <= ha(m, i) && 0 <= hb(m, i);
axiom shash_def: forall imap m; {shash(m)} shash(m) == \bor((hb(m, slen(m)) * 65536) % 4294967296, ha(m, slen(m)));
// unfold(n) only exists to ask for one step backwards
logic integer unfold(integer n);
axiom unfold0: forall integer n; {unfold(n)} unfold(n) == 0;
lemma ha_back: forall imap m, integer n; {ha(m, n), unfold(n)} n > 0 ==> ha(m, n) == \u32(ha(m, n - 1) + \u32(m[n - 1])) % 65521 && hb(m, n) == (hb(m, n - 1) + ha(m, n)) % 65521;
// equal texts hash equally, so hashtxt is well defined
lemma ha_same: forall imap m, imap k, integer n; {ha(m, n), ha(k, n)} 0 <= n && unfold(n) == 0 && (forall integer i; {m[i]} {k[i]} 0 <= i && i < n ==> m[i] == k[i]) ==> ha(m, n) == ha(k, n) && hb(m, n) == hb(k, n) induction n;
lemma shash_same: forall imap m, imap k; {shash(m), shash(k)} is_str(m) && is_str(k) && txt(m) == txt(k) ==> shash(m) == shash(k);
axiom hashtxt_def: forall imap m; {shash(m)} is_str(m) ==> hashtxt(txt(m)) == shash(m);

pred vm_(struct NKVM *vm) = \valid(vm) && \rtype(vm, struct NKVM);
pred mem(struct NKVM *vm, struct NKVMString *s) = s->own == vm && \alive(s);
// the bucket a hash belongs to; bkdef only exists so that its definition is used where the code computes it
logic integer bkt(integer h);
logic integer bkdef(integer h);
axiom bkt_range: forall integer h; {bkt(h)} 0 <= bkt(h) && bkt(h) < 256;
axiom bkt_def: forall integer h; {bkdef(h)} bkdef(h) == 0 && bkt(h) == (h & 255);
fun integer bucket(struct NKVMString *s) = bkt(s->hash);

pred stored(struct NKVMString *s) = \isblock(s) && \bsize(s) == 33 + len(s->str) && cstr(s->str) && s->text == text(s->str) && s->hash == hashtxt(s->text) && s->pos >= 0;
pred chains(struct NKVM *vm) =
  (forall struct NKVMString *s; {s->own} mem(vm, s) ==> stored(s) && vm->stringsByHash[bucket(s)] != NULL && s->pos <= vm->stringsByHash[bucket(s)]->pos) &&
  (forall struct NKVMString *s; {s->nextInHashBucket} mem(vm, s) && s->nextInHashBucket != NULL ==> mem(vm, s->nextInHashBucket) && bucket(s->nextInHashBucket) == bucket(s) && s->nextInHashBucket->pos < s->pos) &&
  (forall struct NKVMString *s, *t; {s->own, t->own} mem(vm, s) && mem(vm, t) && bucket(s) == bucket(t) && t->pos < s->pos ==> s->nextInHashBucket != NULL && t->pos <= s->nextInHashBucket->pos) &&
  (forall struct NKVMString *s, *t; {s->own, t->own} mem(vm, s) && mem(vm, t) && bucket(s) == bucket(t) && s->pos == t->pos ==> s == t) &&
  (forall integer b; {vm->stringsByHash[b]} 0 <= b && b < 256 && vm->stringsByHash[b] != NULL ==> mem(vm, vm->stringsByHash[b]) && bucket(vm->stringsByHash[b]) == b);
pred unique(struct NKVM *vm) = forall struct NKVMString *s, *t; {s->text, t->text} mem(vm, s) && mem(vm, t) && s->text == t->text ==> s == t;
pred slots(struct NKVM *vm) =
  (forall struct NKVMString *s; {s->own} mem(vm, s) ==> s->stringTableIndex < vm->stringTable.capacity && vm->stringTable.stringTable[s->stringTableIndex] == s) &&
  (forall integer i; {vm->stringTable.stringTable[i]} 0 <= i && i < vm->stringTable.capacity && vm->stringTable.stringTable[i] != NULL ==> mem(vm, vm->stringTable.stringTable[i]) && vm->stringTable.stringTable[i]->stringTableIndex == i);
// nothing that is still unallocated counts as entered
pred known(struct NKVM *vm) = forall struct NKVMString *s; {s->own} s->own == vm ==> \born(s);
pred strings_ok(struct NKVM *vm) = vm_(vm) && known(vm) && table_ok(&vm->stringTable) && chains(vm) && unique(vm) && slots(vm);
pred keep(struct NKVMString *s, integer pass) = s->lastGCPass == pass || s->dontGC != 0;

contract nkiStringHash {
  requires cstr(in);
  nothrow; assigns \nothing; writes \nothing;
  ensures [function] \result == shash(\chars(in));
  loop 0 { invariant i <= len && a == ha(\chars(in), i) && b == hb(\chars(in), i) && len == len(in); variant len - i; }
}
contract nkiVmStringTableGetEntryById {
  requires \valid(table) && slots_ok(table);
  nothrow; assigns \nothing; writes \nothing;
  ensures [inside] index < table->capacity ==> \result == table->stringTable[index];
  ensures [outside] index >= table->capacity ==> \result == NULL;
}
contract nkiVmStringTableGetStringById {
  requires \valid(table) && slots_ok(table);
  requires [live] forall integer i; {table->stringTable[i]} 0 <= i && i < table->capacity && table->stringTable[i] != NULL ==> \valid(table->stringTable[i]);
  nothrow; assigns \nothing; writes \nothing;
  ensures [issued] index < table->capacity && table->stringTable[index] != NULL ==> \result == table->stringTable[index]->str;
  ensures [unknown] index >= table->capacity || table->stringTable[index] == NULL ==> \result == NULL;
}
contract nkiVmStringTableFindOrAddString {
  requires strings_ok(vm) && cstr(str) && vm->catastrophicFailureJmpBuf != NULL;
  // the text may live anywhere except in the table's own bookkeeping
  requires [apart] \root(str) != vm->stringTable.stringTable && !\rtype(str, struct NKVMTableHole);
  assigns vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure, vm->errorState.firstError, vm->errorState.lastError,
     vm->stringTable, vm->stringTable.nholes, vm->stringTable.at, vm->stringTable.stringTable[*], \free(vm->stringTable.stringTable), \free(vm->stringTable.tableHoles), vm->stringTable.tableHoles->owner,
     vm->stringsByHash[shash(\chars(str)) & 255];
  ghost_exit {
    if(\result != 0xffffffff && vm->stringTable.stringTable[\result]->own != vm) {
      assert forall struct NKVMString *s; {s->own} \old(mem(vm, s)) ==> text(s->str) == \old(text(s->str)) && len(s->str) == \old(len(s->str)) && is_str(\chars(s->str));
      assert forall struct NKVMString *s; {s->own} \old(mem(vm, s)) ==> stored(s);
      vm->stringTable.stringTable[\result]->text := text(str);
      vm->stringTable.stringTable[\result]->pos := vm->stringTable.stringTable[\result]->nextInHashBucket == NULL ? 0 : vm->stringTable.stringTable[\result]->nextInHashBucket->pos + 1;
      vm->stringTable.stringTable[\result]->own := vm;
    }
  }
  ensures [id] \result != 0xffffffff ==> \result < vm->stringTable.capacity && vm->stringTable.stringTable[\result] != NULL;
  ensures [exact] \result != 0xffffffff ==> vm->stringTable.stringTable[\result]->text == text(str) && text(vm->stringTable.stringTable[\result]->str) == text(str) && mem(vm, vm->stringTable.stringTable[\result]);
  ensures [kept] forall struct NKVMString *s; {s->own} \old(mem(vm, s)) ==> mem(vm, s) && s->text == \old(s->text) && s->stringTableIndex == \old(s->stringTableIndex) && s->lastGCPass == \old(s->lastGCPass) && s->dontGC == \old(s->dontGC);
  ensures [same] forall struct NKVMString *s; {s->own} \old(mem(vm, s)) && s->text == text(str) ==> \result == s->stringTableIndex;
  ensures [one] forall struct NKVMString *s; {s->own} mem(vm, s) && !\old(mem(vm, s)) ==> \result != 0xffffffff && s == vm->stringTable.stringTable[\result];
  ensures [known] known(vm);
  ensures [table] table_ok(&vm->stringTable);
  ensures [chains] chains(vm);
  ensures [unique] unique(vm);
  ensures [slots] slots(vm);
  exsures [chains] known(vm) && chains(vm) && unique(vm);
  loop 0 {
    invariant hash == hashtxt(text(str)) && bkdef(hash) == 0 && hashBucket == vm->stringsByHash[bkt(hash)];
    invariant cur == NULL || mem(vm, cur) && bucket(cur) == bkt(hash);
    invariant forall struct NKVMString *s; {s->own} mem(vm, s) && bucket(s) == bkt(hash) && (cur == NULL || s->pos > cur->pos) ==> s->text != text(str);
    variant cur == NULL ? 0 : cur->pos + 1;
  }
}
fun struct NKVMString *vstr(struct NKVM *vm, struct NKValue *v) = v->type == NK_VALUETYPE_STRING && \raw(v) < vm->stringTable.capacity ? vm->stringTable.stringTable[\raw(v)] : \as(struct NKVMString *, NULL);
contract nkiVmStringTableCleanOldStrings {
  requires strings_ok(vm);
  assigns vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure, vm->stringTable.tableHoles, vm->stringTable.nholes, vm->stringTable.at, vm->stringTable.data[*], vm->stringsByHash[*],
    {struct NKVMString *s | s->own == vm} s->nextInHashBucket, {struct NKVMString *s | s->own == vm} \free(s);
  ensures [collected] forall struct NKVMString *s; {s->own} \old(mem(vm, s)) ==> (mem(vm, s) <==> keep(s, lastGCPass));
  ensures [kept] forall struct NKVMString *s; {s->own} mem(vm, s) ==> \old(mem(vm, s)) && s->text == \old(s->text) && s->stringTableIndex == \old(s->stringTableIndex) && s->lastGCPass == \old(s->lastGCPass) && s->dontGC == \old(s->dontGC);
  ensures [slots] vm->stringTable.capacity == \old(vm->stringTable.capacity) && vm->stringTable.data == \old(vm->stringTable.data) && (forall integer j; {vm->stringTable.stringTable[j]} 0 <= j && j < vm->stringTable.capacity ==> vm->stringTable.stringTable[j] == (\old(vm->stringTable.stringTable[j]) != NULL && !keep(\old(vm->stringTable.stringTable[j]), lastGCPass) ? \as(struct NKVMString *, NULL) : \old(vm->stringTable.stringTable[j])));
  ensures [values] forall struct NKValue *v; {v->type} \old(\alive(v)) && (\old(vstr(vm, v)) == NULL || keep(\old(vstr(vm, v)), lastGCPass)) ==> vstr(vm, v) == \old(vstr(vm, v));
  ensures [others] forall ptr p; {\alive(p)} \old(\alive(p)) && \as(struct NKVMString *, \root(p))->own != vm ==> \alive(p);
  ensures [holes] forall struct NKVMTableHole *h; {h->owner} h->owner == \old(h->owner) || h->owner == &vm->stringTable && \rtype(h, struct NKVMTableHole);
  ensures [inv] strings_ok(vm);
  exsures [chains] known(vm) && chains(vm) && unique(vm);
  loop 0 {
    invariant i <= 256 && strings_ok(vm);
    invariant [array] vm->stringTable.capacity == \old(vm->stringTable.capacity) && vm->stringTable.data == \old(vm->stringTable.data);
    invariant [holes] forall struct NKVMTableHole *h; {h->owner} h->owner == \old(h->owner) || h->owner == &vm->stringTable && \rtype(h, struct NKVMTableHole);
    invariant forall struct NKVMString *s; {s->own} mem(vm, s) && bucket(s) < i ==> keep(s, lastGCPass);
    invariant forall struct NKVMString *s; {s->own} \old(mem(vm, s)) && keep(s, lastGCPass) ==> mem(vm, s);
    invariant forall struct NKVMString *s; {s->own} mem(vm, s) ==> \old(mem(vm, s)) && s->text == \old(s->text) && s->stringTableIndex == \old(s->stringTableIndex) && s->lastGCPass == \old(s->lastGCPass) && s->dontGC == \old(s->dontGC);
    variant 256 - i;
  }
  loop 1 {
    invariant i < 256 && strings_ok(vm);
    invariant [array] vm->stringTable.capacity == \old(vm->stringTable.capacity) && vm->stringTable.data == \old(vm->stringTable.data);
    invariant [holes] forall struct NKVMTableHole *h; {h->owner} h->owner == \old(h->owner) || h->owner == &vm->stringTable && \rtype(h, struct NKVMTableHole);
    invariant forall struct NKVMString *s; {s->own} mem(vm, s) && bucket(s) < i ==> keep(s, lastGCPass);
    invariant forall struct NKVMString *s; {s->own} mem(vm, s) && bucket(s) == i && (str == NULL || s->pos > str->pos) ==> keep(s, lastGCPass);
    invariant forall struct NKVMString *s; {s->own} \old(mem(vm, s)) && keep(s, lastGCPass) ==> mem(vm, s);
    invariant forall struct NKVMString *s; {s->own} mem(vm, s) ==> \old(mem(vm, s)) && s->text == \old(s->text) && s->stringTableIndex == \old(s->stringTableIndex) && s->lastGCPass == \old(s->lastGCPass) && s->dontGC == \old(s->dontGC);
    invariant str == NULL || mem(vm, str) && bucket(str) == i;
    invariant lastPtr == &vm->stringsByHash[i] || \isfield(NKVMString, nextInHashBucket, lastPtr) && mem(vm, \owner(NKVMString, nextInHashBucket, lastPtr)) && bucket(\owner(NKVMString, nextInHashBucket, lastPtr)) == i && lastPtr == &\owner(NKVMString, nextInHashBucket, lastPtr)->nextInHashBucket;
    invariant *lastPtr == str;
    variant str == NULL ? 0 : str->pos + 1;
  }
  loop 2 {
    invariant lastPtr != &vm->stringsByHash[i] ==> (forall struct NKVMString *t; {t->own} mem(vm, t) && bucket(t) == i && t->pos < \owner(NKVMString, nextInHashBucket, lastPtr)->pos ==> *lastPtr != NULL && t->pos <= (*lastPtr)->pos);
    invariant i < 256 && strings_ok(vm);
    invariant [array] vm->stringTable.capacity == \old(vm->stringTable.capacity) && vm->stringTable.data == \old(vm->stringTable.data);
    invariant [holes] forall struct NKVMTableHole *h; {h->owner} h->owner == \old(h->owner) || h->owner == &vm->stringTable && \rtype(h, struct NKVMTableHole);
    invariant forall struct NKVMString *s; {s->own} mem(vm, s) && bucket(s) < i ==> keep(s, lastGCPass);
    invariant forall struct NKVMString *s; {s->own} mem(vm, s) && bucket(s) == i && (str == NULL || s->pos > str->pos) ==> keep(s, lastGCPass);
    invariant forall struct NKVMString *s; {s->own} \old(mem(vm, s)) && keep(s, lastGCPass) ==> mem(vm, s);
    invariant forall struct NKVMString *s; {s->own} mem(vm, s) ==> \old(mem(vm, s)) && s->text == \old(s->text) && s->stringTableIndex == \old(s->stringTableIndex) && s->lastGCPass == \old(s->lastGCPass) && s->dontGC == \old(s->dontGC);
    invariant str == NULL || mem(vm, str) && bucket(str) == i;
    invariant lastPtr == &vm->stringsByHash[i] || \isfield(NKVMString, nextInHashBucket, lastPtr) && mem(vm, \owner(NKVMString, nextInHashBucket, lastPtr)) && bucket(\owner(NKVMString, nextInHashBucket, lastPtr)) == i && lastPtr == &\owner(NKVMString, nextInHashBucket, lastPtr)->nextInHashBucket;
    invariant *lastPtr == str;
    invariant str == NULL || \entry(str) != NULL && str->pos <= \entry(str->pos);
    ghost_start { assert forall struct NKVMString *s; {s->own} mem(vm, s) && str != NULL && s->nextInHashBucket == str ==> lastPtr == &s->nextInHashBucket;
       assert forall struct NKVMString *t; {t->own} str != NULL && mem(vm, t) && bucket(t) == i && t != str && t->pos <= str->pos ==> str->nextInHashBucket != NULL && t->pos <= str->nextInHashBucket->pos;
       assert str != NULL ==> (lastPtr == &vm->stringsByHash[i] <==> str == vm->stringsByHash[i]); }
    variant str == NULL ? 0 : str->pos + 1;
  }
}
contract nkiVmStringTableInit {
  requires vm_(vm) && known(vm);
  requires [none] forall struct NKVMString *s; {s->own} !mem(vm, s);
  requires [nolist] vm->stringTable.nholes == 0 && vm->stringTable.tableHoles == NULL && (forall struct NKVMTableHole *h; {h->owner} h->owner != &vm->stringTable);
  noframe;
  ensures [inv] strings_ok(vm) && vm->stringTable.capacity == 1;
}
contract nkiVmStringTableCleanAllStrings {
  requires strings_ok(vm);
  noframe;
  ensures [gone] forall struct NKVMString *s; {s->own} !mem(vm, s);
  ensures [empty] forall integer i; {vm->stringTable.stringTable[i]} 0 <= i && i < vm->stringTable.capacity ==> vm->stringTable.stringTable[i] == NULL;
  ensures [table] vm->stringTable.capacity == \old(vm->stringTable.capacity) && vm->stringTable.stringTable == \old(vm->stringTable.stringTable) && slots_ok(&vm->stringTable) && hole_list(&vm->stringTable);
  loop 0 {
    invariant i <= 256 && vm_(vm) && slots_ok(&vm->stringTable) && hole_list(&vm->stringTable) && vm->stringTable.capacity == \old(vm->stringTable.capacity) && vm->stringTable.stringTable == \old(vm->stringTable.stringTable);
    invariant forall integer b; {vm->stringsByHash[b]} 0 <= b && b < 256 ==> vm->stringsByHash[b] == \old(vm->stringsByHash[b]);
    invariant forall struct NKVMString *s; {s->nextInHashBucket} \old(mem(vm, s)) ==> s->nextInHashBucket == \old(s->nextInHashBucket);
    invariant forall struct NKVMString *s; {s->own} mem(vm, s) <==> \old(mem(vm, s)) && bucket(s) >= i;
    invariant forall struct NKVMString *s; {s->own} mem(vm, s) ==> vm->stringTable.stringTable[s->stringTableIndex] == s;
    invariant forall integer j; {vm->stringTable.stringTable[j]} 0 <= j && j < vm->stringTable.capacity && vm->stringTable.stringTable[j] != NULL ==> vm->stringTable.stringTable[j] == \old(vm->stringTable.stringTable[j]) && mem(vm, vm->stringTable.stringTable[j]);
    variant 256 - i;
  }
  loop 1 {
    invariant i < 256 && vm_(vm) && slots_ok(&vm->stringTable) && hole_list(&vm->stringTable) && vm->stringTable.capacity == \old(vm->stringTable.capacity) && vm->stringTable.stringTable == \old(vm->stringTable.stringTable);
    invariant forall integer b; {vm->stringsByHash[b]} 0 <= b && b < 256 ==> vm->stringsByHash[b] == \old(vm->stringsByHash[b]);
    invariant forall struct NKVMString *s; {s->nextInHashBucket} \old(mem(vm, s)) ==> s->nextInHashBucket == \old(s->nextInHashBucket);
    invariant str == NULL || \old(mem(vm, str)) && bucket(str) == i;
    invariant forall struct NKVMString *s; {s->own} mem(vm, s) <==> \old(mem(vm, s)) && (bucket(s) > i || bucket(s) == i && str != NULL && s->pos <= str->pos);
    invariant forall struct NKVMString *s; {s->own} mem(vm, s) ==> vm->stringTable.stringTable[s->stringTableIndex] == s;
    invariant forall integer j; {vm->stringTable.stringTable[j]} 0 <= j && j < vm->stringTable.capacity && vm->stringTable.stringTable[j] != NULL ==> vm->stringTable.stringTable[j] == \old(vm->stringTable.stringTable[j]) && mem(vm, vm->stringTable.stringTable[j]);
    variant str == NULL ? 0 : str->pos + 1;
  }
}
// what still holds after a failed allocation, and all that tearing the table down needs
pred strings_teardown(struct NKVM *vm) = vm_(vm) && hole_list(&vm->stringTable) && (vm->stringTable.stringTable == NULL || slots_ok(&vm->stringTable)) &&
  (vm->stringTable.stringTable != NULL ==>
    (forall integer i; {vm->stringTable.stringTable[i]} 0 <= i && i < vm->stringTable.capacity && vm->stringTable.stringTable[i] != NULL ==> \isblock(vm->stringTable.stringTable[i]) && \rtype(vm->stringTable.stringTable[i], struct NKVMString)) &&
    (forall integer i, j; {vm->stringTable.stringTable[i], vm->stringTable.stringTable[j]} 0 <= i && i < j && j < vm->stringTable.capacity && vm->stringTable.stringTable[i] != NULL ==> vm->stringTable.stringTable[i] != vm->stringTable.stringTable[j]));
contract nkiVmStringTableDestroy {
  requires strings_teardown(vm);
  nothrow; noframe;
  ensures [freed] \old(vm->stringTable.stringTable) != NULL ==> (forall integer i; {\old(vm->stringTable.stringTable[i])} 0 <= i && i < \old(vm->stringTable.capacity) && \old(vm->stringTable.stringTable[i]) != NULL ==> !\alive(\old(vm->stringTable.stringTable[i])));
  ensures [cleared] vm->stringTable.stringTable == NULL && vm->stringTable.capacity == 0 && (forall integer b; {vm->stringsByHash[b]} 0 <= b && b < 256 ==> vm->stringsByHash[b] == NULL);
  loop 0 {
    invariant i <= table->capacity && vm_(vm) && hole_list(&vm->stringTable) && slots_ok(&vm->stringTable) && vm->stringTable.capacity == \old(vm->stringTable.capacity) && vm->stringTable.stringTable == \old(vm->stringTable.stringTable);
    invariant forall integer j; {vm->stringTable.stringTable[j]} 0 <= j && j < i ==> vm->stringTable.stringTable[j] == NULL;
    invariant forall integer j; {vm->stringTable.stringTable[j]} i <= j && j < vm->stringTable.capacity ==> vm->stringTable.stringTable[j] == \old(vm->stringTable.stringTable[j]);
    invariant forall integer j; {\old(vm->stringTable.stringTable[j])} 0 <= j && j < vm->stringTable.capacity && \old(vm->stringTable.stringTable[j]) != NULL ==> (\alive(\old(vm->stringTable.stringTable[j])) <==> j >= i);
    variant vm->stringTable.capacity - i;
  }
}
