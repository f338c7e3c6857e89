// Slot tables (nktable.c): string table and object table share this code.
// ghost: which table a hole record belongs to, its position in the list, and the record for each empty slot
ghost field struct NKVMTableHole owner : ptr;
ghost field struct NKVMTableHole pos : integer;
ghost field struct NKVMTable nholes : integer;
ghost field struct NKVMTable at : iptr;

onwrite NKVMTable.tableHoles (t, was, now) {
  if(now != NULL && now->next == was && now->owner != t) {
    // push
    now->owner := t;
    now->pos := t->nholes;
    t->at[now->index] := now;
    t->nholes := t->nholes + 1;
  } else { if(was != NULL && was->owner == t && now == was->next) {
    // pop
    was->owner := NULL;
    t->nholes := t->nholes - 1;
  } }
}

pred slots_ok(struct NKVMTable *t) =
  1 <= t->capacity && t->capacity <= 0x80000000 && \pow2(t->capacity) &&
  \block(t->data, 8 * t->capacity) && 8 * t->capacity <= 0xffffffff;

// the records form a finite list owned by this table
pred hole_list(struct NKVMTable *t) =
  t->nholes >= 0 &&
  (t->tableHoles == NULL <==> t->nholes == 0) &&
  (t->tableHoles != NULL ==> t->tableHoles->owner == t && t->tableHoles->pos == t->nholes - 1) &&
  (forall struct NKVMTableHole *h; {h->owner} h->owner == t ==>
      \block(h, 16) && 0 <= h->pos && h->pos < t->nholes &&
      (h->next == NULL ==> h->pos == 0) &&
      (h->next != NULL ==> h->next->owner == t && h->next->pos == h->pos - 1)) &&
  (forall struct NKVMTableHole *h, *k; {h->owner, k->owner} h->owner == t && k->owner == t && h != k ==> h->pos != k->pos);

// every record on the list names a distinct empty slot
pred holes_sound(struct NKVMTable *t) = hole_list(t) &&
  (forall struct NKVMTableHole *h; {h->owner} h->owner == t ==> h->index < t->capacity && t->data[h->index] == NULL) &&
  (forall struct NKVMTableHole *h, *k; {h->owner, k->owner} h->owner == t && k->owner == t && h != k ==> h->index != k->index);

pred listed(struct NKVMTable *t, integer i) = \as(struct NKVMTableHole *, t->at[i])->owner == t && \as(struct NKVMTableHole *, t->at[i])->index == i;

// and every empty slot has a record
pred holes_complete(struct NKVMTable *t) =
  forall integer i; {t->data[i]} {t->at[i]} 0 <= i && i < t->capacity && t->data[i] == NULL ==> listed(t, i);

pred table_ok(struct NKVMTable *t) = \valid(t) && \rtype(t, struct NKVM) && slots_ok(t) && holes_sound(t) && holes_complete(t);

contract nkiTableCreateHole {
  requires \valid(vm) && \rtype(vm, struct NKVM) && \valid(table) && \rtype(table, struct NKVM) && slots_ok(table) && holes_sound(table);
  requires [empty] holeIndex < table->capacity && table->data[holeIndex] == NULL;
  requires [unlisted] forall struct NKVMTableHole *h; {h->owner} h->owner == table ==> h->index != holeIndex;
  requires [owned] \root(table) != NULL && table != NULL;
  assigns vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure, table->tableHoles, table->nholes, table->at;
  ensures [sound] slots_ok(table) && holes_sound(table);
  ensures [listed] listed(table, holeIndex) && (forall integer i; {table->at[i]} i != holeIndex ==> table->at[i] == \old(table->at[i]));
  ensures [kept] forall struct NKVMTableHole *h; {h->owner} \old(h->owner) == table ==> h->owner == table && h->index == \old(h->index);
  ensures [only] forall struct NKVMTableHole *h; {h->owner} h->owner == table && \old(h->owner) != table ==> h->index == holeIndex && \rtype(h, struct NKVMTableHole);
  ensures [elsewhere] forall struct NKVMTableHole *h; {h->owner} h->owner == \old(h->owner) || h->owner == table;
  exsures [sound] slots_ok(table) && holes_sound(table);
}
contract nkiTableEraseEntry {
  requires \valid(vm) && \rtype(vm, struct NKVM) && table_ok(table);
  requires [occupied] index < table->capacity && table->data[index] != NULL;
  assigns vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure, table->tableHoles, table->nholes, table->at, table->data[index];
  ensures [inv] table_ok(table);
  ensures [typed] forall struct NKVMTableHole *h; {h->owner} h->owner == table && \old(h->owner) != table ==> \rtype(h, struct NKVMTableHole);
  ensures [elsewhere] forall struct NKVMTableHole *h; {h->owner} h->owner == \old(h->owner) || h->owner == table;
  ensures [erased] table->data[index] == NULL && table->capacity == \old(table->capacity) && table->data == \old(table->data);
  exsures [sound] slots_ok(table) && holes_sound(table) && table->data == \old(table->data);
}
contract nkiTableAddEntry {
  requires \valid(vm) && \rtype(vm, struct NKVM) && table_ok(table) && entryData != NULL;
  assigns vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure, vm->errorState.firstError, vm->errorState.lastError,
     table->tableHoles, table->nholes, table->at, table->data, table->capacity, table->data[*], \free(table->data), \free(table->tableHoles), table->tableHoles->owner;
  ensures [full] \result == 0xffffffff ==> table_ok(table) && table->capacity == \old(table->capacity);
  ensures [inv] \result != 0xffffffff ==> table_ok(table);
  ensures [grows] table->capacity >= \old(table->capacity);
  ensures [index] \result != 0xffffffff ==> \result < table->capacity && table->data[\result] == entryData;
  ensures [was_free] \result != 0xffffffff && \result < \old(table->capacity) ==> \old(table->data[\result]) == NULL;
  ensures [others] forall integer i; 0 <= i && i < \old(table->capacity) && i != \result ==> table->data[i] == \old(table->data[i]);
  ensures [newslots] forall integer i; \old(table->capacity) <= i && i < table->capacity && i != \result ==> table->data[i] == NULL;
  exsures [sound] slots_ok(table) && holes_sound(table);
  exsures [kept] forall integer i; 0 <= i && i < \old(table->capacity) ==> table->data[i] == \old(table->data[i]);
  loop 0 {
    invariant oldCapacity - 1 <= i && i < newCapacity;
    invariant newCapacity == 2 * oldCapacity && table->capacity == newCapacity && slots_ok(table) && oldCapacity == \old(table->capacity);
    invariant \fresh(table->data) && table->nholes == 0 && table->tableHoles == NULL;
    invariant forall integer j; {table->data[j]} 0 <= j && j < oldCapacity ==> table->data[j] == \old(table->data[j]);
    invariant forall integer j; {table->data[j]} i < j && j < newCapacity ==> table->data[j] == NULL;
  }
  loop 1 {
    invariant oldCapacity <= i && i < newCapacity;
    invariant newCapacity == 2 * oldCapacity && table->capacity == newCapacity && slots_ok(table) && oldCapacity == \old(table->capacity);
    invariant \fresh(table->data) && holes_sound(table);
    invariant forall integer j; {table->data[j]} 0 <= j && j < oldCapacity ==> table->data[j] == \old(table->data[j]);
    invariant forall integer j; {table->data[j]} oldCapacity <= j && j < newCapacity ==> table->data[j] == NULL;
    invariant forall struct NKVMTableHole *h; {h->owner} h->owner == table ==> h->index > i;
    invariant forall integer j; {table->data[j]} {table->at[j]} i < j && j < newCapacity ==> listed(table, j);
  }
}
contract nkiTableInit {
  requires \valid(vm) && \rtype(vm, struct NKVM) && \valid(table) && \rtype(table, struct NKVM);
  requires [nolist] table->nholes == 0 && table->tableHoles == NULL && (forall struct NKVMTableHole *h; {h->owner} h->owner != table);
  assigns vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure, table->tableHoles, table->nholes, table->at, table->data, table->capacity;
  // the first record is filled in after it is linked
  ghost_exit { table->tableHoles->owner := table; table->tableHoles->pos := 0; table->at[0] := table->tableHoles; table->nholes := 1; }
  ensures [inv] table_ok(table) && table->capacity == 1 && table->data[0] == NULL;
}
contract nkiTableResetHoles {
  requires \valid(vm) && \rtype(vm, struct NKVM) && \valid(table) && \rtype(table, struct NKVM) && slots_ok(table);
  // the stale list may name slots that are no longer there, but it is still a list this table owns
  requires [list] hole_list(table);
  assigns vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure, table->tableHoles, table->nholes, table->at,
    {struct NKVMTableHole *h | h->owner == table} h->owner, {struct NKVMTableHole *h | h->owner == table} \free(h);
  ensures [inv] table_ok(table);
  ensures [kept] table->capacity == \old(table->capacity) && table->data == \old(table->data);
  exsures [sound] slots_ok(table) && holes_sound(table);
  loop 0 {
    invariant hole_list(table) && slots_ok(table) && \valid(table) && \valid(vm);
    invariant forall struct NKVMTableHole *h; {h->owner} h->owner == table ==> \old(h->owner) == table;
    variant table->nholes;
  }
  loop 1 {
    invariant i < table->capacity || i == 0xffffffff;
    invariant holes_sound(table) && slots_ok(table) && \valid(table) && \valid(vm);
    invariant forall struct NKVMTableHole *h; {h->owner} h->owner == table ==> (h->index > i || i == 0xffffffff);
    invariant forall integer j; {table->data[j]} {table->at[j]} (i == 0xffffffff || i < j) && 0 <= j && j < table->capacity && table->data[j] == NULL ==> listed(table, j);
  }
}
contract nkiTableShrink {
  requires \valid(vm) && \rtype(vm, struct NKVM) && table_ok(table);
  assigns vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure, table->tableHoles, table->nholes, table->at,
    {struct NKVMTableHole *h | h->owner == table} h->owner, {struct NKVMTableHole *h | h->owner == table} \free(h), \free(table->data), table->data, table->capacity;
  ensures [inv] table_ok(table);
  ensures [smaller] table->capacity <= \old(table->capacity);
  ensures [kept] forall integer i; {table->data[i]} 0 <= i && i < table->capacity ==> table->data[i] == \old(table->data[i]);
  ensures [noloss] forall integer i; {\old(table->data[i])} table->capacity <= i && i < \old(table->capacity) ==> \old(table->data[i]) == NULL;
  exsures [slots] slots_ok(table);
  loop 0 {
    invariant 0 <= i && i <= table->capacity && highestObject < table->capacity;
    invariant forall integer j; {table->data[j]} highestObject < j && j < i ==> table->data[j] == NULL;
    variant table->capacity - i;
  }
  loop 1 {
    invariant \pow2(newCapacity) && highestObject < newCapacity && newCapacity <= table->capacity;
    variant newCapacity;
  }
}
contract nkiTableDestroy {
  requires \valid(vm) && \rtype(vm, struct NKVM);
  requires [table] table == NULL || (\valid(table) && \rtype(table, struct NKVM) && hole_list(table) && (table->data == NULL || slots_ok(table)));
  requires [emptied] table != NULL && table->data != NULL ==> (forall integer i; {table->data[i]} 0 <= i && i < table->capacity ==> table->data[i] == NULL);
  nothrow;
  assigns vm->currentMemoryUsage, table->tableHoles, table->nholes, table->data, table->capacity,
    {struct NKVMTableHole *h | h->owner == table} h->owner, {struct NKVMTableHole *h | h->owner == table} \free(h), \free(table->data);
  ensures [empty] table != NULL ==> table->data == NULL && table->capacity == 0 && table->tableHoles == NULL;
  ensures [nolist] table != NULL ==> (forall struct NKVMTableHole *h; {h->owner} \old(h->owner) == table ==> !\alive(h));
  loop 0 { invariant 0 <= i && i <= table->capacity; variant table->capacity - i; }
  loop 1 {
    invariant \valid(table) && \valid(vm);
    invariant \old(table->nholes) >= 0;
    invariant th == NULL || (th->owner == table && \alive(th));
    invariant forall struct NKVMTableHole *h; {h->owner} {\alive(h)} h->owner == table && !(th != NULL && h->pos <= th->pos) ==> !\alive(h);
    invariant forall struct NKVMTableHole *h; {h->owner} h->owner == table && th != NULL && h->pos <= th->pos ==> \alive(h);
    variant th == NULL ? 0 : th->pos + 1;
  }
}
