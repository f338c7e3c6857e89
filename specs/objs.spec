// nkobjs.c: objects as maps from values to values.
ghost field struct NKVMObjectElement own : ptr;        // the object it is an entry of
ghost field struct NKVMObjectElement pos : integer;    // decreases along a bucket's chain
ghost field struct NKVMObjectElement num : integer;    // its place in the enumeration of the object's entries
ghost field struct NKVMObjectElement bkt : integer;    // the bucket it is in
ghost field struct NKVMObject elems : iptr;            // enumerates the entries
// the bucket a hash belongs to; b16def only exists so that its definition is used where the code computes it
logic integer b16(integer h);
logic integer b16def(integer h);
axiom b16_range: forall integer h; {b16(h)} 0 <= b16(h) && b16(h) < 16;
axiom b16_def: forall integer h; {b16def(h)} b16def(h) == 0 && b16(h) == (h & 15);

pred ent(struct NKVMObject *ob, struct NKVMObjectElement *e) = e->own == ob && \alive(e);
pred entry_ok(struct NKVM *vm, struct NKVMObject *ob, struct NKVMObjectElement *e) = \isblock(e) && \bsize(e) == \sizeof(struct NKVMObjectElement) && keyok(vm, &e->key) && e->pos >= 0 && e->bkt == b16(vhash(vm, &e->key)) && 0 <= e->num && e->num < ob->size && ob->elems[e->num] == e;
// links of the chains
pred oblinks(struct NKVMObject *ob) =
  (forall struct NKVMObjectElement *e; {e->own} ent(ob, e) ==> 0 <= e->bkt && e->bkt < 16 && ob->hashBuckets[e->bkt] != NULL && e->pos <= ob->hashBuckets[e->bkt]->pos) &&
  (forall struct NKVMObjectElement *e; {e->next} ent(ob, e) && e->next != NULL ==> ent(ob, e->next) && e->next->bkt == e->bkt && e->next->pos < e->pos) &&
  (forall struct NKVMObjectElement *e, *t; {e->own, t->own} ent(ob, e) && ent(ob, t) && e->bkt == t->bkt && t->pos < e->pos ==> e->next != NULL && t->pos <= e->next->pos) &&
  (forall struct NKVMObjectElement *e, *t; {e->own, t->own} ent(ob, e) && ent(ob, t) && e->bkt == t->bkt && e->pos == t->pos ==> e == t) &&
  (forall integer b; {ob->hashBuckets[b]} 0 <= b && b < 16 && ob->hashBuckets[b] != NULL ==> ent(ob, ob->hashBuckets[b]) && ob->hashBuckets[b]->bkt == b);
pred oborn(struct NKVMObject *ob) = forall struct NKVMObjectElement *e; {e->own} e->own == ob ==> \born(e);
pred obents(struct NKVM *vm, struct NKVMObject *ob) = forall struct NKVMObjectElement *e; {e->own} ent(ob, e) ==> entry_ok(vm, ob, e);
// the size counts the entries: the enumeration hits each exactly once
pred obsize(struct NKVMObject *ob) = forall integer i; {ob->elems[i]} 0 <= i && i < ob->size ==> ent(ob, ob->elems[i]) && \as(struct NKVMObjectElement *, ob->elems[i])->num == i;
pred obunique(struct NKVMObject *ob) = forall struct NKVMObjectElement *e, *t; {e->own, t->own} ent(ob, e) && ent(ob, t) && samekey(&e->key, &t->key) ==> e == t;
pred obj_(struct NKVMObject *ob) = \valid(ob) && \rtype(ob, struct NKVMObject);
pred ob_ok(struct NKVM *vm, struct NKVMObject *ob) = obj_(ob) && oborn(ob) && obents(vm, ob) && oblinks(ob) && obsize(ob) && obunique(ob);

contract nkiVmObjectFindOrAddEntry {
  requires vm_(vm) && vm->catastrophicFailureJmpBuf != NULL && strings_ok(vm) && ob_ok(vm, ob) && \valid(key) && keyok(vm, key);
  assigns vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure, vm->errorState.firstError, vm->errorState.lastError,
    ob->size, ob->elems, ob->hashBuckets[vhash(vm, key) & 15];
  ghost_exit {
    if(ob->size != \old(ob->size)) {
      assert b16def(vhash(vm, \pre(key))) == 0;
      ob->hashBuckets[b16(vhash(vm, \pre(key)))]->bkt := b16(vhash(vm, \pre(key)));
      ob->hashBuckets[b16(vhash(vm, \pre(key)))]->pos := ob->hashBuckets[b16(vhash(vm, \pre(key)))]->next == NULL ? 0 : ob->hashBuckets[b16(vhash(vm, \pre(key)))]->next->pos + 1;
      ob->hashBuckets[b16(vhash(vm, \pre(key)))]->num := \old(ob->size);
      ob->hashBuckets[b16(vhash(vm, \pre(key)))]->own := ob;
      ob->elems[\old(ob->size)] := ob->hashBuckets[b16(vhash(vm, \pre(key)))];
    }
  }
  ensures [found] forall struct NKVMObjectElement *e; {e->own} \old(ent(ob, e)) && \old(samekey(&e->key, key)) ==> \result == &e->value && ob->size == \old(ob->size);
  ensures [kept] forall struct NKVMObjectElement *e; {e->own} \old(ent(ob, e)) ==> ent(ob, e) && \val(&e->key) == \old(\val(&e->key)) && \val(&e->value) == \old(\val(&e->value));
  ensures [named] \result != NULL ==> (exists struct NKVMObjectElement *e; {e->own} ent(ob, e) && (samekey(&e->key, key) || e->key.type == key->type && \raw(&e->key) == \raw(key)) && \result == &e->value);
  ensures [noadd] noAdd != 0 || \result == NULL ==> ob->size == \old(ob->size) && (forall struct NKVMObjectElement *e; {e->own} ent(ob, e) ==> \old(ent(ob, e)));
  ensures [one] forall struct NKVMObjectElement *e; {e->own} ent(ob, e) && !\old(ent(ob, e)) ==> \result == &e->value && \val(&e->key) == \old(\val(key)) && e->value.type == NK_VALUETYPE_INT && \raw(&e->value) == 0;
  ensures [limit] ob->size != \old(ob->size) ==> ob->size == \old(ob->size) + 1 && ob->size <= vm->limits.maxFieldsPerObject;
  ensures [born] oborn(ob);
  ensures [entries] obents(vm, ob);
  ensures [links] oblinks(ob);
  ensures [size] obsize(ob);
  ensures [unique] obunique(ob);
  exsures [unchanged] ob->size == \old(ob->size) && ob_ok(vm, ob) && (forall struct NKVMObjectElement *e; {e->own} ent(ob, e) <==> \old(ent(ob, e)));
  loop 0 {
    invariant b16def(vhash(vm, key)) == 0 && obList == &ob->hashBuckets[b16(vhash(vm, key))];
    invariant el == NULL || ent(ob, el) && el->bkt == b16(vhash(vm, key));
    invariant forall struct NKVMObjectElement *e; {e->own} ent(ob, e) && e->bkt == b16(vhash(vm, key)) && (el == NULL || e->pos > el->pos) ==> !samekey(key, &e->key);
    variant el == NULL ? 0 : el->pos + 1;
  }
}
ghost field struct NKVMObject gone : ptr;
contract nkiVmObjectClearEntry {
  requires vm_(vm) && strings_ok(vm) && ob_ok(vm, ob) && \valid(key) && keyok(vm, key);
  nothrow; noframe;
  ghost_exit {
    if(ob->size != \old(ob->size)) {
      choose ob->gone : exists struct NKVMObjectElement *x; {x->own} \old(ent(ob, x)) && !\alive(x);
      \as(struct NKVMObjectElement *, ob->elems[ob->size])->num := \as(struct NKVMObjectElement *, ob->gone)->num;
      ob->elems[\as(struct NKVMObjectElement *, ob->gone)->num] := ob->elems[ob->size];
    }
  }
  ensures [removed] forall struct NKVMObjectElement *e; {e->own} ent(ob, e) ==> !\old(samekey(&e->key, key));
  ensures [others] forall struct NKVMObjectElement *e; {e->own} \old(ent(ob, e)) && !\old(samekey(&e->key, key)) ==> ent(ob, e) && \val(&e->key) == \old(\val(&e->key)) && \val(&e->value) == \old(\val(&e->value));
  ensures [nonew] forall struct NKVMObjectElement *e; {e->own} ent(ob, e) ==> \old(ent(ob, e));
  ensures [apart] forall struct NKVMObjectElement *e; {e->own} \old(e->own) != ob && \root(e) == e ==> e->own == \old(e->own) && (\alive(e) <==> \old(\alive(e))) && e->next == \old(e->next) && \val(&e->key) == \old(\val(&e->key)) && \val(&e->value) == \old(\val(&e->value));
  ensures [otherobs] forall struct NKVMObject *o, integer b; {o->hashBuckets[b]} o != ob && \alive(o) && \rtype(o, struct NKVMObject) && 0 <= b && b < 16 ==> o->hashBuckets[b] == \old(o->hashBuckets[b]);
  ensures [born] obj_(ob) && oborn(ob);
  ensures [entries] obents(vm, ob);
  ensures [links] oblinks(ob);
  ensures [size] obsize(ob);
  ensures [unique] obunique(ob);
  loop 0 {
    invariant b16def(vhash(vm, key)) == 0 && obList == &ob->hashBuckets[b16(vhash(vm, key))];
    invariant elPtr == &ob->hashBuckets[b16(vhash(vm, key))] || \isfield(NKVMObjectElement, next, elPtr) && ent(ob, \owner(NKVMObjectElement, next, elPtr)) && \owner(NKVMObjectElement, next, elPtr)->bkt == b16(vhash(vm, key)) && elPtr == &\owner(NKVMObjectElement, next, elPtr)->next;
    invariant *elPtr == NULL || ent(ob, *elPtr) && (*elPtr)->bkt == b16(vhash(vm, key));
    invariant forall struct NKVMObjectElement *e; {e->own} ent(ob, e) && e->bkt == b16(vhash(vm, key)) && (*elPtr == NULL || e->pos > (*elPtr)->pos) ==> !samekey(key, &e->key);
    variant *elPtr == NULL ? 0 : (*elPtr)->pos + 1;
  }
}

// ---- the object table and the objects a value names
pred objtab(struct NKVM *vm) = \valid(vm) && \rtype(vm, struct NKVM) && slots_ok(&vm->objectTable) &&
  (forall integer i; {vm->objectTable.data[i]} 0 <= i && i < vm->objectTable.capacity && vm->objectTable.data[i] != NULL ==> objat(vm, \as(struct NKVMObject *, vm->objectTable.data[i])) && \as(struct NKVMObject *, vm->objectTable.data[i])->objectTableIndex == i);
pred objat(struct NKVM *vm, struct NKVMObject *ob) = \isblock(ob) && \rtype(ob, struct NKVMObject) && \bsize(ob) == \sizeof(struct NKVMObject);
// ob is an object of this vm
pred isob(struct NKVM *vm, struct NKVMObject *ob) = ob != NULL && ob->objectTableIndex < vm->objectTable.capacity && vm->objectTable.data[ob->objectTableIndex] == ob;
fun struct NKVMObject * vob(struct NKVM *vm, struct NKValue *v) = v->type == NK_VALUETYPE_OBJECTID && v->objectId < vm->objectTable.capacity ? \as(struct NKVMObject *, vm->objectTable.data[v->objectId]) : \as(struct NKVMObject *, NULL);

contract nkiVmGetObjectFromValue {
  requires objtab(vm) && (value != NULL ==> \valid(value)) && vm->catastrophicFailureJmpBuf != NULL;
  assigns vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure, vm->errorState.firstError, vm->errorState.lastError;
  ensures [named] value != NULL ==> \result == vob(vm, value);
  ensures [null] value == NULL ==> \result == NULL;
  ensures [usage] value != NULL ==> vm->currentMemoryUsage == \old(vm->currentMemoryUsage) && vm->errorState.allocationFailure == \old(vm->errorState.allocationFailure) && vm->errorState.firstError == \old(vm->errorState.firstError) && vm->errorState.lastError == \old(vm->errorState.lastError) && vm->peakMemoryUsage == \old(vm->peakMemoryUsage);
  ensures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
  exsures [null] value == NULL;
}
contract nkiVmObjectGetSize {
  requires objtab(vm) && vm->catastrophicFailureJmpBuf != NULL && \valid(objectId);
  assigns vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure, vm->errorState.firstError, vm->errorState.lastError;
  ensures [size] \result == (vob(vm, objectId) != NULL ? vob(vm, objectId)->size : 0);
}
contract nkiVmObjectFindOrAddEntry_public {
  requires objtab(vm) && vm->catastrophicFailureJmpBuf != NULL && strings_ok(vm) && \valid(objectId) && \valid(key) && keyok(vm, key);
  requires [ob] vob(vm, objectId) != NULL ==> ob_ok(vm, vob(vm, objectId));
  noframe;
  ensures [bad] \old(vob(vm, objectId)) == NULL ==> \result == NULL;
  ensures [found] forall struct NKVMObjectElement *e; {e->own} \old(vob(vm, objectId) != NULL && ent(vob(vm, objectId), e)) && \old(samekey(&e->key, key)) ==> e->own == \old(e->own) && \result == &e->value;
  ensures [kept] forall struct NKVMObjectElement *e; {e->own} \old(vob(vm, objectId) != NULL && ent(vob(vm, objectId), e)) ==> \alive(e) && e->own == \old(e->own) && \val(&e->key) == \old(\val(&e->key)) && \val(&e->value) == \old(\val(&e->value));
  ensures [ok] \old(vob(vm, objectId)) != NULL ==> ob_ok(vm, \old(vob(vm, objectId)));
  exsures [ok] \old(vob(vm, objectId)) != NULL ==> ob_ok(vm, \old(vob(vm, objectId)));
}
contract nkiVmObjectClearEntry_public {
  requires objtab(vm) && vm->catastrophicFailureJmpBuf != NULL && strings_ok(vm) && \valid(objectId) && \valid(key) && keyok(vm, key);
  requires [ob] vob(vm, objectId) != NULL ==> ob_ok(vm, vob(vm, objectId));
  noframe;
  ensures [removed] forall struct NKVMObjectElement *e; {e->own} \old(vob(vm, objectId) != NULL && ent(vob(vm, objectId), e) && samekey(&e->key, key)) ==> !\alive(e);
  ensures [kept] forall struct NKVMObjectElement *e; {e->own} \old(vob(vm, objectId) != NULL && ent(vob(vm, objectId), e) && !samekey(&e->key, key)) ==> \alive(e) && e->own == \old(e->own) && \val(&e->key) == \old(\val(&e->key)) && \val(&e->value) == \old(\val(&e->value));
  ensures [ok] \old(vob(vm, objectId)) != NULL ==> ob_ok(vm, \old(vob(vm, objectId)));
}
contract nkiVmObjectGetExternalHandleCount {
  requires objtab(vm) && vm->catastrophicFailureJmpBuf != NULL && \valid(value);
  assigns vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure, vm->errorState.firstError, vm->errorState.lastError;
  ensures [count] \result == (vob(vm, value) != NULL ? vob(vm, value)->externalHandleCount : 0);
}
contract nkiVmObjectSetExternalType {
  requires objtab(vm) && vm->catastrophicFailureJmpBuf != NULL && \valid(object);
  assigns vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure, vm->errorState.firstError, vm->errorState.lastError, vob(vm, object)->externalDataType.id;
  ensures [type] \old(vob(vm, object)) != NULL ==> \result == 1 && \old(vob(vm, object))->externalDataType.id == externalType.id;
  ensures [bad] \old(vob(vm, object)) == NULL ==> \result == 0;
}
contract nkiVmObjectSetExternalData {
  requires objtab(vm) && vm->catastrophicFailureJmpBuf != NULL && \valid(object);
  assigns vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure, vm->errorState.firstError, vm->errorState.lastError, vob(vm, object)->externalData;
  ensures [data] \old(vob(vm, object)) != NULL ==> \result == 1 && \old(vob(vm, object))->externalData == data;
  ensures [bad] \old(vob(vm, object)) == NULL ==> \result == 0;
}
contract nkiVmObjectClearExternalDataAndType {
  requires objtab(vm) && vm->catastrophicFailureJmpBuf != NULL && \valid(object);
  assigns vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure, vm->errorState.firstError, vm->errorState.lastError, vob(vm, object)->externalData, vob(vm, object)->externalDataType.id;
  ensures [cleared] \old(vob(vm, object)) != NULL ==> \result == 1 && \old(vob(vm, object))->externalData == NULL && \old(vob(vm, object))->externalDataType.id == 0xffffffff;
  ensures [bad] \old(vob(vm, object)) == NULL ==> \result == 0;
}
contract nkiVmObjectGetExternalType {
  requires objtab(vm) && vm->catastrophicFailureJmpBuf != NULL && \valid(object);
  assigns vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure, vm->errorState.firstError, vm->errorState.lastError;
  ensures [type] \result.id == (vob(vm, object) != NULL ? vob(vm, object)->externalDataType.id : 0xffffffff);
}
contract nkiVmObjectGetExternalData {
  requires objtab(vm) && vm->catastrophicFailureJmpBuf != NULL && \valid(object);
  nothrow; assigns \nothing;
  ensures [data] \result == (vob(vm, object) != NULL ? vob(vm, object)->externalData : NULL);
}

// ---- handles held by the host
ghost field struct NKVMObject rank : integer;      // its place on the list, counted from the end
pred held(struct NKVM *vm, struct NKVMObject *ob) = isob(vm, ob) && ob->externalHandleCount > 0;
pred hlinks(struct NKVM *vm) =
  (forall struct NKVMObject *o; {o->nextObjectWithExternalHandles} held(vm, o) && o->nextObjectWithExternalHandles != NULL ==> held(vm, o->nextObjectWithExternalHandles) && o->nextObjectWithExternalHandles->rank < o->rank && o->nextObjectWithExternalHandles->previousExternalHandleListPtr == &o->nextObjectWithExternalHandles) &&
  (forall struct NKVMObject *o; {o->previousExternalHandleListPtr} held(vm, o) ==>
      (o->previousExternalHandleListPtr == &vm->objectsWithExternalHandles ? vm->objectsWithExternalHandles == o :
        \isfield(NKVMObject, nextObjectWithExternalHandles, o->previousExternalHandleListPtr) && held(vm, \owner(NKVMObject, nextObjectWithExternalHandles, o->previousExternalHandleListPtr)) &&
        o->previousExternalHandleListPtr == &\owner(NKVMObject, nextObjectWithExternalHandles, o->previousExternalHandleListPtr)->nextObjectWithExternalHandles &&
        \owner(NKVMObject, nextObjectWithExternalHandles, o->previousExternalHandleListPtr)->nextObjectWithExternalHandles == o)) &&
  (vm->objectsWithExternalHandles != NULL ==> held(vm, vm->objectsWithExternalHandles) && vm->objectsWithExternalHandles->previousExternalHandleListPtr == &vm->objectsWithExternalHandles);
// following the links from the head passes every held object: none is skipped, and the ranks fall, so none comes twice
pred hall(struct NKVM *vm) =
  (forall struct NKVMObject *o; {o->rank} held(vm, o) ==> o->rank >= 0 && vm->objectsWithExternalHandles != NULL && o->rank <= vm->objectsWithExternalHandles->rank) &&
  (forall struct NKVMObject *o, *p; {o->rank, p->rank} held(vm, o) && held(vm, p) && o->rank == p->rank ==> o == p) &&
  (forall struct NKVMObject *o, *p; {o->rank, p->rank} held(vm, o) && held(vm, p) && p->rank < o->rank ==> o->nextObjectWithExternalHandles != NULL && p->rank <= o->nextObjectWithExternalHandles->rank);
pred hnone(struct NKVM *vm) =
  (forall struct NKVMObject *o; {o->externalHandleCount} isob(vm, o) && o->externalHandleCount == 0 ==> o->nextObjectWithExternalHandles == NULL && o->previousExternalHandleListPtr == NULL);
pred handles_ok(struct NKVM *vm) = objtab(vm) && hlinks(vm) && hall(vm) && hnone(vm);
contract nkiVmObjectAcquireHandle {
  requires handles_ok(vm) && vm->catastrophicFailureJmpBuf != NULL && \valid(value);
  noframe;
  ghost_exit {
    if(\old(vob(vm, value)) != NULL) { if(\old(vob(vm, value)->externalHandleCount) == 0) {
      \old(vob(vm, value))->rank := \old(vm->objectsWithExternalHandles) == NULL ? 0 : \old(vm->objectsWithExternalHandles)->rank + 1;
    } }
  }
  ensures [count] \old(vob(vm, value)) != NULL ==> \old(vob(vm, value))->externalHandleCount == (\old(vob(vm, value)->externalHandleCount) == 0xffffffff ? 0xffffffff : \old(vob(vm, value)->externalHandleCount) + 1);
  ensures [others] forall struct NKVMObject *o; {o->externalHandleCount} o != \old(vob(vm, value)) && \rtype(o, struct NKVMObject) ==> o->externalHandleCount == \old(o->externalHandleCount);
  ensures [objects] objtab(vm);
  ensures [links] hlinks(vm);
  ensures [all] hall(vm);
  ensures [none] hnone(vm);
  exsures [count] forall struct NKVMObject *o; {o->externalHandleCount} \rtype(o, struct NKVMObject) ==> o->externalHandleCount == \old(o->externalHandleCount);
  exsures [ok] handles_ok(vm);
}
contract nkiVmObjectReleaseHandle {
  requires handles_ok(vm) && vm->catastrophicFailureJmpBuf != NULL && \valid(value);
  noframe;
  ensures [count] \old(vob(vm, value)) != NULL ==> \old(vob(vm, value))->externalHandleCount == (\old(vob(vm, value)->externalHandleCount) == 0 ? 0 : \old(vob(vm, value)->externalHandleCount) - 1);
  ensures [unmatched] \old(vob(vm, value) == NULL || vob(vm, value)->externalHandleCount == 0) ==> vm->errorState.firstError != NULL && vm->objectsWithExternalHandles == \old(vm->objectsWithExternalHandles);
  ensures [others] forall struct NKVMObject *o; {o->externalHandleCount} o != \old(vob(vm, value)) && \rtype(o, struct NKVMObject) ==> o->externalHandleCount == \old(o->externalHandleCount);
  ensures [objects] objtab(vm);
  ensures [links] hlinks(vm);
  ensures [all] hall(vm);
  ensures [none] hnone(vm);
  exsures [count] forall struct NKVMObject *o; {o->externalHandleCount} \rtype(o, struct NKVMObject) ==> o->externalHandleCount == \old(o->externalHandleCount);
  exsures [ok] handles_ok(vm);
}
