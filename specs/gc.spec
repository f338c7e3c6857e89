// nkgc.c: marking.  A value is covered when what it names is marked or waits on the open list to be marked;
// every value inside a marked object is covered.
ghost field struct NKVMValueGCEntry eown : ptr;      // the collection whose list the record is on
ghost field struct NKVMValueGCEntry elst : integer;  // 1: open list, 2: closed list
ghost field struct NKVMValueGCEntry epos : integer;  // counted from the end of the list
ghost field struct NKVMObject gent : ptr;            // the record by which the object waits

onwrite NKVMGCState.openList (g, was, now) {
  if(now != NULL && now->next == was && !(now->eown == g && now->elst == 1)) { now->eown := g; now->elst := 1; now->epos := was == NULL ? 0 : was->epos + 1; }
  else { if(was != NULL && was->eown == g && was->elst == 1 && now == was->next) { was->eown := NULL; was->elst := 0; } }
}
onwrite NKVMGCState.closedList (g, was, now) {
  if(now != NULL && now->next == was && !(now->eown == g && now->elst == 2)) { now->eown := g; now->elst := 2; now->epos := was == NULL ? 0 : was->epos + 1; }
  else { if(was != NULL && was->eown == g && was->elst == 2 && now == was->next) { was->eown := NULL; was->elst := 0; } }
}
onwrite NKVMValueGCEntry.object (e, was, now) { if(now != NULL) { now->gent := e; } }
pred inl(struct NKVMGCState *g, struct NKVMValueGCEntry *e, integer k) = e->eown == g && e->elst == k;
pred gclist(struct NKVMGCState *g, struct NKVMValueGCEntry *head, integer k) =
  (head != NULL ==> inl(g, head, k)) &&
  (forall struct NKVMValueGCEntry *e; {e->eown} inl(g, e, k) ==> \isblock(e) && \bsize(e) == 16 && \rtype(e, struct NKVMValueGCEntry) && e->epos >= 0 && head != NULL && e->epos <= head->epos && (e->next == NULL ? e->epos == 0 : inl(g, e->next, k) && e->next->epos == e->epos - 1)) &&
  (forall struct NKVMValueGCEntry *e, *f; {e->eown, f->eown} inl(g, e, k) && inl(g, f, k) && e->epos == f->epos ==> e == f);
pred gclists(struct NKVMGCState *g) = gclist(g, g->openList, 1) && gclist(g, g->closedList, 2) && (forall struct NKVMValueGCEntry *e; {e->eown} e->eown != NULL ==> \born(e));
pred gcobjs(struct NKVMGCState *g) = forall struct NKVMValueGCEntry *e; {e->eown} inl(g, e, 1) ==> isob(g->vm, e->object);
pred gcok(struct NKVMGCState *g) = \valid(g) && \valid(g->vm) && \rtype(g->vm, struct NKVM) && \root(g) != g->vm && g->vm->catastrophicFailureJmpBuf != NULL && gclists(g);

// what a collection relies on: strings and objects of the machine are there, and their entries are chained
pred strs(struct NKVM *vm) = slots_ok(&vm->stringTable) && (forall integer i; {vm->stringTable.stringTable[i]} 0 <= i && i < vm->stringTable.capacity && vm->stringTable.stringTable[i] != NULL ==> \valid(vm->stringTable.stringTable[i]) && \rtype(vm->stringTable.stringTable[i], struct NKVMString));
pred entst(struct NKVMObjectElement *e) = \isblock(e) && \bsize(e) == \sizeof(struct NKVMObjectElement) && \rtype(e, struct NKVMObjectElement) && e->pos >= 0 && 0 <= e->bkt && e->bkt < 16;
pred obst(struct NKVMObject *ob) = oborn(ob) && oblinks(ob) && (forall struct NKVMObjectElement *e; {e->own} ent(ob, e) ==> entst(e));
pred obl1(struct NKVMObject *ob) = forall struct NKVMObjectElement *e; {e->own} ent(ob, e) ==> 0 <= e->bkt && e->bkt < 16 && ob->hashBuckets[e->bkt] != NULL && e->pos <= ob->hashBuckets[e->bkt]->pos;
pred obl2(struct NKVMObject *ob) = forall struct NKVMObjectElement *e; {e->next} ent(ob, e) && e->next != NULL ==> ent(ob, e->next) && e->next->bkt == e->bkt && e->next->pos < e->pos;
pred obl3(struct NKVMObject *ob) = forall struct NKVMObjectElement *e, *t; {e->own, t->own} ent(ob, e) && ent(ob, t) && e->bkt == t->bkt && t->pos < e->pos ==> e->next != NULL && t->pos <= e->next->pos;
pred obl4(struct NKVMObject *ob) = forall struct NKVMObjectElement *e, *t; {e->own, t->own} ent(ob, e) && ent(ob, t) && e->bkt == t->bkt && e->pos == t->pos ==> e == t;
pred obl5(struct NKVMObject *ob) = forall integer b; {ob->hashBuckets[b]} 0 <= b && b < 16 && ob->hashBuckets[b] != NULL ==> ent(ob, ob->hashBuckets[b]) && ob->hashBuckets[b]->bkt == b;
pred obl6(struct NKVMObject *ob) = forall struct NKVMObjectElement *e; {e->own} ent(ob, e) ==> entst(e);
pred obs(struct NKVM *vm) = objtab(vm) && (forall struct NKVMObject *o; {o->hashBuckets} {o->lastGCPass} isob(vm, o) ==> oborn(o)) &&
  (forall struct NKVMObject *o; {o->hashBuckets} {o->lastGCPass} isob(vm, o) ==> obl1(o)) && (forall struct NKVMObject *o; {o->hashBuckets} {o->lastGCPass} isob(vm, o) ==> obl2(o)) &&
  (forall struct NKVMObject *o; {o->hashBuckets} {o->lastGCPass} isob(vm, o) ==> obl3(o)) && (forall struct NKVMObject *o; {o->hashBuckets} {o->lastGCPass} isob(vm, o) ==> obl4(o)) &&
  (forall struct NKVMObject *o; {o->hashBuckets} {o->lastGCPass} isob(vm, o) ==> obl5(o)) && (forall struct NKVMObject *o; {o->hashBuckets} {o->lastGCPass} isob(vm, o) ==> obl6(o));

pred grey(struct NKVMGCState *g, struct NKVMObject *o) = o->gent != NULL && inl(g, \as(struct NKVMValueGCEntry *, o->gent), 1) && \as(struct NKVMValueGCEntry *, o->gent)->object == o;
pred marked(struct NKVMGCState *g, struct NKVMObject *o) = o->lastGCPass == g->currentGCPass;
pred cov(struct NKVMGCState *g, struct NKValue *v, struct NKVMObject *x) = (vstr(g->vm, v) != NULL ==> vstr(g->vm, v)->lastGCPass == g->currentGCPass) && (vob(g->vm, v) != NULL ==> vob(g->vm, v) == x || marked(g, vob(g->vm, v)) || grey(g, vob(g->vm, v)));
pred black(struct NKVMGCState *g, struct NKValue *v) = (vstr(g->vm, v) != NULL ==> vstr(g->vm, v)->lastGCPass == g->currentGCPass) && (vob(g->vm, v) != NULL ==> marked(g, vob(g->vm, v)));
// every marked object but `part' is done: its keys and values are covered, `x' counting as covered
pred done(struct NKVMGCState *g, struct NKVMObject *part, struct NKVMObject *x) = forall struct NKVMObjectElement *e; {e->own} \alive(e) && e->own != part && isob(g->vm, \as(struct NKVMObject *, e->own)) && marked(g, \as(struct NKVMObject *, e->own)) ==> cov(g, &e->key, x) && cov(g, &e->value, x);

contract nkiVmGcStateMakeEntry {
  requires gcok(state);
  assigns state->vm->currentMemoryUsage, state->vm->peakMemoryUsage, state->vm->errorState.allocationFailure, state->vm->errorState.lastError, state->vm->errorState.firstError, state->openList, state->closedList, heap NKVMValueGCEntry.next, heap NKVMValueGCEntry.object, heap G.NKVMValueGCEntry.eown, heap G.NKVMValueGCEntry.elst, heap G.NKVMValueGCEntry.epos, heap G.NKVMObject.gent, heap NKVMString.lastGCPass, heap NKVMObject.lastGCPass;
  ensures [one] \result != NULL && inl(state, \result, 1) && state->openList == \result && !\old(inl(state, \result, 1));
  ensures [kept] forall struct NKVMValueGCEntry *e; {e->eown} \old(inl(state, e, 1)) ==> inl(state, e, 1) && e->object == \old(e->object);
  ensures [only] forall struct NKVMValueGCEntry *e; {e->eown} inl(state, e, 1) && !\old(inl(state, e, 1)) ==> e == \result;
  ensures [out] forall struct NKVMValueGCEntry *e; {e->eown} \old(\born(e) && e->eown == NULL) ==> e->eown == NULL;
  ensures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
  exsures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
  ensures [lists] gclists(state);
  exsures [flag] state->vm->errorState.allocationFailure == 1;
}
// the parameters `g' of the marking functions: marks only ever get added, waiting objects keep waiting or get marked
contract nkiVmGarbageCollect_markValue {
  requires gcok(gcState) && strs(gcState->vm) && objtab(gcState->vm) && gcobjs(gcState) && \valid(v);
  assigns gcState->vm->currentMemoryUsage, gcState->vm->peakMemoryUsage, gcState->vm->errorState.allocationFailure, gcState->vm->errorState.lastError, gcState->vm->errorState.firstError, gcState->openList, gcState->closedList, heap NKVMValueGCEntry.next, heap NKVMValueGCEntry.object, heap G.NKVMValueGCEntry.eown, heap G.NKVMValueGCEntry.elst, heap G.NKVMValueGCEntry.epos, heap G.NKVMObject.gent, heap NKVMString.lastGCPass, heap NKVMObject.lastGCPass;
  ensures [covered] cov(gcState, v, NULL);
  ensures [objects] forall struct NKVMObject *o; {o->lastGCPass} o->lastGCPass == \old(o->lastGCPass);
  ensures [strings] forall struct NKVMString *s; {s->lastGCPass} s->lastGCPass == \old(s->lastGCPass) || s->lastGCPass == gcState->currentGCPass;
  ensures [waiting] forall struct NKVMObject *o; {o->gent} \old(grey(gcState, o)) ==> grey(gcState, o);
  ensures [lists] gclists(gcState) && gcobjs(gcState);
  ensures [out] forall struct NKVMValueGCEntry *e; {e->eown} \old(\born(e) && e->eown == NULL) ==> e->eown == NULL;
  ensures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
  exsures [flag] gcState->vm->errorState.allocationFailure == 1;
  exsures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
}

pred gcin(struct NKVMGCState *g) = gcok(g) && strs(g->vm) && gcobjs(g);
pred stk(struct NKVMStack *s) = \valid(s) && (s->size == 0 || \isblock(s->values) && \rtype(s->values, struct NKValue) && \bsize(s->values) >= 8 * s->size);
pred covall(struct NKVMGCState *g, struct NKVMStack *s, integer n) = forall integer j; {s->values[j]} 0 <= j && j < n ==> cov(g, &s->values[j], NULL);
contract nkiVmGarbageCollect_markStack {
  requires gcin(gcState) && objtab(gcState->vm) && stk(stack);
  assigns gcState->vm->currentMemoryUsage, gcState->vm->peakMemoryUsage, gcState->vm->errorState.allocationFailure, gcState->vm->errorState.lastError, gcState->vm->errorState.firstError, gcState->openList, gcState->closedList, heap NKVMValueGCEntry.next, heap NKVMValueGCEntry.object, heap G.NKVMValueGCEntry.eown, heap G.NKVMValueGCEntry.elst, heap G.NKVMValueGCEntry.epos, heap G.NKVMObject.gent, heap NKVMString.lastGCPass, heap NKVMObject.lastGCPass;
  ensures [covered] covall(gcState, stack, stack->size);
  ensures [objects] forall struct NKVMObject *o; {o->lastGCPass} o->lastGCPass == \old(o->lastGCPass);
  ensures [strings] forall struct NKVMString *s; {s->lastGCPass} s->lastGCPass == \old(s->lastGCPass) || s->lastGCPass == gcState->currentGCPass;
  ensures [waiting] forall struct NKVMObject *o; {o->gent} \old(grey(gcState, o)) ==> grey(gcState, o);
  ensures [lists] gclists(gcState) && gcobjs(gcState);
  ensures [out] forall struct NKVMValueGCEntry *e; {e->eown} \old(\born(e) && e->eown == NULL) ==> e->eown == NULL;
  ensures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
  exsures [flag] gcState->vm->errorState.allocationFailure == 1;
  exsures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
  loop 0 {
    invariant [i] i <= stack->size;
    invariant [values] values == stack->values;
    invariant [covered] covall(gcState, stack, i);
    invariant [objects] forall struct NKVMObject *o; {o->lastGCPass} o->lastGCPass == \old(o->lastGCPass);
    invariant [strings] forall struct NKVMString *s; {s->lastGCPass} s->lastGCPass == \old(s->lastGCPass) || s->lastGCPass == gcState->currentGCPass;
    invariant [waiting] forall struct NKVMObject *o; {o->gent} \old(grey(gcState, o)) ==> grey(gcState, o);
    invariant [lists] gclists(gcState) && gcobjs(gcState);
    invariant [out] forall struct NKVMValueGCEntry *e; {e->eown} \old(\born(e) && e->eown == NULL) ==> e->eown == NULL;
    invariant [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
    variant stack->size - i;
  }
}
contract nkiCoroutineLibrary_coroutineGCMark {
  requires gcin(gcState) && objtab(gcState->vm) && (internalData != NULL ==> \valid(\as(struct NKVMExecutionContext *, internalData)) && stk(&\as(struct NKVMExecutionContext *, internalData)->stack) && (\as(struct NKVMExecutionContext *, internalData)->parent != NULL ==> \valid(\as(struct NKVMExecutionContext *, internalData)->parent)));
  assigns gcState->vm->currentMemoryUsage, gcState->vm->peakMemoryUsage, gcState->vm->errorState.allocationFailure, gcState->vm->errorState.lastError, gcState->vm->errorState.firstError, gcState->openList, gcState->closedList, heap NKVMValueGCEntry.next, heap NKVMValueGCEntry.object, heap G.NKVMValueGCEntry.eown, heap G.NKVMValueGCEntry.elst, heap G.NKVMValueGCEntry.epos, heap G.NKVMObject.gent, heap NKVMString.lastGCPass, heap NKVMObject.lastGCPass;
  ensures [stack] internalData != NULL ==> covall(gcState, &\as(struct NKVMExecutionContext *, internalData)->stack, \as(struct NKVMExecutionContext *, internalData)->stack.size);
  ensures [parent] internalData != NULL && \as(struct NKVMExecutionContext *, internalData)->parent != NULL ==> cov(gcState, &\as(struct NKVMExecutionContext *, internalData)->parent->coroutineObject, NULL);
  ensures [objects] forall struct NKVMObject *o; {o->lastGCPass} o->lastGCPass == \old(o->lastGCPass);
  ensures [strings] forall struct NKVMString *s; {s->lastGCPass} s->lastGCPass == \old(s->lastGCPass) || s->lastGCPass == gcState->currentGCPass;
  ensures [waiting] forall struct NKVMObject *o; {o->gent} \old(grey(gcState, o)) ==> grey(gcState, o);
  ensures [lists] gclists(gcState) && gcobjs(gcState);
  ensures [out] forall struct NKVMValueGCEntry *e; {e->eown} \old(\born(e) && e->eown == NULL) ==> e->eown == NULL;
  ensures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
  exsures [flag] gcState->vm->errorState.allocationFailure == 1;
  exsures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
  loop 0 {
    invariant [i] i <= context->stack.size;
    invariant [covered] covall(gcState, &context->stack, i);
    invariant [parent] context->parent != NULL ==> cov(gcState, &context->parent->coroutineObject, NULL);
    invariant [objects] forall struct NKVMObject *o; {o->lastGCPass} o->lastGCPass == \old(o->lastGCPass);
    invariant [strings] forall struct NKVMString *s; {s->lastGCPass} s->lastGCPass == \old(s->lastGCPass) || s->lastGCPass == gcState->currentGCPass;
    invariant [waiting] forall struct NKVMObject *o; {o->gent} \old(grey(gcState, o)) ==> grey(gcState, o);
    invariant [lists] gclists(gcState) && gcobjs(gcState);
    invariant [out] forall struct NKVMValueGCEntry *e; {e->eown} \old(\born(e) && e->eown == NULL) ==> e->eown == NULL;
    invariant [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
    variant context->stack.size - i;
  }
}
// what a mark callback may do: mark values through nkxVmGarbageCollect_markValue
ghost integer gcalls;
ghost ptr gcdata;
fnptr type.NKVMExternalObjectGCMarkCallback(struct NKVM *vm, struct NKValue *value, void *internalData, struct NKVMGCState *gcState) {
  writes $alive, $born, NKVM.currentMemoryUsage, NKVM.peakMemoryUsage, NKErrorState.allocationFailure, NKErrorState.lastError, NKErrorState.firstError, NKVMString.lastGCPass, NKVMGCState.openList, NKVMGCState.closedList, NKVMValueGCEntry.next, NKVMValueGCEntry.object, G.NKVMValueGCEntry.eown, G.NKVMValueGCEntry.elst, G.NKVMValueGCEntry.epos, G.NKVMObject.gent, gcalls, gcdata;
  throws;
  assigns gcState->vm->currentMemoryUsage, gcState->vm->peakMemoryUsage, gcState->vm->errorState.allocationFailure, gcState->vm->errorState.lastError, gcState->vm->errorState.firstError, gcState->openList, gcState->closedList, heap NKVMValueGCEntry.next, heap NKVMValueGCEntry.object, heap G.NKVMValueGCEntry.eown, heap G.NKVMValueGCEntry.elst, heap G.NKVMValueGCEntry.epos, heap G.NKVMObject.gent, heap NKVMString.lastGCPass, heap NKVMObject.lastGCPass;
  ensures [called] gcalls == \old(gcalls) + 1 && gcdata == internalData;
  ensures [objects] forall struct NKVMObject *o; {o->lastGCPass} o->lastGCPass == \old(o->lastGCPass);
  ensures [strings] forall struct NKVMString *s; {s->lastGCPass} s->lastGCPass == \old(s->lastGCPass) || s->lastGCPass == gcState->currentGCPass;
  ensures [waiting] forall struct NKVMObject *o; {o->gent} \old(grey(gcState, o)) ==> grey(gcState, o);
  ensures [lists] gclists(gcState) && gcobjs(gcState);
  ensures [out] forall struct NKVMValueGCEntry *e; {e->eown} \old(\born(e) && e->eown == NULL) ==> e->eown == NULL;
  ensures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
  exsures [flag] gcState->vm->errorState.allocationFailure == 1;
  exsures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
}
contract nkiVmGarbageCollect_markObject {
  requires gcin(gcState) && obs(gcState->vm) && types_ok(gcState->vm) && isob(gcState->vm, ob) && done(gcState, NULL, ob);
  assigns gcState->vm->currentMemoryUsage, gcState->vm->peakMemoryUsage, gcState->vm->errorState.allocationFailure, gcState->vm->errorState.lastError, gcState->vm->errorState.firstError, gcState->openList, gcState->closedList, heap NKVMValueGCEntry.next, heap NKVMValueGCEntry.object, heap G.NKVMValueGCEntry.eown, heap G.NKVMValueGCEntry.elst, heap G.NKVMValueGCEntry.epos, heap G.NKVMObject.gent, heap NKVMString.lastGCPass, heap NKVMObject.lastGCPass;
  ensures [marked] marked(gcState, ob);
  ensures [called] \old(!marked(gcState, ob)) && ob->externalDataType.id < gcState->vm->externalTypeCount && gcState->vm->externalTypes[ob->externalDataType.id].gcMarkCallback != NULL ==> gcalls == \old(gcalls) + 1 && gcdata == ob->externalData;
  ensures [done] done(gcState, NULL, NULL);
  ensures [objects] forall struct NKVMObject *o; {o->lastGCPass} o->lastGCPass == \old(o->lastGCPass) || marked(gcState, o);
  ensures [strings] forall struct NKVMString *s; {s->lastGCPass} s->lastGCPass == \old(s->lastGCPass) || s->lastGCPass == gcState->currentGCPass;
  ensures [waiting] forall struct NKVMObject *o; {o->gent} \old(grey(gcState, o)) ==> grey(gcState, o) || marked(gcState, o);
  ensures [lists] gclists(gcState) && gcobjs(gcState);
  ensures [out] forall struct NKVMValueGCEntry *e; {e->eown} \old(\born(e) && e->eown == NULL) ==> e->eown == NULL;
  ensures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
  exsures [flag] gcState->vm->errorState.allocationFailure == 1;
  exsures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
  loop 0 {
    invariant [bucket] bucket <= 16;
    invariant [marked] marked(gcState, ob);
    invariant [done] done(gcState, ob, NULL);
    invariant [covered] forall struct NKVMObjectElement *e; {e->own} ent(ob, e) && e->bkt < bucket ==> cov(gcState, &e->key, NULL) && cov(gcState, &e->value, NULL);
    invariant [objects] forall struct NKVMObject *o; {o->lastGCPass} o->lastGCPass == \old(o->lastGCPass) || marked(gcState, o);
    invariant [strings] forall struct NKVMString *s; {s->lastGCPass} s->lastGCPass == \old(s->lastGCPass) || s->lastGCPass == gcState->currentGCPass;
    invariant [waiting] forall struct NKVMObject *o; {o->gent} \old(grey(gcState, o)) ==> grey(gcState, o) || marked(gcState, o);
    invariant [lists] gclists(gcState) && gcobjs(gcState);
    invariant [out] forall struct NKVMValueGCEntry *e; {e->eown} \old(\born(e) && e->eown == NULL) ==> e->eown == NULL;
    invariant [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
    variant 16 - bucket;
  }
  loop 1 {
    invariant [el] el == NULL || ent(ob, el) && el->bkt == bucket;
    invariant [marked] marked(gcState, ob);
    invariant [done] done(gcState, ob, NULL);
    invariant [covered] forall struct NKVMObjectElement *e; {e->own} ent(ob, e) && (e->bkt < bucket || e->bkt == bucket && (el == NULL || e->pos > el->pos)) ==> cov(gcState, &e->key, NULL) && cov(gcState, &e->value, NULL);
    invariant [objects] forall struct NKVMObject *o; {o->lastGCPass} o->lastGCPass == \old(o->lastGCPass) || marked(gcState, o);
    invariant [strings] forall struct NKVMString *s; {s->lastGCPass} s->lastGCPass == \old(s->lastGCPass) || s->lastGCPass == gcState->currentGCPass;
    invariant [waiting] forall struct NKVMObject *o; {o->gent} \old(grey(gcState, o)) ==> grey(gcState, o) || marked(gcState, o);
    invariant [lists] gclists(gcState) && gcobjs(gcState);
    invariant [out] forall struct NKVMValueGCEntry *e; {e->eown} \old(\born(e) && e->eown == NULL) ==> e->eown == NULL;
    invariant [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
    variant el == NULL ? 0 : el->pos + 1;
  }
  loop 2 {
    invariant [k] k <= 2;
    invariant [marked] marked(gcState, ob);
    invariant [key] k >= 1 ==> cov(gcState, &el->key, NULL);
    invariant [value] k >= 2 ==> cov(gcState, &el->value, NULL);
    invariant [done] done(gcState, ob, NULL);
    invariant [covered] forall struct NKVMObjectElement *e; {e->own} ent(ob, e) && (e->bkt < bucket || e->bkt == bucket && e->pos > el->pos) ==> cov(gcState, &e->key, NULL) && cov(gcState, &e->value, NULL);
    invariant [objects] forall struct NKVMObject *o; {o->lastGCPass} o->lastGCPass == \old(o->lastGCPass) || marked(gcState, o);
    invariant [strings] forall struct NKVMString *s; {s->lastGCPass} s->lastGCPass == \old(s->lastGCPass) || s->lastGCPass == gcState->currentGCPass;
    invariant [waiting] forall struct NKVMObject *o; {o->gent} \old(grey(gcState, o)) ==> grey(gcState, o) || marked(gcState, o);
    invariant [lists] gclists(gcState) && gcobjs(gcState);
    invariant [out] forall struct NKVMValueGCEntry *e; {e->eown} \old(\born(e) && e->eown == NULL) ==> e->eown == NULL;
    invariant [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
    variant 2 - k;
  }
}
contract nkiVmGarbageCollect_markReferenced {
  requires gcin(gcState) && obs(gcState->vm) && types_ok(gcState->vm) && done(gcState, NULL, NULL);
  assigns gcState->vm->currentMemoryUsage, gcState->vm->peakMemoryUsage, gcState->vm->errorState.allocationFailure, gcState->vm->errorState.lastError, gcState->vm->errorState.firstError, gcState->openList, gcState->closedList, heap NKVMValueGCEntry.next, heap NKVMValueGCEntry.object, heap G.NKVMValueGCEntry.eown, heap G.NKVMValueGCEntry.elst, heap G.NKVMValueGCEntry.epos, heap G.NKVMObject.gent, heap NKVMString.lastGCPass, heap NKVMObject.lastGCPass;
  ensures [empty] gcState->openList == NULL;
  ensures [black] forall struct NKValue *v; {v->type} \old(\alive(v)) && \old(cov(gcState, v, NULL)) ==> black(gcState, v);
  ensures [none] forall struct NKVMObject *o; {o->gent} {o->lastGCPass} !grey(gcState, o);
  ensures [done] done(gcState, NULL, NULL);
  ensures [objects] forall struct NKVMObject *o; {o->lastGCPass} o->lastGCPass == \old(o->lastGCPass) || marked(gcState, o);
  ensures [strings] forall struct NKVMString *s; {s->lastGCPass} s->lastGCPass == \old(s->lastGCPass) || s->lastGCPass == gcState->currentGCPass;
  ensures [waiting] forall struct NKVMObject *o; {o->gent} {o->lastGCPass} \old(grey(gcState, o)) ==> grey(gcState, o) || marked(gcState, o);
  ensures [lists] gclists(gcState) && gcobjs(gcState);
  ensures [out] forall struct NKVMValueGCEntry *e; {e->eown} \old(\born(e) && e->eown == NULL) ==> e->eown == NULL;
  ensures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
  exsures [flag] gcState->vm->errorState.allocationFailure == 1;
  exsures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
  loop 0 {
    invariant [done] done(gcState, NULL, NULL);
    invariant [objects] forall struct NKVMObject *o; {o->lastGCPass} o->lastGCPass == \old(o->lastGCPass) || marked(gcState, o);
    invariant [strings] forall struct NKVMString *s; {s->lastGCPass} s->lastGCPass == \old(s->lastGCPass) || s->lastGCPass == gcState->currentGCPass;
    invariant [waiting] forall struct NKVMObject *o; {o->gent} {o->lastGCPass} \old(grey(gcState, o)) ==> grey(gcState, o) || marked(gcState, o);
    invariant [lists] gclists(gcState) && gcobjs(gcState);
    invariant [out] forall struct NKVMValueGCEntry *e; {e->eown} \old(\born(e) && e->eown == NULL) ==> e->eown == NULL;
    invariant [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
  }
}

pred types_ok(struct NKVM *vm) = vm->externalTypeCount == 0 || \isblock(vm->externalTypes) && \rtype(vm->externalTypes, struct NKVMExternalType) && \bsize(vm->externalTypes) >= \sizeof(struct NKVMExternalType) * vm->externalTypeCount;
// ---- freeing objects
fun struct NKVMObject *entof(ptr p) = \as(struct NKVMObject *, \as(struct NKVMObjectElement *, \root(p))->own);
contract nkiVmObjectDelete {
  requires \valid(vm) && objat(vm, ob) && obst(ob) && \root(vm) != ob;
  requires [vm] (forall struct NKVMObjectElement *e; {e->own} ent(ob, e) ==> e != \root(vm) && e != ob);
  assigns vm->currentMemoryUsage, heap $alive;
  ensures [freed] forall ptr p; {\alive(p)} \alive(p) <==> \old(\alive(p)) && \root(p) != ob && entof(p) != ob;
  loop 0 {
    invariant [i] i <= 16;
    invariant [vm] \valid(vm) && \isblock(ob);
    invariant [rest] forall struct NKVMObjectElement *e; {e->own} ent(ob, e) <==> \old(ent(ob, e)) && e->bkt >= i;
    invariant [alive] forall ptr p; {\alive(p)} \alive(p) <==> \old(\alive(p)) && (entof(p) != ob || \as(struct NKVMObjectElement *, \root(p))->bkt >= i);
    variant 16 - i;
  }
  loop 1 {
    invariant [vm] \valid(vm) && \isblock(ob);
    invariant [el] el == NULL || ent(ob, el) && el->bkt == i;
    invariant [rest] forall struct NKVMObjectElement *e; {e->own} ent(ob, e) <==> \old(ent(ob, e)) && (e->bkt > i || e->bkt == i && el != NULL && e->pos <= el->pos);
    invariant [alive] forall ptr p; {\alive(p)} \alive(p) <==> \old(\alive(p)) && (entof(p) != ob || \as(struct NKVMObjectElement *, \root(p))->bkt > i || \as(struct NKVMObjectElement *, \root(p))->bkt == i && el != NULL && \as(struct NKVMObjectElement *, \root(p))->pos <= el->pos);
    variant el == NULL ? 0 : el->pos + 1;
  }
}

// blocks of the machine, which a cleanup callback leaves alone: it frees what the host attached, not the machine's own data
pred ours(struct NKVM *vm, ptr p) = \rtype(p, struct NKVMObject) || \rtype(p, struct NKVMObjectElement) || \rtype(p, struct NKVMValueGCEntry) || \rtype(p, struct NKVM) || \as(struct NKVMString *, \root(p))->own == vm ||
  \as(struct NKVMTableHole *, \root(p))->owner == &vm->stringTable || \as(struct NKVMTableHole *, \root(p))->owner == &vm->objectTable || \root(p) == \root(vm->objectTable.data) || \root(p) == \root(vm->stringTable.data) || \root(p) == \root(vm->externalTypes);
fnptr type.NKVMExternalObjectCleanupCallback(struct NKVM *vm, struct NKValue *value, void *internalData) {
  writes $alive, $born, NKVM.currentMemoryUsage, NKVM.peakMemoryUsage, NKErrorState.allocationFailure, NKErrorState.lastError, NKErrorState.firstError, gcalls, gcdata;
  throws;
  assigns vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure, vm->errorState.lastError, vm->errorState.firstError, heap $alive;
  ensures [called] gcalls == \old(gcalls) + 1 && gcdata == internalData;
  ensures [born] forall ptr p; {\born(p)} \old(\born(p)) ==> \born(p);
  ensures [ours] forall ptr p; {\alive(p)} \old(\alive(p)) && \old(ours(vm, p)) ==> \alive(p);
}
// the machine's blocks are told apart
pred apart(struct NKVM *vm) = hole_list(&vm->stringTable) &&
  (forall struct NKVMString *s; {s->own} s->own == vm ==> \rtype(s, struct NKVMString)) &&
  (forall struct NKVMTableHole *h; {h->owner} h->owner == &vm->stringTable || h->owner == &vm->objectTable ==> \rtype(h, struct NKVMTableHole)) &&
  \root(vm->objectTable.data) != \root(vm->stringTable.data) && !\rtype(\root(vm->objectTable.data), struct NKVMString) && !\rtype(\root(vm->objectTable.data), struct NKVMValueGCEntry) && !\rtype(\root(vm->stringTable.data), struct NKVMValueGCEntry) &&
  !\rtype(\root(vm->objectTable.data), struct NKVMObject) && !\rtype(\root(vm->objectTable.data), struct NKVMObjectElement) &&
  !\rtype(\root(vm->stringTable.data), struct NKVMObject) && !\rtype(\root(vm->stringTable.data), struct NKVMObjectElement);
// whatever of the machine is no object or entry stays
pred rest(struct NKVM *vm, ptr p) = ours(vm, p) && !\rtype(p, struct NKVMObject) && !\rtype(p, struct NKVMObjectElement);
contract nkiVmObjectTableCleanupObject {
  requires obs(vm) && types_ok(vm) && vm->catastrophicFailureJmpBuf != NULL && apart(vm);
  requires [index] objectTableIndex < vm->objectTable.capacity;
  assigns vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure, vm->errorState.lastError, vm->errorState.firstError, heap $alive, heap NKVMObject.externalData;
  ensures [freed] forall ptr p; {\alive(p)} \old(\alive(p)) && \old(ours(vm, p)) && (vm->objectTable.data[objectTableIndex] == NULL || \root(p) != vm->objectTable.data[objectTableIndex] && entof(p) != vm->objectTable.data[objectTableIndex]) ==> \alive(p);
  ensures [gone] vm->objectTable.data[objectTableIndex] != NULL ==> (forall ptr p; {\alive(p)} \alive(p) && \old(\alive(p)) ==> \root(p) != vm->objectTable.data[objectTableIndex] && entof(p) != vm->objectTable.data[objectTableIndex]);
}
contract nkiVmObjectTableCleanOldObjects {
  requires obs(vm) && types_ok(vm) && vm->catastrophicFailureJmpBuf != NULL && table_ok(&vm->objectTable) && apart(vm);
  assigns vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure, vm->errorState.lastError, vm->errorState.firstError, heap $alive, heap NKVMObject.externalData, vm->objectTable.tableHoles, vm->objectTable.nholes, vm->objectTable.at, vm->objectTable.data[*];
  ensures [kept] forall struct NKVMObject *o; {o->lastGCPass} \old(isob(vm, o)) && o->lastGCPass == lastGCPass ==> isob(vm, o);
  ensures [gone] forall struct NKVMObject *o; {o->lastGCPass} isob(vm, o) ==> \old(isob(vm, o)) && o->lastGCPass == lastGCPass;
  ensures [entries] forall struct NKVMObjectElement *e; {e->own} \old(\alive(e)) && \old(isob(vm, \as(struct NKVMObject *, e->own))) && \as(struct NKVMObject *, e->own)->lastGCPass == lastGCPass ==> \alive(e);
  ensures [slots] forall integer j; {vm->objectTable.data[j]} 0 <= j && j < vm->objectTable.capacity ==> vm->objectTable.data[j] == (\old(vm->objectTable.data[j]) != NULL && \as(struct NKVMObject *, \old(vm->objectTable.data[j]))->lastGCPass != lastGCPass ? \as(ptr, NULL) : \old(vm->objectTable.data[j]));
  ensures [values] forall struct NKValue *v; {v->type} \old(\alive(v)) && (\old(vob(vm, v)) == NULL || \old(vob(vm, v))->lastGCPass == lastGCPass) ==> vob(vm, v) == \old(vob(vm, v));
  ensures [table] table_ok(&vm->objectTable) && vm->objectTable.capacity == \old(vm->objectTable.capacity) && vm->objectTable.data == \old(vm->objectTable.data);
  ensures [owner] forall struct NKVMTableHole *h; {h->owner} h->owner == \old(h->owner) || h->owner == &vm->objectTable;
  ensures [inv] obs(vm);
  ensures [rest] forall ptr p; {\alive(p)} \old(\alive(p)) && \old(rest(vm, p)) ==> \alive(p);
  loop 0 {
    invariant [i] i <= vm->objectTable.capacity;
    invariant [table] table == &vm->objectTable && table_ok(&vm->objectTable) && vm->objectTable.capacity == \old(vm->objectTable.capacity) && vm->objectTable.data == \old(vm->objectTable.data) && types_ok(vm);
    invariant [below] forall integer j; {vm->objectTable.data[j]} 0 <= j && j < vm->objectTable.capacity ==> vm->objectTable.data[j] == (j < i && \old(vm->objectTable.data[j]) != NULL && \as(struct NKVMObject *, \old(vm->objectTable.data[j]))->lastGCPass != lastGCPass ? \as(ptr, NULL) : \old(vm->objectTable.data[j]));
    invariant [entries] forall struct NKVMObjectElement *e; {e->own} \old(\alive(e)) && isob(vm, \as(struct NKVMObject *, e->own)) ==> \alive(e);
    invariant [inv] obs(vm) && apart(vm);
    invariant [owner] forall struct NKVMTableHole *h; {h->owner} h->owner == \old(h->owner) || h->owner == &vm->objectTable;
    invariant [rest] forall ptr p; {\alive(p)} \old(\alive(p)) && \old(rest(vm, p)) ==> \alive(p);
    variant vm->objectTable.capacity - i;
  }
}

// after marking: what the value names is there as before the collection and has been marked in it
pred live(struct NKVM *vm, struct NKValue *v) = vob(vm, v) == \old(vob(vm, v)) && vstr(vm, v) == \old(vstr(vm, v)) && (vob(vm, v) != NULL ==> vob(vm, v)->lastGCPass == vm->gcInfo.lastGCPass) && (vstr(vm, v) != NULL ==> vstr(vm, v)->lastGCPass == vm->gcInfo.lastGCPass);
pred same(struct NKVM *vm, struct NKValue *v) = vob(vm, v) == \old(vob(vm, v)) && vstr(vm, v) == \old(vstr(vm, v));
// ---- the collection
contract nkiVmGarbageCollect {
  requires strings_ok(vm) && handles_ok(vm) && vm->catastrophicFailureJmpBuf != NULL;
  requires [tables] obs(vm) && types_ok(vm) && table_ok(&vm->objectTable) && apart(vm);
  requires [roots] stk(&vm->rootExecutionContext.stack) && \valid(vm->currentExecutionContext) && (\rtype(vm->currentExecutionContext, struct NKVMExecutionContext) || \rtype(vm->currentExecutionContext, struct NKVM)) && \isblock(vm->staticSpace) && \rtype(vm->staticSpace, struct NKValue) && \bsize(vm->staticSpace) >= 8 * (vm->staticAddressMask + 1);
  requires [pass] forall struct NKVMObject *o; {o->lastGCPass} isob(vm, o) ==> o->lastGCPass != (vm->gcInfo.lastGCPass == 0xffffffff ? 0 : vm->gcInfo.lastGCPass + 1);
  requires [idle] forall struct NKVMValueGCEntry *e; {e->eown} e->eown == NULL;
  assigns vm->gcInfo.lastGCPass, vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure, vm->errorState.lastError, vm->errorState.firstError, heap $alive, heap NKVMObject.externalData,
    heap NKVMValueGCEntry.next, heap NKVMValueGCEntry.object, heap G.NKVMValueGCEntry.eown, heap G.NKVMValueGCEntry.elst, heap G.NKVMValueGCEntry.epos, heap G.NKVMObject.gent, heap NKVMString.lastGCPass, heap NKVMObject.lastGCPass,
    vm->stringTable.tableHoles, vm->stringTable.nholes, vm->stringTable.at, heap NKVMString.nextInHashBucket, heap cell:ptr,
    vm->objectTable.tableHoles, vm->objectTable.nholes, vm->objectTable.at;
  after nkiVmGarbageCollect_markReferenced [stack-black] forall integer j; {vm->rootExecutionContext.stack.values[j]} 0 <= j && j < vm->rootExecutionContext.stack.size ==> live(vm, &vm->rootExecutionContext.stack.values[j]);
  after nkiVmGarbageCollect_markReferenced [running-black] live(vm, &vm->currentExecutionContext->coroutineObject);
  after nkiVmGarbageCollect_markReferenced [globals-black] forall integer j; {vm->staticSpace[j]} 0 <= j && j <= vm->staticAddressMask ==> live(vm, &vm->staticSpace[j]);
  after nkiVmGarbageCollect_markReferenced [values-black] forall struct NKVMObjectElement *e; {e->own} \alive(e) && isob(vm, \as(struct NKVMObject *, e->own)) && \as(struct NKVMObject *, e->own)->lastGCPass == vm->gcInfo.lastGCPass ==> live(vm, &e->key) && live(vm, &e->value);
  ensures [handles] forall struct NKVMObject *o; {o->rank} \old(held(vm, o)) ==> held(vm, o) && o->lastGCPass == vm->gcInfo.lastGCPass;
  ensures [stack] forall integer j; {vm->rootExecutionContext.stack.values[j]} 0 <= j && j < vm->rootExecutionContext.stack.size ==> vob(vm, &vm->rootExecutionContext.stack.values[j]) == \old(vob(vm, &vm->rootExecutionContext.stack.values[j])) && vstr(vm, &vm->rootExecutionContext.stack.values[j]) == \old(vstr(vm, &vm->rootExecutionContext.stack.values[j]));
  ensures [running] vob(vm, &vm->currentExecutionContext->coroutineObject) == \old(vob(vm, &vm->currentExecutionContext->coroutineObject));
  ensures [globals] forall integer j; {vm->staticSpace[j]} 0 <= j && j <= vm->staticAddressMask ==> vob(vm, &vm->staticSpace[j]) == \old(vob(vm, &vm->staticSpace[j])) && vstr(vm, &vm->staticSpace[j]) == \old(vstr(vm, &vm->staticSpace[j]));
  ensures [values] forall struct NKVMObjectElement *e; {e->own} \alive(e) && isob(vm, \as(struct NKVMObject *, e->own)) ==> vob(vm, &e->key) == \old(vob(vm, &e->key)) && vstr(vm, &e->key) == \old(vstr(vm, &e->key)) && vob(vm, &e->value) == \old(vob(vm, &e->value)) && vstr(vm, &e->value) == \old(vstr(vm, &e->value));
  ensures [entries] forall struct NKVMObjectElement *e; {e->own} \old(\alive(e)) && isob(vm, \as(struct NKVMObject *, e->own)) ==> \alive(e);
  ensures [kept] forall struct NKVMObject *o; {o->lastGCPass} isob(vm, o) ==> \old(isob(vm, o)) && o->lastGCPass == vm->gcInfo.lastGCPass;
  ensures [inv] strings_ok(vm) && obs(vm) && types_ok(vm) && table_ok(&vm->objectTable);
  loop 0 {
    invariant [ob] ob == NULL || held(vm, ob);
    invariant [state] gcin(&gcState) && gcState.vm == vm && gcState.currentGCPass == vm->gcInfo.lastGCPass;
    invariant [objects] forall struct NKVMObject *o; {o->lastGCPass} o->lastGCPass == \old(o->lastGCPass) || o->lastGCPass == gcState.currentGCPass;
    invariant [strings] forall struct NKVMString *s; {s->lastGCPass} s->lastGCPass == \old(s->lastGCPass) || s->lastGCPass == gcState.currentGCPass;
    invariant [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
    invariant [done] done(&gcState, NULL, NULL);
    invariant [held] forall struct NKVMObject *o; {o->rank} held(vm, o) && (ob == NULL || o->rank > ob->rank) ==> marked(&gcState, o);
    variant ob == NULL ? 0 : ob->rank + 1;
  }
  loop 1 {
    invariant [i] i <= vm->staticAddressMask && values == vm->staticSpace;
    invariant [stack] covall(&gcState, &vm->rootExecutionContext.stack, vm->rootExecutionContext.stack.size);
    invariant [running] cov(&gcState, &vm->currentExecutionContext->coroutineObject, NULL);
    invariant [globals] forall integer j; {vm->staticSpace[j]} 0 <= j && j < i ==> cov(&gcState, &vm->staticSpace[j], NULL);
    invariant [state] gcin(&gcState) && gcState.vm == vm && gcState.currentGCPass == vm->gcInfo.lastGCPass;
    invariant [objects] forall struct NKVMObject *o; {o->lastGCPass} o->lastGCPass == \old(o->lastGCPass) || o->lastGCPass == gcState.currentGCPass;
    invariant [strings] forall struct NKVMString *s; {s->lastGCPass} s->lastGCPass == \old(s->lastGCPass) || s->lastGCPass == gcState.currentGCPass;
    invariant [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
    invariant [done] done(&gcState, NULL, NULL);
    invariant [held] forall struct NKVMObject *o; {o->rank} held(vm, o) && \true ==> marked(&gcState, o);
    variant vm->staticAddressMask - i;
  }
  loop 2 {
    invariant [list] gclist(&gcState, gcState.closedList, 2);
    invariant [tables] strings_ok(vm) && obs(vm) && types_ok(vm) && table_ok(&vm->objectTable);
    invariant [entries] forall struct NKVMObjectElement *e; {e->own} \entry(\alive(e)) && isob(vm, \as(struct NKVMObject *, e->own)) ==> \alive(e);
    variant gcState.closedList == NULL ? 0 : gcState.closedList->epos + 1;
  }
}
