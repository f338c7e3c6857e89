// Contract of the allocator as seen by every other module (the accounting side is proved in mem.spec).
extern contract nkiMalloc_real(const char *filename, const char *function, int lineNumber, struct NKVM *vm, unsigned int size) : void * {
  opt alloc;
  requires [vm] \valid(vm);
  writes $alive, $born, NKVM.currentMemoryUsage, NKVM.peakMemoryUsage, NKErrorState.allocationFailure;
  throws;
  assigns vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure;
  ensures [size0] size == 0 ==> \result == NULL && (forall ptr p; {\alive(p)} \alive(p) <==> \old(\alive(p)));
  ensures [block] size > 0 ==> \block(\result, size) && \fresh(\result);
  ensures [flag] vm->errorState.allocationFailure == \old(vm->errorState.allocationFailure);
  exsures [flag] vm->errorState.allocationFailure == 1;
  exsures [alive] forall ptr p; {\alive(p)} \alive(p) <==> \old(\alive(p));
}
extern contract nkiMallocArray(struct NKVM *vm, unsigned int size, unsigned int count) : void * {
  opt alloc;
  requires [vm] \valid(vm);
  requires [size] size > 0;
  writes $alive, $born, NKVM.currentMemoryUsage, NKVM.peakMemoryUsage, NKErrorState.allocationFailure;
  throws;
  assigns vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure;
  ensures [nowrap] size * count <= 0xffffffff;
  ensures [size0] count == 0 ==> \result == NULL && (forall ptr p; {\alive(p)} \alive(p) <==> \old(\alive(p)));
  ensures [block] count > 0 ==> \block(\result, size * count) && \fresh(\result);
  ensures [flag] vm->errorState.allocationFailure == \old(vm->errorState.allocationFailure);
  exsures [flag] vm->errorState.allocationFailure == 1;
  exsures [alive] forall ptr p; {\alive(p)} \alive(p) <==> \old(\alive(p));
}
extern contract nkiReallocArray(struct NKVM *vm, void *data, unsigned int size, unsigned int count) : void * {
  opt typed_copy; opt alloc;
  requires [vm] \valid(vm);
  requires [size] size > 0;
  requires [block] data == NULL || \isblock(data);
  writes $alive, $born, NKVM.currentMemoryUsage, NKVM.peakMemoryUsage, NKErrorState.allocationFailure;
  throws;
  assigns vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure, \free(data);
  ensures [nowrap] size * count <= 0xffffffff;
  ensures [size0] count == 0 ==> \result == NULL;
  ensures [block] count > 0 ==> \block(\result, size * count) && \fresh(\result);
  ensures [freed] forall ptr p; {\alive(p)} \old(\alive(p)) && \root(p) != data ==> \alive(p);
  ensures [freed2] data != NULL ==> !\alive(data);
  ensures [flag] vm->errorState.allocationFailure == \old(vm->errorState.allocationFailure);
  exsures [flag] vm->errorState.allocationFailure == 1;
  exsures [alive] forall ptr p; {\alive(p)} \alive(p) <==> \old(\alive(p));
}
extern contract nkiFree(struct NKVM *vm, void *data) {
  requires [vm] \valid(vm);
  requires [block] data == NULL || \isblock(data);
  writes $alive, NKVM.currentMemoryUsage;
  assigns vm->currentMemoryUsage, \free(data);
  ensures [freed] forall ptr p; {\alive(p)} \alive(p) <==> (\old(\alive(p)) && (data == NULL || \root(p) != data));
}
// error reporting: allocates and links an error record; touches nothing but the error list
extern contract nkiAddError(struct NKVM *vm, const char *str) {
  requires [vm] \valid(vm);
  writes $alive, $born, NKVM.currentMemoryUsage, NKVM.peakMemoryUsage, NKErrorState.allocationFailure, NKErrorState.lastError, NKErrorState.firstError;
  throws;
  assigns vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure, vm->errorState.lastError, vm->errorState.firstError;
  ensures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
  ensures [flag] vm->errorState.allocationFailure == \old(vm->errorState.allocationFailure);
  ensures [reported] vm->errorState.firstError != NULL;
  exsures [flag] vm->errorState.allocationFailure == 1;
  exsures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
}
