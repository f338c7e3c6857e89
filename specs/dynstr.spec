// growable text buffers (nkdynstr.c)
pred vmok(struct NKVM *vm) = \valid(vm) && \rtype(vm, struct NKVM);
pred dynstr(struct NKDynString *d) = \isblock(d) && \valid(d) && \rtype(d, struct NKDynString) && vmok(d->vm) && d->data != NULL && \isblock(d->data) && cstr(d->data) && d->data != d && d->data != d->vm && d != d->vm;
// the resizing allocator as used for text (proved in mem.spec)
extern contract nkiRealloc(struct NKVM *vm, void *data, unsigned int size) : void * {
  opt typed_copy; opt alloc;
  requires [vm] \valid(vm);
  requires [block] data == NULL || \isblock(data);
  writes $alive, $born, NKVM.currentMemoryUsage, NKVM.peakMemoryUsage, NKErrorState.allocationFailure, cell:i8;
  throws;
  assigns vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure, \free(data);
  ensures [room] size <= 0xffffffff - 32;
  ensures [size0] size == 0 ==> \result == NULL;
  ensures [block] size > 0 ==> \block(\result, size) && \fresh(\result);
  ensures [contents] size > 0 && data != NULL ==> (forall integer i; {((char *)\result)[i]} 0 <= i && i < size && i < \old(\bsize(data)) ==> ((char *)\result)[i] == \old(((char *)data)[i]));
  ensures [freed] forall ptr p; {\alive(p)} \old(\alive(p)) && \root(p) != data ==> \alive(p);
  ensures [freed2] data != NULL ==> !\alive(data);
  ensures [flag] vm->errorState.allocationFailure == \old(vm->errorState.allocationFailure);
  exsures [flag] vm->errorState.allocationFailure == 1;
  exsures [alive] forall ptr p; {\alive(p)} \alive(p) <==> \old(\alive(p));
}
contract nkiDynStrCreate {
  opt literals;
  requires vmok(vm) && (str == NULL || cstr(str));
  assigns vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure;
  ensures [made] \fresh(\result) && dynstr(\result) && \result->vm == vm && \fresh(\result->data);
  ensures [copy] str != NULL ==> len(\result->data) == len(str) && text(\result->data) == text(str);
  ensures [null] str == NULL ==> len(\result->data) == 6;
  ensures [room] \bsize(\result->data) >= len(\result->data) + 1;
  exsures [flag] vm->errorState.allocationFailure == 1;
}
contract nkiDynStrDelete {
  requires dynstr(dynStr);
  nothrow;
  assigns dynStr->vm->currentMemoryUsage, \free(dynStr->data), \free(dynStr);
  ensures [freed] !\alive(dynStr) && !\alive(\old(dynStr->data));
  ensures [others] forall ptr p; {\alive(p)} \old(\alive(p)) && \root(p) != dynStr && \root(p) != \old(dynStr->data) ==> \alive(p);
}
contract nkiDynStrAppend {
  opt literals;
  requires dynstr(dynStr) && (str == NULL || cstr(str) && \blk(str) != \blk(dynStr->data) && \root(str) != dynStr->data);
  assigns dynStr->data, dynStr->vm->currentMemoryUsage, dynStr->vm->peakMemoryUsage, dynStr->vm->errorState.allocationFailure, dynStr->vm->errorState.lastError, dynStr->vm->errorState.firstError, \free(dynStr->data);
  ensures [ok] dynstr(dynStr) && dynStr->vm == \old(dynStr->vm) && \fresh(dynStr->data);
  ensures [length] str != NULL ==> len(dynStr->data) == \old(len(dynStr->data)) + len(str);
  ensures [null] str == NULL ==> len(dynStr->data) == \old(len(dynStr->data)) + 6;
  ensures [front] forall integer j; {dynStr->data[j]} 0 <= j && j < \old(len(dynStr->data)) ==> dynStr->data[j] == \old(dynStr->data[j]);
  ensures [back] str != NULL ==> (forall integer j; {str[j]} 0 <= j && j < len(str) ==> dynStr->data[\old(len(dynStr->data)) + j] == str[j]);
  ensures [room] \bsize(dynStr->data) >= len(dynStr->data) + 1;
  exsures [flag] dynStr->vm->errorState.allocationFailure == 1;
  exsures [kept] dynstr(dynStr) && dynStr->data == \old(dynStr->data) && (forall integer j; {dynStr->data[j]} dynStr->data[j] == \old(dynStr->data[j]));
}

// libc: a number in decimal
logic integer decimal(imap m, integer i, integer j);   // the number written in decimal from i up to j
axiom decimal_shift: forall imap m, imap k, integer i, integer j, integer a, integer b; {decimal(m, i, j), decimal(k, a, b)} b - a == j - i && (forall integer x; {k[x]} a <= x && x < b ==> k[x] == m[x - a + i]) ==> decimal(k, a, b) == decimal(m, i, j);
