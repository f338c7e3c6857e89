// nkmem.c against the host: what is handed out, what is counted, what is listed.
const HDR = 32;
// live[h] is the size, header included, of the block with header h while it is handed out, and 0 otherwise
ghost field struct NKVM live : pmap;
// total(m): the sum of all entries of a map with finitely many non-zero entries
logic integer total(pmap m);
logic bool finite(pmap m);
axiom total_upd: forall pmap m, ptr h, integer v; {total(\store(m, h, v))} finite(m) ==> total(\store(m, h, v)) == total(m) - m[h] + v;
axiom finite_upd: forall pmap m, ptr h, integer v; {finite(\store(m, h, v))} finite(m) ==> finite(\store(m, h, v));
axiom total_ge: forall pmap m, ptr h; {total(m), m[h]} finite(m) && (forall ptr k; {m[k]} m[k] >= 0) ==> total(m) >= m[h];

fnptr NKVM.mallocReplacement(unsigned int size, void *userData) : void * {
  opt alloc;
  writes $alive, $born;
  assigns \nothing;
  ensures \result != NULL ==> \block(\result, size) && \fresh(\result);
  ensures \result == NULL ==> (forall ptr p; {\alive(p)} \alive(p) <==> \old(\alive(p)));
}
fnptr NKVM.freeReplacement(void *p, void *userData) {
  requires [whole] \isblock(p);
  writes $alive;
  assigns \free(p);
  ensures forall ptr q; {\alive(q)} \alive(q) <==> (\old(\alive(q)) && \root(q) != p);
}

pred vm_ok(struct NKVM *vm) = \valid(vm) && \rtype(vm, struct NKVM) && vm->mallocReplacement != NULL && vm->freeReplacement != NULL;
pred isheader(struct NKVM *vm, struct NKMemoryHeader *h) =
   \block(h, HDR + h->size) && \rtype(h, struct NKMemoryHeader) && h->size > 0 && vm->live[h] == HDR + h->size && vm->live[h] <= 0xffffffff && h->vm == vm;
// the list links every block handed out, each exactly once
pred listed(struct NKVM *vm) =
  (forall struct NKMemoryHeader *h; {vm->live[h]} vm->live[h] != 0 ==> isheader(vm, h)
      && (h->nextAllocation != NULL ==> vm->live[h->nextAllocation] != 0 && h->nextAllocation->prevAllocationPtr == &h->nextAllocation)
      && (h->prevAllocationPtr == &vm->allocations ? vm->allocations == h :
           \isfield(NKMemoryHeader, nextAllocation, h->prevAllocationPtr) && vm->live[\owner(NKMemoryHeader, nextAllocation, h->prevAllocationPtr)] != 0 &&
           h->prevAllocationPtr == &\owner(NKMemoryHeader, nextAllocation, h->prevAllocationPtr)->nextAllocation &&
           \owner(NKMemoryHeader, nextAllocation, h->prevAllocationPtr)->nextAllocation == h))
  && (vm->allocations != NULL ==> vm->live[vm->allocations] != 0 && vm->allocations->prevAllocationPtr == &vm->allocations);
pred counted(struct NKVM *vm) = finite(vm->live) && (forall ptr h; {vm->live[h]} vm->live[h] >= 0) && vm->currentMemoryUsage == total(vm->live) && vm->currentMemoryUsage <= vm->peakMemoryUsage;
pred mem_ok(struct NKVM *vm) = vm_ok(vm) && listed(vm) && counted(vm);
// what the user is given is the space behind a header
pred userblock(struct NKVM *vm, void *p) = p != NULL && vm->live[\shift(\as(struct NKMemoryHeader *, p), 0-1)] != 0;

contract nkiMalloc_real {
  requires [vm] mem_ok(vm);
  requires [recovery] vm->catastrophicFailureJmpBuf != NULL;
  assigns vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure, vm->allocations, vm->live, vm->allocations->prevAllocationPtr;
  ghost_exit { if(\result != NULL) { vm->live[\shift(\as(struct NKMemoryHeader *, \result), 0-1)] := size + HDR; } }
  ensures [counted] counted(vm);
  ensures [listed] listed(vm);
  ensures [room] size <= 0xffffffff - HDR;
  ensures [size0] size == 0 ==> \result == NULL;
  ensures [unchanged] \result == NULL ==> size == 0 && vm->currentMemoryUsage == \old(vm->currentMemoryUsage) && vm->peakMemoryUsage == \old(vm->peakMemoryUsage) && vm->live == \old(vm->live);
  ensures [block] \result != NULL ==> userblock(vm, \result) && \fresh(\result) && \shift(\as(struct NKMemoryHeader *, \result), 0-1)->size == size && \old(vm->live[\shift(\as(struct NKMemoryHeader *, \result), 0-1)]) == 0;
  ensures [limit] \result != NULL ==> vm->currentMemoryUsage <= vm->limits.maxAllocatedMemory;
  ensures [usage] \result != NULL ==> vm->currentMemoryUsage == \old(vm->currentMemoryUsage) + size + HDR;
  ensures [peak] vm->peakMemoryUsage == (vm->currentMemoryUsage > \old(vm->peakMemoryUsage) ? vm->currentMemoryUsage : \old(vm->peakMemoryUsage));
  ensures [others] forall ptr h; {vm->live[h]} \result == NULL || h != \shift(\as(struct NKMemoryHeader *, \result), 0-1) ==> vm->live[h] == \old(vm->live[h]);
  ensures [flag] vm->errorState.allocationFailure == \old(vm->errorState.allocationFailure);
  exsures [refused] counted(vm) && listed(vm) && vm->currentMemoryUsage == \old(vm->currentMemoryUsage) && vm->peakMemoryUsage == \old(vm->peakMemoryUsage) && vm->live == \old(vm->live);
  exsures [flag] vm->errorState.allocationFailure == 1;
}
contract nkiFree {
  requires [vm] mem_ok(vm);
  requires [block] data == NULL || userblock(vm, data);
  nothrow;
  assigns vm->currentMemoryUsage, vm->allocations, vm->live, \free(\shift(\as(struct NKMemoryHeader *, data), 0-1)),
    \shift(\as(struct NKMemoryHeader *, data), 0-1)->nextAllocation->prevAllocationPtr, *\shift(\as(struct NKMemoryHeader *, data), 0-1)->prevAllocationPtr;
  ghost_exit { if(data != NULL) { vm->live[\shift(\as(struct NKMemoryHeader *, data), 0-1)] := 0; } }
  ensures [counted] counted(vm);
  ensures [listed] listed(vm);
  ensures [null] data == NULL ==> vm->live == \old(vm->live);
  ensures [released] data != NULL ==> vm->live == \store(\old(vm->live), \shift(\as(struct NKMemoryHeader *, data), 0-1), 0) && !\alive(data);
  ensures [peak] vm->peakMemoryUsage == \old(vm->peakMemoryUsage);
}
// contents of the user part of a block, byte by byte
ghost field struct NKMemoryHeader data : imap;
fun struct NKMemoryHeader *hd(ptr p) = \shift(\as(struct NKMemoryHeader *, p), 0-1);
extern contract nkiMemcpy(void *dest, const void *src, unsigned int len) {
  requires [bounds] len == 0 || (\alive(dest) && \alive(src) && len <= hd(dest)->size && len <= hd(src)->size);
  assigns hd(dest)->data;
  nothrow;
  ensures [copied] forall integer i; {hd(dest)->data[i]} 0 <= i && i < len ==> hd(dest)->data[i] == \old(hd(src)->data[i]);
  ensures [rest] forall integer i; {hd(dest)->data[i]} i >= len ==> hd(dest)->data[i] == \old(hd(dest)->data[i]);
}
contract nkiRealloc {
  requires [vm] mem_ok(vm);
  requires [recovery] vm->catastrophicFailureJmpBuf != NULL;
  requires [block] data == NULL || userblock(vm, data);
  noframe;
  ensures [room] size <= 0xffffffff - HDR;
  ensures [counted] counted(vm);
  ensures [listed] listed(vm);
  ensures [size0] size == 0 ==> \result == NULL;
  ensures [nonnull] size != 0 ==> \result != NULL;
  ensures [block] \result != NULL ==> userblock(vm, \result) && \fresh(\result) && hd(\result)->size == size;
  ensures [contents] \result != NULL && data != NULL ==> (forall integer i; 0 <= i && i < size && i < \old(hd(data)->size) ==> hd(\result)->data[i] == \old(hd(data)->data[i]));
  ensures [released] data != NULL ==> !\alive(data) && vm->live[hd(data)] == 0;
  ensures [others] forall ptr h; {vm->live[h]} (\result == NULL || h != hd(\result)) && (data == NULL || h != hd(data)) ==> vm->live[h] == \old(vm->live[h]);
  ensures [peak] vm->peakMemoryUsage >= \old(vm->peakMemoryUsage);
  ensures [flag] vm->errorState.allocationFailure == \old(vm->errorState.allocationFailure);
  exsures [refused] counted(vm) && listed(vm) && vm->live == \old(vm->live) && vm->currentMemoryUsage == \old(vm->currentMemoryUsage) && vm->peakMemoryUsage == \old(vm->peakMemoryUsage);
  exsures [flag] vm->errorState.allocationFailure == 1;
}
contract nkiMallocArray {
  requires [vm] mem_ok(vm);
  requires [recovery] vm->catastrophicFailureJmpBuf != NULL;
  requires [elem] size > 0;
  noframe;
  ensures [counted] counted(vm) && listed(vm);
  ensures [empty] count == 0 ==> \result == NULL;
  ensures [block] count > 0 ==> \result != NULL && userblock(vm, \result) && \fresh(\result) && hd(\result)->size == size * count;
  ensures [others] forall ptr h; {vm->live[h]} \result == NULL || h != hd(\result) ==> vm->live[h] == \old(vm->live[h]);
  ensures [flag] vm->errorState.allocationFailure == \old(vm->errorState.allocationFailure);
  exsures [refused] counted(vm) && listed(vm) && vm->live == \old(vm->live) && vm->currentMemoryUsage == \old(vm->currentMemoryUsage) && vm->peakMemoryUsage == \old(vm->peakMemoryUsage);
  exsures [flag] vm->errorState.allocationFailure == 1;
}
contract nkiReallocArray {
  requires [vm] mem_ok(vm);
  requires [recovery] vm->catastrophicFailureJmpBuf != NULL;
  requires [elem] size > 0;
  requires [block] data == NULL || userblock(vm, data);
  noframe;
  ensures [counted] counted(vm) && listed(vm);
  ensures [empty] count == 0 ==> \result == NULL;
  ensures [block] count > 0 ==> \result != NULL && userblock(vm, \result) && \fresh(\result) && hd(\result)->size == size * count;
  ensures [contents] \result != NULL && data != NULL ==> (forall integer i; 0 <= i && i < size * count && i < \old(hd(data)->size) ==> hd(\result)->data[i] == \old(hd(data)->data[i]));
  ensures [released] data != NULL ==> !\alive(data) && vm->live[hd(data)] == 0;
  ensures [others] forall ptr h; {vm->live[h]} (\result == NULL || h != hd(\result)) && (data == NULL || h != hd(data)) ==> vm->live[h] == \old(vm->live[h]);
  ensures [flag] vm->errorState.allocationFailure == \old(vm->errorState.allocationFailure);
  exsures [refused] counted(vm) && listed(vm) && vm->live == \old(vm->live) && vm->currentMemoryUsage == \old(vm->currentMemoryUsage) && vm->peakMemoryUsage == \old(vm->peakMemoryUsage);
  exsures [flag] vm->errorState.allocationFailure == 1;
}
