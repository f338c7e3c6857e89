// nkerror.c: the list of reported errors, its measured length and its text
ghost field struct NKVM errs : iptr;        // the recorded errors, oldest first
ghost field struct NKVM errn : integer;     // how many there are
ghost field struct NKVM erroff : imap;      // where the text of each starts in the report
ghost field struct NKError eidx : integer;  // its place among them

fun struct NKError *err(struct NKVM *vm, integer i) = \as(struct NKError *, vm->errs[i]);
fun integer at(struct NKVM *vm, struct NKError *e) = e == NULL ? vm->errn : e->eidx;
pred eent(struct NKVM *vm, struct NKError *e) = e != NULL && 0 <= e->eidx && e->eidx < vm->errn && vm->errs[e->eidx] == e;
lemma slen_zero: forall imap m; {slen(m)} m[0] == 0 ==> slen(m) == 0;
pred vmok(struct NKVM *vm) = \valid(vm) && \rtype(vm, struct NKVM);
// each recorded error exists once, linked to the one reported after it, with a text
pred elinks(struct NKVM *vm) = vm->errn >= 0 &&
  (vm->errn == 0 ? vm->errorState.firstError == NULL && vm->errorState.lastError == NULL : vm->errorState.firstError == vm->errs[0] && vm->errorState.lastError == vm->errs[vm->errn - 1]) &&
  (forall integer i; {vm->errs[i]} 0 <= i && i < vm->errn ==> \isblock(err(vm, i)) && \alive(err(vm, i)) && \bsize(err(vm, i)) == \sizeof(struct NKError) && \rtype(err(vm, i), struct NKError) && err(vm, i)->eidx == i) &&
  (forall integer i; {vm->errs[i]} 0 <= i && i < vm->errn ==> err(vm, i)->next == (i + 1 < vm->errn ? vm->errs[i + 1] : NULL));
pred edistinct(struct NKVM *vm) = (forall integer i, k; {vm->errs[i], vm->errs[k]} 0 <= i && i < k && k < vm->errn ==> err(vm, i)->errorText != err(vm, k)->errorText && err(vm, i) != err(vm, k)) &&
  (forall integer i, k; {vm->errs[i], vm->errs[k]} 0 <= i && i < vm->errn && 0 <= k && k < vm->errn ==> err(vm, i)->errorText != err(vm, k));
pred etexts(struct NKVM *vm) = edistinct(vm) && forall integer i; {vm->errs[i]} 0 <= i && i < vm->errn ==> \isblock(err(vm, i)->errorText) && cstr(err(vm, i)->errorText);
// where each text goes in the report, the whole of which is shorter than 4 GiB
pred eoffs(struct NKVM *vm) = vm->erroff[0] == 0 &&
  (forall integer i; {vm->errs[i]} {vm->erroff[i]} 0 <= i && i < vm->errn ==> vm->erroff[i] >= 0 && vm->erroff[i + 1] == vm->erroff[i] + len(err(vm, i)->errorText) + 1) &&
  (forall integer i, k; {vm->erroff[i], vm->erroff[k]} 0 <= i && i < k && k <= vm->errn ==> vm->erroff[i] + len(err(vm, i)->errorText) + 1 <= vm->erroff[k]);
pred elist(struct NKVM *vm) = elinks(vm) && etexts(vm) && eoffs(vm);
pred efit(struct NKVM *vm) = vm->erroff[vm->errn] < 0xfffffff0;
pred failstr() = cstr(nkiAllocationFailureStr) && len(nkiAllocationFailureStr) < 1000;

contract nkiErrorStateSetAllocationFailFlag {
  requires vmok(vm);
  nothrow; assigns vm->errorState.allocationFailure;
  ensures [flag] vm->errorState.allocationFailure != 0;
}
contract nkiErrorStateInit {
  requires vmok(vm);
  nothrow; assigns vm->errorState.firstError, vm->errorState.lastError, vm->errorState.allocationFailure, vm->errn, vm->erroff;
  ghost_exit { vm->errn := 0; vm->erroff[0] := 0; }
  ensures [empty] elist(vm) && vm->errn == 0 && vm->errorState.allocationFailure == 0;
}
contract nkiErrorStateDestroy {
  requires vmok(vm) && elist(vm);
  nothrow; assigns vm->currentMemoryUsage, vm->errorState.firstError, { integer i | 0 <= i && i < vm->errn } \free(vm->errs[i]), { integer i | 0 <= i && i < vm->errn } \free(err(vm, i)->errorText);
  ensures [freed] forall integer i; {vm->errs[i]} 0 <= i && i < vm->errn ==> !\alive(err(vm, i)) && !\alive(err(vm, i)->errorText);
  ensures [kept] forall ptr p; {\alive(p)} \old(\alive(p)) && \root(p) == p && (forall integer i; {vm->errs[i]} 0 <= i && i < vm->errn ==> p != vm->errs[i] && p != err(vm, i)->errorText) ==> \alive(p);
  ensures [empty] vm->errorState.firstError == NULL;
  loop 0 {
    invariant e == NULL || eent(vm, e);
    invariant [left] forall integer i; {vm->errs[i]} at(vm, e) <= i && i < vm->errn ==> \alive(err(vm, i)) && \alive(err(vm, i)->errorText);
    invariant [freed] forall integer i; {vm->errs[i]} 0 <= i && i < at(vm, e) ==> !\alive(err(vm, i)) && !\alive(err(vm, i)->errorText);
    invariant [kept] forall ptr p; {\alive(p)} \old(\alive(p)) && \root(p) == p && (forall integer i; {vm->errs[i]} 0 <= i && i < vm->errn ==> p != vm->errs[i] && p != err(vm, i)->errorText) ==> \alive(p);
    variant vm->errn - at(vm, e);
  }
}
contract nkiVmHasErrors {
  requires vmok(vm) && elinks(vm);
  nothrow; assigns \nothing;
  ensures [any] (\result != 0) <==> (vm->errn > 0 || vm->errorState.allocationFailure != 0);
}
contract nkiGetErrorCount {
  requires vmok(vm) && elinks(vm) && vm->errn < 0xfffffffe;
  nothrow; assigns \nothing;
  ensures [count] \result == vm->errn + (vm->errorState.allocationFailure != 0 ? 1 : 0);
  loop 0 {
    invariant error == NULL || eent(vm, error);
    invariant count == at(vm, error);
    variant vm->errn - count;
  }
}
contract nkiGetErrorLength {
  requires vmok(vm) && elist(vm) && efit(vm) && failstr();
  nothrow; assigns \nothing;
  ensures [failed] vm->errorState.allocationFailure != 0 ==> \result == len(nkiAllocationFailureStr) + 2;
  ensures [length] vm->errorState.allocationFailure == 0 ==> \result == vm->erroff[vm->errn] + 1;
  loop 0 {
    invariant error == NULL || eent(vm, error);
    invariant length == vm->erroff[at(vm, error)] + 1;
    variant vm->errn - at(vm, error);
  }
}
contract nkiGetErrorText {
  opt literals; opt charframe;
  requires vmok(vm) && elist(vm) && efit(vm) && failstr() && \blk(nkiAllocationFailureStr) != \blk(buffer);
  // room for exactly the reported length
  requires [room] \valid(buffer, vm->errorState.allocationFailure != 0 ? len(nkiAllocationFailureStr) + 2 : vm->erroff[vm->errn] + 1);
  requires [apart] \blk(buffer) != \blk(vm) && (forall integer i; {vm->errs[i]} 0 <= i && i < vm->errn ==> \blk(err(vm, i)) != \blk(buffer) && \blk(err(vm, i)->errorText) != \blk(buffer));
  nothrow; assigns buffer[0 .. (vm->errorState.allocationFailure != 0 ? len(nkiAllocationFailureStr) + 2 : vm->erroff[vm->errn] + 1)];
  ensures [terminated] is_str(\chars(buffer)) && len(buffer) + 1 == (vm->errorState.allocationFailure != 0 ? len(nkiAllocationFailureStr) + 2 : vm->erroff[vm->errn] + 1);
  ensures [failed] vm->errorState.allocationFailure != 0 ==> buffer[len(nkiAllocationFailureStr)] == 10 && (forall integer j; {nkiAllocationFailureStr[j]} 0 <= j && j < len(nkiAllocationFailureStr) ==> buffer[j] == nkiAllocationFailureStr[j]);
  ensures [texts] vm->errorState.allocationFailure == 0 ==> (forall integer i, j; {vm->erroff[i], err(vm, i)->errorText[j]} 0 <= i && i < vm->errn && 0 <= j && j < len(err(vm, i)->errorText) ==> buffer[vm->erroff[i] + j] == err(vm, i)->errorText[j]);
  ensures [lines] vm->errorState.allocationFailure == 0 ==> (forall integer i; {vm->erroff[i]} 0 < i && i <= vm->errn ==> buffer[vm->erroff[i] - 1] == 10);
  loop 0 {
    invariant error == NULL || eent(vm, error);
    invariant is_str(\chars(buffer)) && len(buffer) == vm->erroff[at(vm, error)];
    invariant [texts] forall integer i, j; {vm->erroff[i], err(vm, i)->errorText[j]} 0 <= i && i < at(vm, error) && 0 <= j && j < len(err(vm, i)->errorText) ==> buffer[vm->erroff[i] + j] == err(vm, i)->errorText[j];
    invariant [lines] forall integer i; {vm->erroff[i]} 0 < i && i <= at(vm, error) ==> buffer[vm->erroff[i] - 1] == 10;
    invariant [same] forall integer i; {vm->errs[i]} 0 <= i && i < vm->errn ==> cstr(err(vm, i)->errorText) && len(err(vm, i)->errorText) == \old(len(err(vm, i)->errorText));
    variant vm->errn - at(vm, error);
  }
}
// libc
extern contract sprintf(char *out, const char *fmt, const char *a, nkuint32_t n, const char *b) : int {
  // "%s:%u: %s": the texts, at most ten digits, three separators and the terminator
  requires [format] fmt[0] == 37 && fmt[1] == 115 && fmt[2] == 58 && fmt[3] == 37 && fmt[4] == 117 && fmt[5] == 58 && fmt[6] == 32 && fmt[7] == 37 && fmt[8] == 115 && fmt[9] == 0;
  requires [texts] cstr(a) && cstr(b) && len(a) + len(b) + 14 < 0xfffffffe;
  requires [room] \valid(out, len(a) + len(b) + 14);
  requires [apart] \blk(a) != \blk(out) && \blk(b) != \blk(out);
  nothrow; writes cell:i8; assigns out[0 .. len(a) + len(b) + 14];
  ensures [text] cstr(out) && len(a) + len(b) + 4 <= len(out) && len(out) <= len(a) + len(b) + 13;
  ensures [first] forall integer j; {a[j]} 0 <= j && j < len(a) ==> out[j] == a[j];
  ensures [colon] out[len(a)] == 58;
  ensures [digits] decimal(\chars(out), len(a) + 1, len(out) - len(b) - 2) == n && out[len(out) - len(b) - 2] == 58 && out[len(out) - len(b) - 1] == 32;
  ensures [last] forall integer j; {b[j]} 0 <= j && j < len(b) ==> out[len(out) - len(b) + j] == b[j];
}
logic integer decimal(imap m, integer i, integer j);   // the number written in decimal from i up to j
// what the error reports refer to: source files and positions
pred sources(struct NKVM *vm) = (vm->sourceFileCount > 0 ==> \valid(vm->sourceFileList, vm->sourceFileCount)) && (forall integer i; {vm->sourceFileList[i]} 0 <= i && i < vm->sourceFileCount ==> vm->sourceFileList[i] == NULL || cstr(vm->sourceFileList[i]));
pred markers(struct NKVM *vm) = vm->positionMarkerList != NULL && vm->positionMarkerCount > 0 ==> \valid(vm->positionMarkerList, vm->positionMarkerCount);
contract nkiVmFindSourceMarker {
  requires vmok(vm) && markers(vm);
  nothrow; assigns \nothing;
  ensures [none] vm->positionMarkerList == NULL || vm->positionMarkerCount == 0 ==> \result == NULL;
  ensures [one] vm->positionMarkerList != NULL && vm->positionMarkerCount > 0 ==> (exists integer i; {\shift(vm->positionMarkerList, i)} 0 <= i && i < vm->positionMarkerCount && \result == &vm->positionMarkerList[i] && (i + 1 < vm->positionMarkerCount ==> vm->positionMarkerList[i + 1].instructionIndex > instructionIndex));
  loop 0 { invariant i < vm->positionMarkerCount; variant vm->positionMarkerCount - i; }
}
pred erroom(struct NKVM *vm) = vm->errn < 0xffffffff;
contract nkiAddErrorEx {
  opt literals; opt charframe; opt prune;
  requires vmok(vm) && elist(vm) && sources(vm) && markers(vm) && cstr(str) && \valid(vm->currentExecutionContext) && \rtype(vm->currentExecutionContext, struct NKVMExecutionContext);
  requires [size] forall integer i; {vm->sourceFileList[i]} 0 <= i && i < vm->sourceFileCount && vm->sourceFileList[i] != NULL ==> len(vm->sourceFileList[i]) + len(str) < 0xffffff00;
  requires [size] len(str) < 0xffffff00;
  assigns vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure, vm->errorState.firstError, vm->errorState.lastError, vm->errs, vm->errn, vm->erroff, heap NKError.next, heap $G_NKError_eidx;
  ghost_exit {
    \as(struct NKError *, vm->errorState.lastError)->eidx := vm->errn;
    vm->errs[vm->errn] := vm->errorState.lastError;
    vm->errn := vm->errn + 1;
    vm->erroff[vm->errn] := vm->erroff[vm->errn - 1] + len(vm->errorState.lastError->errorText) + 1;
  }
  ensures [one] vm->errn == \old(vm->errn) + 1;
  ensures [kept] forall integer i; {vm->errs[i]} 0 <= i && i < \old(vm->errn) ==> vm->errs[i] == \old(vm->errs[i]) && err(vm, i)->errorText == \old(err(vm, i)->errorText) && text(err(vm, i)->errorText) == \old(text(err(vm, i)->errorText)) && len(err(vm, i)->errorText) == \old(len(err(vm, i)->errorText));
  ensures [links] elinks(vm);
  ensures [texts] etexts(vm);
  ensures [offsets] eoffs(vm);
  ensures [newest] len(vm->errorState.lastError->errorText) >= len(str) && (forall integer j; {str[j]} 0 <= j && j < len(str) ==> vm->errorState.lastError->errorText[len(vm->errorState.lastError->errorText) - len(str) + j] == str[j]);
  ensures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
  ensures [flag] vm->errorState.allocationFailure == \old(vm->errorState.allocationFailure);
  exsures [flag] vm->errorState.allocationFailure == 1;
  exsures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
}
// the contract other modules rely on (alloc.spec), now with what it needs
contract nkiAddError {
  requires vmok(vm) && elist(vm) && sources(vm) && markers(vm) && cstr(str) && \valid(vm->currentExecutionContext) && \rtype(vm->currentExecutionContext, struct NKVMExecutionContext);
  requires [size] forall integer i; {vm->sourceFileList[i]} 0 <= i && i < vm->sourceFileCount && vm->sourceFileList[i] != NULL ==> len(vm->sourceFileList[i]) + len(str) < 0xffffff00;
  requires [size] len(str) < 0xffffff00;
  assigns vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure, vm->errorState.firstError, vm->errorState.lastError, vm->errs, vm->errn, vm->erroff, heap NKError.next, heap $G_NKError_eidx;
  ensures [one] vm->errn == \old(vm->errn) + 1;
  ensures [list] elist(vm);
  ensures [reported] vm->errorState.firstError != NULL;
  ensures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
  ensures [flag] vm->errorState.allocationFailure == \old(vm->errorState.allocationFailure);
  exsures [flag] vm->errorState.allocationFailure == 1;
  exsures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
}
