// nkx.c: what the host calls
contract nkxGetErrorLength {
  requires vmok(vm) && elist(vm) && efit(vm) && failstr();
  nothrow; assigns \nothing;
  ensures [length] \result == (vm->errorState.allocationFailure != 0 ? len(nkiAllocationFailureStr) + 2 : vm->erroff[vm->errn] + 1);
}
contract nkxGetErrorText {
  requires vmok(vm) && elist(vm) && efit(vm) && failstr() && \blk(nkiAllocationFailureStr) != \blk(buffer);
  requires [room] \valid(buffer, vm->errorState.allocationFailure != 0 ? len(nkiAllocationFailureStr) + 2 : vm->erroff[vm->errn] + 1);
  requires [apart] \blk(buffer) != \blk(vm) && (forall integer i; {vm->errs[i]} 0 <= i && i < vm->errn ==> \blk(err(vm, i)) != \blk(buffer) && \blk(err(vm, i)->errorText) != \blk(buffer));
  nothrow; assigns buffer[0 .. (vm->errorState.allocationFailure != 0 ? len(nkiAllocationFailureStr) + 2 : vm->erroff[vm->errn] + 1)];
  ensures [terminated] is_str(\chars(buffer)) && len(buffer) + 1 == (vm->errorState.allocationFailure != 0 ? len(nkiAllocationFailureStr) + 2 : vm->erroff[vm->errn] + 1);
  ensures [texts] vm->errorState.allocationFailure == 0 ==> (forall integer i, j; {vm->erroff[i], err(vm, i)->errorText[j]} 0 <= i && i < vm->errn && 0 <= j && j < len(err(vm, i)->errorText) ==> buffer[vm->erroff[i] + j] == err(vm, i)->errorText[j]);
  ensures [lines] vm->errorState.allocationFailure == 0 ==> (forall integer i; {vm->erroff[i]} 0 < i && i <= vm->errn ==> buffer[vm->erroff[i] - 1] == 10);
}
