// sprintf as this call site uses it: "%u", at most 11 characters with the terminator
extern contract sprintf(char *out, const char *fmt, unsigned int n) : int {
  requires [format] fmt[0] == 37 && fmt[1] == 117 && fmt[2] == 0;
  requires [room] \valid(out, 11);
  nothrow; writes cell:i8; assigns out[0 .. 11];
  ensures [text] cstr(out) && 1 <= len(out) && len(out) < 11;
  ensures [number] decimal(\chars(out), 0, len(out)) == n;
}
contract nkiDynStrAppendUint32 {
  opt literals;
  requires dynstr(dynStr);
  assigns dynStr->data, dynStr->vm->currentMemoryUsage, dynStr->vm->peakMemoryUsage, dynStr->vm->errorState.allocationFailure, dynStr->vm->errorState.lastError, dynStr->vm->errorState.firstError, \free(dynStr->data);
  ensures [ok] dynstr(dynStr) && dynStr->vm == \old(dynStr->vm) && \fresh(dynStr->data);
  ensures [length] len(dynStr->data) > \old(len(dynStr->data)) && len(dynStr->data) < \old(len(dynStr->data)) + 11;
  ensures [front] forall integer j; {dynStr->data[j]} 0 <= j && j < \old(len(dynStr->data)) ==> dynStr->data[j] == \old(dynStr->data[j]);
  ensures [number] decimal(\chars(dynStr->data), \old(len(dynStr->data)), len(dynStr->data)) == value;
  exsures [flag] dynStr->vm->errorState.allocationFailure == 1;
  exsures [kept] dynstr(dynStr) && dynStr->data == \old(dynStr->data) && (forall integer j; {dynStr->data[j]} dynStr->data[j] == \old(dynStr->data[j]));
}
