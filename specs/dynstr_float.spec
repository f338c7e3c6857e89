// sprintf as this call site uses it: "%f", at most 48 characters with the terminator
logic double f_text(imap m, integer i, integer j);   // the number whose %f text stands from i up to j
axiom f_text_shift: forall imap m, imap k, integer i, integer j, integer a, integer b; {f_text(m, i, j), f_text(k, a, b)} b - a == j - i && (forall integer y; {k[y]} a <= y && y < b ==> k[y] == m[y - a + i]) ==> f_text(k, a, b) == f_text(m, i, j);
extern contract sprintf(char *out, const char *fmt, double n) : int {
  requires [format] fmt[0] == 37 && fmt[1] == 102 && fmt[2] == 0;
  requires [room] \valid(out, 48);
  nothrow; writes cell:i8; assigns out[0 .. 48];
  ensures [text] cstr(out) && 1 <= len(out) && len(out) < 48;
  ensures [number] f_text(\chars(out), 0, len(out)) == n;
}
contract nkiDynStrAppendFloat {
  opt literals;
  requires dynstr(dynStr);
  assigns dynStr->data, dynStr->vm->currentMemoryUsage, dynStr->vm->peakMemoryUsage, dynStr->vm->errorState.allocationFailure, dynStr->vm->errorState.lastError, dynStr->vm->errorState.firstError, \free(dynStr->data);
  ensures [ok] dynstr(dynStr) && dynStr->vm == \old(dynStr->vm) && \fresh(dynStr->data);
  ensures [length] len(dynStr->data) > \old(len(dynStr->data)) && len(dynStr->data) < \old(len(dynStr->data)) + 48;
  ensures [front] forall integer j; {dynStr->data[j]} 0 <= j && j < \old(len(dynStr->data)) ==> dynStr->data[j] == \old(dynStr->data[j]);
  ensures [number] f_text(\chars(dynStr->data), \old(len(dynStr->data)), len(dynStr->data)) == (double)value;
  exsures [flag] dynStr->vm->errorState.allocationFailure == 1;
  exsures [kept] dynstr(dynStr) && dynStr->data == \old(dynStr->data) && (forall integer j; {dynStr->data[j]} dynStr->data[j] == \old(dynStr->data[j]));
}
