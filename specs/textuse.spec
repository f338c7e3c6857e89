// users of the text helpers: copies and escapes
pred vmok(struct NKVM *vm) = \valid(vm) && \rtype(vm, struct NKVM);
contract nkiStrdup {
  requires vmok(vm) && (str == NULL || cstr(str));
  assigns vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure;
  writes $alive, $born, NKVM.currentMemoryUsage, NKVM.peakMemoryUsage, NKErrorState.allocationFailure, cell:i8;
  ensures [null] str == NULL ==> \result == NULL;
  ensures [copy] str != NULL ==> \fresh(\result) && \block(\result, len(str) + 1);
  ensures [same] str != NULL ==> cstr(\result) && len(\result) == len(str) && text(\result) == text(str);
  ensures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
  exsures [alive] forall ptr p; {\alive(p)} \old(\alive(p)) ==> \alive(p);
  exsures [flag] vm->errorState.allocationFailure == 1;
}
contract nkiDbgAppendEscaped {
  requires cstr(src) && is_str(\chars(dst)) && len(dst) < bufSize && \valid(dst, bufSize) && \blk(dst) != \blk(src) && bufSize <= 0xfffffff0;
  nothrow; assigns dst[len(dst) .. bufSize];
  ensures [front] forall integer j; {dst[j]} 0 <= j && j < \old(len(dst)) ==> dst[j] == \old(dst[j]);
  ensures [terminated] exists integer n; {dst[n]} \old(len(dst)) <= n && n < bufSize && dst[n] == 0;
  loop 0 {
    invariant \old(len(dst)) <= i && i < bufSize;
    invariant 0 <= \idx(src) - \idx(\pre(src)) && \idx(src) - \idx(\pre(src)) <= \old(len(\pre(src)));
    invariant src == \shift(\pre(src), \idx(src) - \idx(\pre(src)));
    invariant forall integer j; {\pre(src)[j]} \pre(src)[j] == \old(\pre(src)[j]);
    variant \old(len(\pre(src))) - (\idx(src) - \idx(\pre(src)));
  }
}
contract nkiCompilerTokenizerUnescapeString {
  requires vmok(vm) && cstr(in);
  noframe;
  ensures [block] \fresh(\result) && \block(\result, len(in) + 2);
  ensures [plain] (forall integer j; {in[j]} 0 <= j && j < len(in) ==> in[j] != 92) ==> (forall integer j; 0 <= j && j <= len(in) ==> \result[j] == in[j]);
  ensures [terminated] exists integer n; {\result[n]} 0 <= n && n <= len(in) + 1 && \result[n] == 0;
  loop 0 {
    invariant 0 <= readIndex && readIndex <= len + 1 && writeIndex <= readIndex && len == \old(len(in)) && (readIndex <= len || writeIndex <= len + 1);
    invariant \fresh(out) && \block(out, len + 2);
    invariant forall integer j; {in[j]} in[j] == \old(in[j]);
    invariant (forall integer j; {in[j]} 0 <= j && j < len ==> in[j] != 92) ==> readIndex <= len && writeIndex == readIndex && (forall integer j; {out[j]} 0 <= j && j < readIndex ==> out[j] == in[j]);
    variant len + 1 - readIndex;
  }
}
