// nkstring.c: replacements of the C library helpers, on raw bytes
contract nkiStrlen {
  requires cstr(str);
  nothrow; assigns \nothing; writes \nothing;
  ensures [length] \result == len(str);
  loop 0 { invariant i <= len(str); variant len(str) - i; }
}
contract nkiStrcmp {
  requires cstr(a) && cstr(b);
  nothrow; assigns \nothing; writes \nothing;
  ensures [equal] \result == 0 <==> text(a) == text(b);
  ensures [order] \result == -1 || \result == 0 || \result == 1;
  ensures [less] \result == -1 ==> (exists integer k; 0 <= k && k <= len(a) && k <= len(b) && a[k] < b[k] && (forall integer j; 0 <= j && j < k ==> a[j] == b[j]));
  ensures [greater] \result == 1 ==> (exists integer k; 0 <= k && k <= len(a) && k <= len(b) && a[k] > b[k] && (forall integer j; 0 <= j && j < k ==> a[j] == b[j]));
  loop 0 { invariant i <= len(a) && i <= len(b) && (forall integer j; {a[j]} {b[j]} {\chars(a)[j]} {\chars(b)[j]} 0 <= j && j < i ==> a[j] == b[j]); variant len(a) - i; }
}
contract nkiStrcpy_s {
  // room for what is copied and the terminator
  requires [src] cstr(src);
  requires [dst] \valid(dst, (len(src) < len ? len(src) : len) + 1);
  requires [apart] \blk(dst) != \blk(src);
  nothrow; assigns dst[0 .. (len(src) < len ? len(src) : len) + 1]; writes cell:i8;
  ensures [terminated] \chars(dst)[len(src) < len ? len(src) : len] == 0;
  ensures [copied] forall integer j; {dst[j]} {\chars(dst)[j]} 0 <= j && j < len(src) && j < len ==> dst[j] == src[j];
  ensures [length] len(dst) == (len(src) < len ? len(src) : len);
  ensures [is] is_str(\chars(dst));
  ensures [whole] len(src) <= len ==> text(dst) == text(src);
  loop 0 {
    invariant i <= \old(len(src)) && i <= len && i < 0xffffffff;
    invariant forall integer j; {dst[j]} {src[j]} {\chars(dst)[j]} 0 <= j && j < i ==> dst[j] == src[j];
    invariant forall integer j; {src[j]} {\chars(src)[j]} src[j] == \old(src[j]);

    variant \old(len(src)) - i;
  }
}
contract nkiStrcpy {
  requires [src] cstr(src);
  requires [dst] \valid(dst, len(src) + 1);
  requires [apart] \blk(dst) != \blk(src);
  nothrow; assigns dst[0 .. len(src) + 1]; writes cell:i8;
  ensures [is] is_str(\chars(dst)) && len(dst) == len(src) && text(dst) == text(src);
}
contract nkiStrcat {
  requires [src] cstr(src) && cstr(dst);
  requires [dst] len(dst) + len(src) < 0xfffffffe && \valid(dst, len(dst) + len(src) + 1);
  requires [apart] \blk(dst) != \blk(src);
  nothrow; assigns dst[len(dst) .. len(dst) + len(src) + 1]; writes cell:i8;
  ensures [front] forall integer j; {dst[j]} 0 <= j && j < \old(len(dst)) ==> dst[j] == \old(dst[j]);
  ensures [back] forall integer j; {src[j]} 0 <= j && j <= len(src) ==> dst[\old(len(dst)) + j] == src[j];
  ensures [terminated] \chars(dst)[\old(len(dst)) + len(src)] == 0;
  ensures [nonzero] forall integer j; {\chars(dst)[j]} 0 <= j && j < \old(len(dst)) + len(src) ==> \chars(dst)[j] != 0;
  ensures [length] len(dst) == \old(len(dst)) + len(src);
  ensures [is] is_str(\chars(dst));
  loop 0 {
    invariant \old(len(dst)) == start && start <= i && i - start <= \old(len(src));
    invariant forall integer j; {dst[j]} {\chars(dst)[j]} start <= j && j < i ==> dst[j] == src[j - start];
    invariant forall integer j; {src[j]} {\chars(src)[j]} src[j] == \old(src[j]);

    variant \old(len(src)) + start - i;
  }
}
contract nkiMemset {
  requires len == 0 || \valid((char *)ptr, len);
  nothrow; assigns ((char *)ptr)[0 .. len]; writes cell:i8;
  ensures [filled] forall integer j; {((char *)ptr)[j]} 0 <= j && j < len ==> (((char *)ptr)[j] - c) % 256 == 0;
  loop 0 { invariant i <= len && (forall integer j; {((char *)ptr)[j]} 0 <= j && j < i ==> (((char *)ptr)[j] - c) % 256 == 0); variant len - i; }
}
contract nkiMemcpy {
  requires len == 0 || \valid((char *)dst, len) && \valid((const char *)src, len);
  requires [apart] \blk(dst) != \blk(src);
  nothrow; assigns ((char *)dst)[0 .. len]; writes cell:i8;
  ensures [copied] forall integer j; {((char *)dst)[j]} 0 <= j && j < len ==> ((char *)dst)[j] == \old(((const char *)src)[j]);
  loop 0 {
    invariant i <= len && (forall integer j; {((char *)dst)[j]} 0 <= j && j < i ==> ((char *)dst)[j] == \old(((const char *)src)[j]));
    invariant forall integer j; {((const char *)src)[j]} ((const char *)src)[j] == \old(((const char *)src)[j]);
    variant len - i; }
}
contract nkiMemcmp {
  requires len == 0 || \valid((const unsigned char *)a, len) && \valid((const unsigned char *)b, len);
  nothrow; assigns \nothing; writes \nothing;
  ensures [equal] \result == 0 <==> (forall integer j; 0 <= j && j < len ==> ((const unsigned char *)a)[j] == ((const unsigned char *)b)[j]);
  ensures [order] \result == -1 || \result == 0 || \result == 1;
  ensures [less] \result == -1 ==> (exists integer k; 0 <= k && k < len && ((const unsigned char *)a)[k] < ((const unsigned char *)b)[k] && (forall integer j; 0 <= j && j < k ==> ((const unsigned char *)a)[j] == ((const unsigned char *)b)[j]));
  ensures [greater] \result == 1 ==> (exists integer k; 0 <= k && k < len && ((const unsigned char *)a)[k] > ((const unsigned char *)b)[k] && (forall integer j; 0 <= j && j < k ==> ((const unsigned char *)a)[j] == ((const unsigned char *)b)[j]));
  loop 0 { invariant i <= len && (forall integer j; {((const unsigned char *)a)[j]} {((const unsigned char *)b)[j]} 0 <= j && j < i ==> ((const unsigned char *)a)[j] == ((const unsigned char *)b)[j]); variant len - i; }
}
