// Terminated texts.  slen(m): position of the first zero of a character map.
logic integer slen(imap m);
logic integer txt(imap m);          // identity of a text: equal exactly for equal texts
pred is_str(imap m) = slen(m) >= 0 && m[slen(m)] == 0 && (forall integer i; {m[i]} 0 <= i && i < slen(m) ==> m[i] != 0);
axiom slen_def: forall imap m, integer n; {slen(m), m[n]} n >= 0 && m[n] == 0 && (forall integer i; {m[i]} 0 <= i && i < n ==> m[i] != 0) ==> slen(m) == n;
axiom txt_same: forall imap m, imap k; {txt(m), txt(k)} {txt(m), slen(k)} is_str(m) && (forall integer i; {k[i]} {m[i]} 0 <= i && i <= slen(m) ==> m[i] == k[i]) ==> txt(m) == txt(k) && slen(k) == slen(m) && is_str(k);
axiom txt_diff: forall imap m, imap k; {txt(m), txt(k)} is_str(m) && is_str(k) && txt(m) == txt(k) ==> slen(m) == slen(k) && (forall integer i; {k[i]} {m[i]} 0 <= i && i <= slen(m) ==> m[i] == k[i]);
fun imap chars(const char *p) = \chars(p);
// a text shorter than 4 GiB (the helpers count with 32 bits), all of it readable
pred cstr(const char *p) = is_str(\chars(p)) && slen(\chars(p)) < 0xfffffffe && \valid(p, slen(\chars(p)) + 1);
fun integer len(const char *p) = slen(\chars(p));
fun integer text(const char *p) = txt(\chars(p));
