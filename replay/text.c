#include "common.h"
void nkiDbgAppendEscaped(nkuint32_t bufSize, char *dst, const char *src);
char *nkiCompilerTokenizerUnescapeString(struct NKVM *vm, const char *in);
// P19: text and memory helpers on exactly sized heap blocks; the sanitizer sees every byte outside them.
static char *mk(uint32_t n, int mode) {   // a terminated text of n characters in a block of n+1 bytes
    char *p = (char *)malloc(n + 1); uint32_t i;
    for(i = 0; i < n; i++) { int c; switch(mode) { case 0: c = 'a' + rndn(2); break; case 1: c = 1 + rndn(255); break; case 2: c = "\n\t\"\\rnt0x"[rndn(9)]; break; default: c = (rndn(6) ? 'a' : 0x80 + rndn(128)); } p[i] = (char)c; }
    p[n] = 0; return p;
}
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
static int cmp_chars(const char *a, const char *b) { while(*a && *a == *b) a++, b++; return *a < *b ? -1 : *a > *b; }
static uint32_t len_(void) { switch(rndn(4)) { case 0: return rndn(3); case 1: return rndn(12); case 2: return rndn(70); default: return (1u << rndn(10)) + rndn(3) - 1; } }
static void hex(const char *n, const char *p, uint32_t l) { uint32_t i; tr("%s(%u)=", n, l); for(i = 0; i < l && i < 200; i++) tr("%02x", (unsigned char)p[i]); tr("\n"); }
static void one_case(uint64_t n) {
    static struct NKVM *vm; int k; if(!vm) vm = new_vm();
    (void)n;
    for(k = 0; k < 40; k++) {
        uint32_t l = len_(), m = len_(), i; int mode = rndn(4); char *a = mk(l, mode), *b = mk(m, mode);
        if(rndn(3) == 0) { free(b); b = (char *)malloc(l + 1); memcpy(b, a, l + 1); m = l; if(l && rndn(2)) { uint32_t p = rndn(l); b[p] = (char)(rndn(255) + 1); } }
        trace_reset(); hex("a", a, l); hex("b", b, m);
        tr("nkiStrlen(a)\n"); CHECK(nkiStrlen(a) == l, "%u", nkiStrlen(a));
        tr("nkiStrcmp(a,b)\n"); { int r = nkiStrcmp(a, b); CHECK(r == cmp_chars(a, b), "%d", r); }
        { uint32_t lim = rndn(4) ? rndn(l + 3) : 0xffffffffu; uint32_t want = l < lim ? l : lim; char *d = (char *)malloc(want + 1); memset(d, 0x5a, want + 1); tr("nkiStrcpy_s(d[%u], a, %u)\n", want + 1, lim); nkiStrcpy_s(d, a, lim);
          CHECK(!memcmp(d, a, want) && d[want] == 0, "bounded copy"); free(d); }
        { char *d = (char *)malloc(l + 1); tr("nkiStrcpy\n"); nkiStrcpy(d, a); CHECK(!memcmp(d, a, l + 1), "copy"); free(d); }
        { char *d = (char *)malloc(l + m + 1); memcpy(d, a, l + 1); memset(d + l + 1, 0x5a, m); tr("nkiStrcat\n"); nkiStrcat(d, b); CHECK(!memcmp(d, a, l) && !memcmp(d + l, b, m + 1), "append"); free(d); }
        { uint32_t c = rnd(); char *d = (char *)malloc(l + 1); d[l] = 0x33; tr("nkiMemset(d, %u, %u)\n", c, l); nkiMemset(d, c, l); for(i = 0; i < l; i++) CHECK((unsigned char)d[i] == (unsigned char)c, "byte %u is %u", i, d[i]); CHECK(d[l] == 0x33, "wrote past the end"); free(d); }
        { char *d = (char *)malloc(l ? l : 1), *s = (char *)malloc(l ? l : 1); memcpy(s, a, l); if(l) s[rndn(l)] = 0; tr("nkiMemcpy\n"); nkiMemcpy(d, s, l); CHECK(!memcmp(d, s, l), "memory copy"); free(d); free(s); }
        { uint32_t q = l < m ? l : m; char *d = (char *)malloc(q ? q : 1), *s = (char *)malloc(q ? q : 1); memcpy(d, a, q); memcpy(s, b, q); if(q && rndn(2)) d[rndn(q)] = 0; if(q && rndn(3) == 0) { memcpy(s, d, q); s[q - 1] ^= (char)(1 << rndn(8)); } tr("nkiMemcmp(.., %u)\n", q);
          { int r = nkiMemcmp(d, s, q); CHECK(r == sgn(memcmp(d, s, q)), "%d", r); } free(d); free(s); }
        { char *d = NULL; int ok; tr("nkiStrdup(a)\n"); ok = GUARD(vm, d = nkiStrdup(vm, a)); CHECK(ok && d, "refused"); CHECK(!memcmp(d, a, l + 1), "duplicate differs"); nkiFree(vm, d); CHECK(nkiStrdup(vm, NULL) == NULL, "null"); }
        { uint32_t pre = rndn(6), size = pre + 1 + rndn(l + 8), need = 0, o; char *d = (char *)malloc(size), *w = (char *)malloc(pre + 2 * l + 8); memset(d, 0x5a, size); memset(d, 'q', pre); d[pre] = 0; tr("nkiDbgAppendEscaped(%u, d with %u chars, a)\n", size, pre);
          nkiDbgAppendEscaped(size, d, a);
          CHECK(memchr(d, 0, size) != NULL, "not terminated");
          memset(w, 'q', pre); o = pre; for(i = 0; i < l; i++) { char c = a[i]; if(c == '\n') w[o++] = '\\', w[o++] = 'n'; else if(c == '\t') w[o++] = '\\', w[o++] = 't'; else if(c == '"') w[o++] = '\\', w[o++] = '"'; else w[o++] = c; } w[o] = 0; need = o + 1;
          { uint32_t dl = (uint32_t)strlen(d); CHECK(dl >= pre && dl <= o && !memcmp(d, w, dl), "escaped text differs"); if(size >= need + 2) CHECK(dl == o, "text cut although it fits (%u of %u in %u)", dl, o, size); } free(d); free(w); }
        { char *d = NULL, *w = (char *)malloc(2 * l + 4); uint32_t o = 0; int ok; tr("nkiCompilerTokenizerUnescapeString(a)\n"); ok = GUARD(vm, d = nkiCompilerTokenizerUnescapeString(vm, a)); CHECK(ok && d, "refused");
          for(i = 0; i < l; i++) { if(a[i] == '\\') { i++; switch(a[i]) { case 'n': w[o++] = '\n'; break; case 'r': w[o++] = '\r'; break; case 't': w[o++] = '\t'; break; case '"': w[o++] = '"'; break; default: w[o++] = '\\'; w[o++] = a[i]; } } else w[o++] = a[i]; } w[o] = 0;
          CHECK(!strcmp(d, w), "unescaped text differs"); nkiFree(vm, d); free(w); }
        free(a); free(b);
    }
}
