#include "common.h"
// P10: value comparison is an order and agrees with hashing.
typedef struct NKValue Val;
#define N 96
static Val P[N]; static const char *T[N]; static char buf[N][40]; static int n_;
static const char *show(int i) { static char b[4][96]; static int w; char *r = b[w++ & 3]; Val v = P[i]; switch(v.type) { case NK_VALUETYPE_INT: snprintf(r, 96, "int %d", v.intData); break; case NK_VALUETYPE_FLOAT: snprintf(r, 96, "float %.9g (bits %08x)", v.floatData, (unsigned)v.intData); break; case NK_VALUETYPE_STRING: snprintf(r, 96, "string \"%.60s\"", T[i]); break; case NK_VALUETYPE_NIL: snprintf(r, 96, "nil"); break; default: snprintf(r, 96, "%s %u", v.type == NK_VALUETYPE_OBJECTID ? "object" : "function", (unsigned)v.intData); } return r; }
static int sg(int x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }
static void one_case(uint64_t n) {
    static const uint32_t edge[] = {0, 1, 0xffffffffu, 0x7fffffffu, 0x80000000u, 0x80000001u, 2, 16, 0x40000000u, 0xc0000000u};
    struct NKVM *vm = new_vm(); int i, j, k, ty; static signed char C[N][N]; (void)n;
    CHECK(vm, "no machine"); n_ = 24 + (int)rndn(N - 24);
    for(i = 0; i < n_; i++) {
        memset(&P[i], (int)rndn(2) * 0xA5, sizeof P[i]); P[i].type_uint = 0; T[i] = 0;
        switch(rndn(8)) {
        case 0: case 1: P[i].type = NK_VALUETYPE_INT; P[i].intData = (nkint32_t)(rndn(2) ? edge[rndn(10)] : rnd()); break;
        case 2: case 3: P[i].type = NK_VALUETYPE_FLOAT; { static const float f[] = {0.0f, -0.0f, 1.0f, -1.0f, INFINITY, -INFINITY, 1e-45f, -1e-45f, 3.4e38f, 16777216.0f, 0.5f, 2147483648.0f}; if(rndn(2)) P[i].floatData = f[rndn(12)]; else do P[i].intData = (nkint32_t)rnd(); while(P[i].floatData != P[i].floatData); } break;
        case 4: case 5: { uint32_t l = rndn(7), q; for(q = 0; q < l; q++) buf[i][q] = rndn(3) ? "ab"[rndn(2)] : (char)(1 + rndn(255)); buf[i][l] = 0; if(i && T[i - 1] && rndn(3) == 0) strcpy(buf[i], T[i - 1]); T[i] = buf[i]; { Val v; memset(&v, 0, sizeof v); if(!GUARD(vm, nkiValueSetString(vm, &v, buf[i]))) FAIL("string refused"); P[i] = v; } } break;
        case 6: P[i].type = rndn(2) ? NK_VALUETYPE_OBJECTID : NK_VALUETYPE_FUNCTIONID; P[i].intData = (nkint32_t)(rndn(2) ? edge[rndn(10)] : rndn(4)); break;
        default: P[i].type = NK_VALUETYPE_NIL; P[i].intData = (nkint32_t)rnd(); break; }
        tr("value %d: %s\n", i, show(i));
    }
    for(i = 0; i < n_; i++) for(j = 0; j < n_; j++) for(ty = 1; ty >= 0; ty--) {
        int r = 99; if(!ty && P[i].type != P[j].type) continue;
        if(!GUARD(vm, r = nkiValueCompare(vm, &P[i], &P[j], (nkbool)ty))) FAIL("comparison abandoned");
        if(ty) C[i][j] = (signed char)sg(r);
        if(!ty) { CHECK(sg(r) == C[i][j], "loose and strict comparison of %s and %s disagree", show(i), show(j)); continue; }
        if(P[i].type != P[j].type) { CHECK(r != 0, "%s equals %s", show(i), show(j)); continue; }
        switch(P[i].type) {
        case NK_VALUETYPE_INT: { int e = P[i].intData < P[j].intData ? -1 : P[i].intData > P[j].intData; CHECK(sg(r) == e, "%s against %s gives %d", show(i), show(j), r); break; }
        case NK_VALUETYPE_FLOAT: { int e = P[i].floatData < P[j].floatData ? -1 : P[i].floatData > P[j].floatData; CHECK(sg(r) == e, "%s against %s gives %d", show(i), show(j), r); break; }
        case NK_VALUETYPE_STRING: CHECK((r == 0) == !strcmp(T[i], T[j]), "%s against %s gives %d", show(i), show(j), r); break;
        case NK_VALUETYPE_NIL: CHECK(r == 0, "nil against nil gives %d", r); break;
        default: CHECK((r == 0) == (P[i].intData == P[j].intData), "%s against %s gives %d", show(i), show(j), r); }
        if(r == 0) { uint32_t a = 0, b = 0; GUARD(vm, a = nkiValueHash(vm, &P[i])); GUARD(vm, b = nkiValueHash(vm, &P[j])); CHECK(a == b, "%s equals %s but they hash to %08x and %08x", show(i), show(j), a, b); }
    }
    for(i = 0; i < n_; i++) { CHECK(C[i][i] == 0, "%s differs from itself", show(i)); for(j = 0; j < n_; j++) { CHECK(C[i][j] == -C[j][i], "%s and %s compare %d and %d", show(i), show(j), C[i][j], C[j][i]); for(k = 0; k < n_; k++) if(C[i][j] <= 0 && C[j][k] <= 0) CHECK(C[i][k] <= 0 && (C[i][k] < 0 || (C[i][j] == 0 && C[j][k] == 0)), "not transitive: %s, %s, %s compare %d %d %d", show(i), show(j), show(k), C[i][j], C[j][k], C[i][k]); } }
    nkxVmDelete(vm);
}
