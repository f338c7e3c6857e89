#include "common.h"
#include "nkopcode.h"
// P14: arithmetic, comparison and logical instructions against a reference.
typedef struct NKValue Val;
static char tx[2][64];
static const uint32_t edge[] = {0, 1, 0xffffffffu, 0x7fffffffu, 0x80000000u, 0x80000001u, 2, 255, 256, 257, 512, 65536, 0x40000000u, 0xc0000000u, 46341, 0xffffff00u};
static const float fe[] = {0.0f, -0.0f, 1.0f, -1.0f, 0.5f, -0.5f, 255.9f, 256.0f, 2147483648.0f, -2147483648.0f, 2147483520.0f, -2147483904.0f, 1e10f, -1e10f, 3.4e38f, -3.4e38f, INFINITY, -INFINITY, 1e-45f, 16777217.0f};
static const char *te[] = {"", "0", "12", "-7", "256", "abc", "2147483647", "99999999999", "3.5", "-0.25", "1e3", " 42x"};
static Val mk(struct NKVM *vm, int k) {
    Val v; memset(&v, 0, sizeof v); tx[k][0] = 0;
    switch(rndn(14)) {
    case 0: case 1: case 2: case 3: case 4: v.type = NK_VALUETYPE_INT; v.intData = (nkint32_t)(rndn(2) ? edge[rndn(16)] : rndn(2) ? rnd() : rndn(600)); break;
    case 5: case 6: case 7: case 8: v.type = NK_VALUETYPE_FLOAT; if(rndn(2)) v.floatData = fe[rndn(20)]; else v.floatData = (float)((int)rndn(4000) - 2000) / 16.0f; break;
    case 9: case 10: v.type = NK_VALUETYPE_STRING; if(rndn(2)) strcpy(tx[k], te[rndn(12)]); else snprintf(tx[k], 40, "%d", (int)rnd() >> rndn(31)); if(!GUARD(vm, nkiValueSetString(vm, &v, tx[k]))) FAIL("string refused"); break;
    case 11: v.type = NK_VALUETYPE_NIL; break;
    case 12: v.type = NK_VALUETYPE_OBJECTID; if(!GUARD(vm, v.objectId = nkiVmObjectTableCreateObject(vm))) FAIL("object refused"); break;
    default: v.type = NK_VALUETYPE_FUNCTIONID; v.functionId.id = rndn(4); }
    return v;
}
static const char *show(Val *v, int k) { static char b[4][120]; static int w; char *r = b[w++ & 3]; switch(v->type) { case NK_VALUETYPE_INT: snprintf(r, 120, "int %d", v->intData); break; case NK_VALUETYPE_FLOAT: snprintf(r, 120, "float %.9g", v->floatData); break; case NK_VALUETYPE_STRING: snprintf(r, 120, "string \"%s\"", k < 2 ? tx[k] : "..."); break; default: snprintf(r, 120, "%s %d", v->type == NK_VALUETYPE_NIL ? "nil" : v->type == NK_VALUETYPE_OBJECTID ? "object" : "function", v->intData); } return r; }
static int ti(Val *v, int k, int *err) { switch(v->type) { case NK_VALUETYPE_INT: return v->intData; case NK_VALUETYPE_FLOAT: return v->floatData >= -2147483648.0f && v->floatData < 2147483648.0f ? (int)v->floatData : (int)0x80000000; case NK_VALUETYPE_STRING: return (int)atol(tx[k]); case NK_VALUETYPE_OBJECTID: return 1; case NK_VALUETYPE_NIL: return 0; default: *err = 1; return 0; } }
static float tf(Val *v, int k, int *err) { switch(v->type) { case NK_VALUETYPE_INT: return (float)v->intData; case NK_VALUETYPE_FLOAT: return v->floatData; case NK_VALUETYPE_STRING: return (float)atof(tx[k]); case NK_VALUETYPE_NIL: return 0; default: *err = 1; return 0; } }
enum { ADD, SUB, MUL, DIV, MOD, NEG, NOT, AND, OR, GT, LT, GE, LE, EQ, NE, EQS, NOPS };
static void (*const fn[])(struct NKVM *) = {nkiOpcode_add, nkiOpcode_subtract, nkiOpcode_multiply, nkiOpcode_divide, nkiOpcode_modulo, nkiOpcode_negate, nkiOpcode_not, nkiOpcode_and, nkiOpcode_or, nkiOpcode_gt, nkiOpcode_lt, nkiOpcode_ge, nkiOpcode_le, nkiOpcode_eq, nkiOpcode_ne, nkiOpcode_eqsametype};
static const char *const nm[] = {"add", "subtract", "multiply", "divide", "modulo", "negate", "not", "and", "or", ">", "<", ">=", "<=", "==", "!=", "same-type =="};
static int boolop(int op, int c) { switch(op) { case GT: return c > 0; case LT: return c < 0; case GE: return c >= 0; case LE: return c <= 0; case NE: return c != 0; default: return c == 0; } }
static void one_case(uint64_t n) {
    struct NKVM *vm = new_vm(); struct NKVMStack *s = &vm->currentExecutionContext->stack; int t; (void)n;
    CHECK(vm, "no machine");
    for(t = 0; t < 60; t++) {
        int op = (int)rndn(NOPS), un = op == NEG || op == NOT, depth = (int)rndn(5), i, err = 0, know = 1, under, d0; uint32_t e0; Val v[2], below[8], want, got; Val *p = 0; memset(&want, 0, sizeof want);
        under = rndn(25) == 0; nkiVmStackPopN(vm, s->size); d0 = depth;
        for(i = 0; i < depth; i++) { below[i] = mk(vm, 0); GUARD(vm, p = nkiVmStackPush_internal(vm)); *p = below[i]; }
        v[0] = mk(vm, 0); v[1] = mk(vm, 1);
        if(under) { nkiVmStackPopN(vm, s->size); if(!un && rndn(2)) { GUARD(vm, p = nkiVmStackPush_internal(vm)); *p = v[1]; } }
        else { if(!un) { GUARD(vm, p = nkiVmStackPush_internal(vm)); *p = v[0]; } GUARD(vm, p = nkiVmStackPush_internal(vm)); *p = v[1]; }
        e0 = nkiGetErrorCount(vm); tr("%s: %s, %s%s\n", nm[op], un ? "" : show(&v[0], 0), show(&v[1], 1), under ? " on too short a stack" : ""); ops_++;
        CHECK(GUARD(vm, fn[op](vm)), "%s abandoned", nm[op]);
        CHECK(s->size <= s->capacity && s->indexMask == s->capacity - 1, "stack broken");
        if(under) { CHECK(nkiGetErrorCount(vm) > e0, "%s on a stack without operands reports nothing", nm[op]); continue; }
        for(i = 0; i < d0; i++) CHECK(!memcmp(&s->values[i], &below[i], sizeof(Val)), "%s changed element %d below its operands", nm[op], i);
        want.type = NK_VALUETYPE_INT;
        if(op <= MOD) switch(v[0].type) {
            case NK_VALUETYPE_INT: { long long a = v[0].intData, b = ti(&v[1], 1, &err), r = 0; if(op >= DIV && (b == 0 || (b == -1 && a == -2147483648LL))) { err = 2; break; } switch(op) { case ADD: r = a + b; break; case SUB: r = a - b; break; case MUL: r = a * b; break; case DIV: r = a / b; break; default: r = a % b; } want.intData = (nkint32_t)(uint32_t)(uint64_t)r; break; }
            case NK_VALUETYPE_FLOAT: if(op == MOD) { err = 2; break; } { float a = v[0].floatData, b = tf(&v[1], 1, &err); want.type = NK_VALUETYPE_FLOAT; want.floatData = op == ADD ? a + b : op == SUB ? a - b : op == MUL ? a * b : (b == 0 ? (a == 0 ? NAN : (signbit(a) != signbit(b)) ? -INFINITY : INFINITY) : a / b); break; }
            case NK_VALUETYPE_STRING: if(op != ADD) { err = 2; break; } want.type = NK_VALUETYPE_STRING; know = 0; if(v[1].type == NK_VALUETYPE_STRING || v[1].type == NK_VALUETYPE_INT) { char b[200]; const char *g; Val *q = &s->values[d0]; strcpy(b, tx[0]); if(v[1].type == NK_VALUETYPE_INT) snprintf(b + strlen(b), 30, "%d", v[1].intData); else strcat(b, tx[1]); CHECK(q->type == NK_VALUETYPE_STRING, "adding to a text gives no text"); g = nkiVmStringTableGetStringById(&vm->stringTable, q->stringTableEntry); CHECK(g && !strcmp(g, b), "\"%s\" + %s gives \"%s\"", tx[0], show(&v[1], 1), g ? g : "(null)"); } break;
            default: err = 2; }
        else if(op == NEG) { if(v[1].type == NK_VALUETYPE_INT) want.intData = (nkint32_t)(0u - (uint32_t)v[1].intData); else if(v[1].type == NK_VALUETYPE_FLOAT) { want.type = NK_VALUETYPE_FLOAT; want.floatData = -v[1].floatData; } else err = 2; }
        else if(op == NOT) want.intData = !ti(&v[1], 1, &err);
        else if(op == AND || op == OR) { int a = ti(&v[0], 0, &err), b = ti(&v[1], 1, &err); want.intData = op == AND ? a && b : a || b; }
        else { int c = 0, x0 = v[0].type, x1 = v[1].type;
            if(op == EQS && x0 != x1) c = 1;
            else if(x0 == NK_VALUETYPE_NIL || x1 == NK_VALUETYPE_NIL) c = x0 == x1 ? 0 : x0 == NK_VALUETYPE_NIL ? 1 : -1;
            else if(x0 == NK_VALUETYPE_INT) { int b = ti(&v[1], 1, &err); c = v[0].intData > b ? 1 : v[0].intData < b ? -1 : 0; }
            else if(x0 == NK_VALUETYPE_FLOAT) { float b = tf(&v[1], 1, &err); c = v[0].floatData > b ? 1 : v[0].floatData == b ? 0 : -1; }
            else if(x0 == x1 && x0 != NK_VALUETYPE_STRING) { if(op != EQ && op != NE && op != EQS) know = 0; c = v[0].intData != v[1].intData; }
            else if(x0 == x1) { c = strcmp(tx[0], tx[1]); if(op != EQ && op != NE && op != EQS) know = 0; }
            else know = 0;
            if(err) know = 0, err = 0; 
            want.intData = boolop(op, c); }
        if(err) { CHECK(nkiGetErrorCount(vm) > e0, "%s of %s and %s reports no error", nm[op], show(&v[0], 0), show(&v[1], 1)); if(err == 2) CHECK(s->size == (uint32_t)d0, "%s left %u values for %d", nm[op], s->size, d0); continue; }
        CHECK(s->size == (uint32_t)d0 + 1, "%s left %u values for %d", nm[op], s->size, d0 + 1);
        got = s->values[d0]; CHECK(got.type == want.type, "%s of %s and %s gives %s", nm[op], show(&v[0], 0), show(&v[1], 1), show(&got, 2));
        if(!know) continue;
        CHECK(nkiGetErrorCount(vm) == e0, "%s of %s and %s reports an error", nm[op], show(&v[0], 0), show(&v[1], 1));
        CHECK(got.intData == want.intData || (got.type == NK_VALUETYPE_FLOAT && (got.floatData == want.floatData ? (signbit(got.floatData) == signbit(want.floatData)) : got.floatData != got.floatData && want.floatData != want.floatData)), "%s of %s and %s gives %s, expected %s", nm[op], un ? "-" : show(&v[0], 0), show(&v[1], 1), show(&got, 2), show(&want, 2));
    }
    nkxVmDelete(vm);
}
