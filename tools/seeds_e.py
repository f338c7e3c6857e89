seeds = [
dict(id='P14-modulo-mask', property='P14', needs='a remainder by a power of two of a negative left operand', breaks='the remainder of a negative number by a power of two has the wrong sign and value',
 edits=[('src/nkopcode.c', """            } else {
                nkiVmStackPushInt(
                    vm,
                    in1->intData %
                    val2);
            }
""", """            } else if(val2 > 0 && (val2 & (val2 - 1)) == 0) {
                // Powers of two don't need the division.
                nkiVmStackPushInt(
                    vm,
                    in1->intData &
                    (val2 - 1));
            } else {
                nkiVmStackPushInt(
                    vm,
                    in1->intData %
                    val2);
            }
""")],
 demo='''
#include "nkopcode.h"
static int body(struct NKVM *vm) { static const int a[] = { 7, -7, 8, -8, 0, 2147483647, -2147483647 - 1, -9 }, b[] = { 1, 2, 3, 4, 16, -3, -16, 1073741824 }; int i, j;
  for(i = 0; i < 8; i++) for(j = 0; j < 8; j++) { struct NKValue *r; nkiVmStackPushInt(vm, a[i]); nkiVmStackPushInt(vm, b[j]); nkiOpcode_modulo(vm); r = nkiVmStackPop(vm); if(r->type != NK_VALUETYPE_INT || r->intData != a[i] % b[j]) BAD("%d %% %d gives %d", a[i], b[j], r->intData); } return 0; }
int main(void) { struct NKVM *vm = nkxVmCreate(); if(!GUARD(vm, body(vm))) BAD("refused"); nkxVmDelete(vm); puts("ok"); return 0; }
'''),
dict(id='P14-negate-zero', property='P14', needs='a floating point zero negated and the sign of the zero looked at, for instance by dividing by it', breaks='negating 0.0 gives 0.0 instead of -0.0, so a quotient has the wrong infinity',
 edits=[('src/nkopcode.c', '''            nkiVmStackPushFloat(
                vm,
                -(in1->floatData));
''', '''            nkiVmStackPushFloat(
                vm,
                0.0f - in1->floatData);
''')],
 demo='''
#include "nkopcode.h"
static int body(struct NKVM *vm) { static const float f[] = { 1.5f, -2.0f, 0.25f, 0.0f, -0.0f, 3e38f }; int i; for(i = 0; i < 6; i++) { float r, w; nkiVmStackPushFloat(vm, 1.0f); nkiVmStackPushFloat(vm, f[i]); nkiOpcode_negate(vm); nkiOpcode_divide(vm); r = nkiVmStackPop(vm)->floatData; w = 1.0f / -f[i]; if(r != w) BAD("1 / -(%g) gives %g", f[i], r); } return 0; }
int main(void) { struct NKVM *vm = nkxVmCreate(); if(!GUARD(vm, body(vm))) BAD("refused"); nkxVmDelete(vm); puts("ok"); return 0; }
'''),
]
