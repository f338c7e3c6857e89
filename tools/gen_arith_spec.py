MEM='vm->currentMemoryUsage, vm->peakMemoryUsage, vm->errorState.allocationFailure, vm->errorState.lastError, vm->errorState.firstError'
FR='''  assigns stk(vm)->values, stk(vm)->size, stk(vm)->capacity, stk(vm)->indexMask, \\free(stk(vm)->values), stk(vm)->values[*],
     %s;
'''%MEM
COMMON='''  ensures [inv] ctx_ok(vm);
  ensures [alive] forall ptr p; {\\alive(p)} \\old(\\alive(p)) && \\root(p) != \\old(stk(vm)->values) ==> \\alive(p);
  exsures [inv] ctx_ok(vm);
  exsures [flag] vm->errorState.allocationFailure == 1;
'''
s='''// The arithmetic, comparison and logical instructions: what they leave on the operand stack.
fun struct NKValue *opa(struct NKVM *vm) = stk(vm)->values + (stk(vm)->size - 2);
fun struct NKValue *opb(struct NKVM *vm) = stk(vm)->values + (stk(vm)->size - 1);
pred isfl(struct NKValue *v) = v->type == NK_VALUETYPE_INT || v->type == NK_VALUETYPE_FLOAT || v->type == NK_VALUETYPE_NIL;
'''
def kept(n): return '  ensures [kept] \\old(stk(vm)->size) >= %d ==> (forall integer i; {stk(vm)->values[i].type} 0 <= i && i < \\old(stk(vm)->size) - %d ==> \\val(stk(vm)->values + i) == \\old(\\val(stk(vm)->values + i)));\n'%(n,n)
def pushed(n, ty, fld, val): return 'stk(vm)->size == \\old(stk(vm)->size) - %d && stk(vm)->values[\\old(stk(vm)->size) - %d].type == %s && stk(vm)->values[\\old(stk(vm)->size) - %d].%s == %s'%(n-1,n,ty,n,fld,val)
def noerr(): return 'vm->errorState.firstError == \\old(vm->errorState.firstError)'
def binop(n, iop, fop, extra=''):
    r='contract %s {\n  opt literals;\n  requires vmok(vm) && ctx_ok(vm);\n'%n+FR+COMMON+kept(2)
    r+='  ensures [underflow] \\old(stk(vm)->size) < 2 ==> errors(vm);\n'
    if iop: r+='  ensures [ints] \\old(stk(vm)->size) >= 2 && \\old(opa(vm)->type) == NK_VALUETYPE_INT && \\old(isnum(opb(vm)))%s ==> %s && %s;\n'%(extra, pushed(2,'NK_VALUETYPE_INT','intData',iop), noerr())
    if fop: r+='  ensures [floats] \\old(stk(vm)->size) >= 2 && \\old(opa(vm)->type) == NK_VALUETYPE_FLOAT && \\old(isfl(opb(vm))) ==> %s && %s;\n'%(pushed(2,'NK_VALUETYPE_FLOAT','floatData',fop), noerr())
    return r
BAD='\\old(opa(vm)->type) != NK_VALUETYPE_INT'+' && \\old(opa(vm)->type) != NK_VALUETYPE_FLOAT'
def bad(c): return '  ensures [bad] \\old(stk(vm)->size) >= 2 && %s ==> errors(vm) && stk(vm)->size == \\old(stk(vm)->size) - 2;\n'%c
A='\\old(opa(vm)->intData)'; B='\\old(toint(opb(vm)))'; FA='\\old(opa(vm)->floatData)'; FB='\\old(tofloat(opb(vm)))'
s+=binop('nkiOpcode_add','\\s32(%s + %s)'%(A,B),'\\f_add_float(%s, %s)'%(FA,FB))+bad(BAD+' && \\old(opa(vm)->type) != NK_VALUETYPE_STRING')
s+='  ensures [texts] \\old(stk(vm)->size) >= 2 && \\old(opa(vm)->type) == NK_VALUETYPE_STRING ==> stk(vm)->size == \\old(stk(vm)->size) - 1 && stk(vm)->values[\\old(stk(vm)->size) - 2].type == NK_VALUETYPE_STRING;\n}\n'
s+=binop('nkiOpcode_subtract','\\s32(%s - %s)'%(A,B),'\\f_sub_float(%s, %s)'%(FA,FB))+bad(BAD)+'}\n'
s+=binop('nkiOpcode_multiply','\\s32(%s * %s)'%(A,B),'\\f_mul_float(%s, %s)'%(FA,FB))+bad(BAD)+'}\n'
DZ=' && %s != 0 && !(%s == 0 - 1 && %s == 0 - 2147483648)'%(B,B,A)
ZERO='  ensures [refused] \\old(stk(vm)->size) >= 2 && \\old(opa(vm)->type) == NK_VALUETYPE_INT && \\old(isnum(opb(vm))) && (%s == 0 || %s == 0 - 1 && %s == 0 - 2147483648) ==> errors(vm) && stk(vm)->size == \\old(stk(vm)->size) - 2;\n'%(B,B,A)
s+=binop('nkiOpcode_divide','\\tdiv(%s, %s)'%(A,B),'\\f_div_float(%s, %s)'%(FA,FB),DZ)+bad(BAD)+ZERO+'}\n'
s+=binop('nkiOpcode_modulo','\\tmod(%s, %s)'%(A,B),None,DZ)+bad('\\old(opa(vm)->type) != NK_VALUETYPE_INT')+ZERO+'}\n'
# unary
UA='\\old(opb(vm)->intData)'
def un(n): return 'contract %s {\n  opt literals;\n  requires vmok(vm) && ctx_ok(vm);\n'%n+FR+COMMON+kept(1)+'  ensures [underflow] \\old(stk(vm)->size) < 1 ==> errors(vm);\n'
s+=un('nkiOpcode_negate')+'  ensures [ints] \\old(stk(vm)->size) >= 1 && \\old(opb(vm)->type) == NK_VALUETYPE_INT ==> %s && %s;\n'%(pushed(1,'NK_VALUETYPE_INT','intData','\\s32(0 - %s)'%UA),noerr())
s+='  ensures [floats] \\old(stk(vm)->size) >= 1 && \\old(opb(vm)->type) == NK_VALUETYPE_FLOAT ==> %s && %s;\n'%(pushed(1,'NK_VALUETYPE_FLOAT','floatData','\\f_neg_float(\\old(opb(vm)->floatData))'),noerr())
s+='  ensures [bad] \\old(stk(vm)->size) >= 1 && \\old(opb(vm)->type) != NK_VALUETYPE_INT && \\old(opb(vm)->type) != NK_VALUETYPE_FLOAT ==> errors(vm) && stk(vm)->size == \\old(stk(vm)->size) - 1;\n}\n'
s+=un('nkiOpcode_not')+'  ensures [value] \\old(stk(vm)->size) >= 1 && \\old(isnum(opb(vm))) ==> %s && %s;\n}\n'%(pushed(1,'NK_VALUETYPE_INT','intData','(\\old(toint(opb(vm))) == 0 ? 1 : 0)'),noerr())
for n,op in (('and','&&'),('or','||')):
    s+='contract nkiOpcode_%s {\n  opt literals;\n  requires vmok(vm) && ctx_ok(vm);\n'%n+FR+COMMON+kept(2)+'  ensures [underflow] \\old(stk(vm)->size) < 2 ==> errors(vm);\n'
    s+='  ensures [value] \\old(stk(vm)->size) >= 2 && \\old(isnum(opa(vm))) && \\old(isnum(opb(vm))) ==> %s && %s;\n}\n'%(pushed(2,'NK_VALUETYPE_INT','intData','(\\old(toint(opa(vm))) != 0 %s \\old(toint(opb(vm))) != 0 ? 1 : 0)'%op),noerr())
for n,io,fo,nn,n1,n2 in (('gt','>','\\f_lt(FB, FA)','0','1','0'),('lt','<','!\\f_lt(FB, FA) && !\\f_eq(FA, FB)','0','0','1'),('ge','>=','(\\f_lt(FB, FA) || \\f_eq(FA, FB))','1','1','0'),('le','<=','!\\f_lt(FB, FA)','1','0','1'),('eq','==','\\f_eq(FA, FB) && !\\f_lt(FB, FA)','1','0','0'),('ne','!=','!(\\f_eq(FA, FB) && !\\f_lt(FB, FA))','0','1','1'),('eqsametype','==','\\f_eq(FA, FB) && !\\f_lt(FB, FA)','1','0','0')):
    st = n=='eqsametype'
    fo=fo.replace('FA',FA).replace('FB',FB)
    same=' && \\old(opa(vm)->type) == \\old(opb(vm)->type)' if st else ''
    s+='contract nkiOpcode_%s {\n  opt literals;\n  requires vmok(vm) && ctx_ok(vm);\n'%n+FR+COMMON+kept(2)+'  ensures [underflow] \\old(stk(vm)->size) < 2 ==> errors(vm);\n'
    s+='  ensures [ints] \\old(stk(vm)->size) >= 2 && \\old(opa(vm)->type) == NK_VALUETYPE_INT && \\old(opb(vm)->type) != NK_VALUETYPE_NIL && \\old(isnum(opb(vm)))%s ==> %s && %s;\n'%(same,pushed(2,'NK_VALUETYPE_INT','intData','(%s %s %s ? 1 : 0)'%(A,io,B)),noerr())
    s+='  ensures [floats] \\old(stk(vm)->size) >= 2 && \\old(opa(vm)->type) == NK_VALUETYPE_FLOAT && (\\old(opb(vm)->type) == NK_VALUETYPE_INT || \\old(opb(vm)->type) == NK_VALUETYPE_FLOAT)%s ==> %s && %s;\n'%(same,pushed(2,'NK_VALUETYPE_INT','intData','(%s ? 1 : 0)'%fo),noerr())
    s+='  ensures [nil] \\old(stk(vm)->size) >= 2 && \\old(opa(vm)->type) == NK_VALUETYPE_NIL && \\old(opb(vm)->type) == NK_VALUETYPE_NIL ==> %s;\n'%pushed(2,'NK_VALUETYPE_INT','intData',nn)
    if st: s+='  ensures [types] \\old(stk(vm)->size) >= 2 && \\old(opa(vm)->type) != \\old(opb(vm)->type) ==> %s && %s;\n'%(pushed(2,'NK_VALUETYPE_INT','intData','0'),noerr())
    else:
        s+='  ensures [nil1] \\old(stk(vm)->size) >= 2 && \\old(opa(vm)->type) == NK_VALUETYPE_NIL && \\old(opb(vm)->type) != NK_VALUETYPE_NIL ==> %s;\n'%pushed(2,'NK_VALUETYPE_INT','intData',n1)
        s+='  ensures [nil2] \\old(stk(vm)->size) >= 2 && \\old(opa(vm)->type) != NK_VALUETYPE_NIL && \\old(opb(vm)->type) == NK_VALUETYPE_NIL ==> %s;\n'%pushed(2,'NK_VALUETYPE_INT','intData',n2)
    s+='}\n'
open('/verif/specs/arith.spec','w').write(s)
