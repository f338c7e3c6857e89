simple='add pushLiteral_int pushLiteral_float pushLiteral_string pushLiteral_functionId nop subtract multiply divide modulo negate pop popN stackPeek stackPoke staticPeek staticPoke jumpRelative return end jz gt lt ge le eq ne eqsametype not and or createObject objectFieldGet objectFieldGet_noPop objectFieldSet prepareSelfCall pushNil coroutineYield coroutineResume coroutineIsFinished len'.split()
s='// Every instruction keeps the machine well formed and touches nothing outside it, whatever the operands.\n'
for n in simple:
    s+='contract nkiOpcode_%s {\n  opt literals;\n  requires machine(vm);\n  noframe;\n  ensures [machine] machine(vm);\n  exsures [machine] machine(vm);\n}\n'%n
open('/tmp/ops.spec','w').write(s)
