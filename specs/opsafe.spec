// Every instruction keeps the machine well formed and touches nothing outside it, whatever the operands.
contract nkiOpcode_add {
  opt literals;
  requires machine(vm);
  noframe;
  ensures [machine] machine(vm);
  exsures [machine] machine(vm);
}
contract nkiOpcode_pushLiteral_int {
  opt literals;
  requires machine(vm);
  noframe;
  ensures [machine] machine(vm);
  exsures [machine] machine(vm);
}
contract nkiOpcode_pushLiteral_float {
  opt literals;
  requires machine(vm);
  noframe;
  ensures [machine] machine(vm);
  exsures [machine] machine(vm);
}
contract nkiOpcode_pushLiteral_string {
  opt literals;
  requires machine(vm);
  noframe;
  ensures [machine] machine(vm);
  exsures [machine] machine(vm);
}
contract nkiOpcode_pushLiteral_functionId {
  opt literals;
  requires machine(vm);
  noframe;
  ensures [machine] machine(vm);
  exsures [machine] machine(vm);
}
contract nkiOpcode_nop {
  opt literals;
  requires machine(vm);
  noframe;
  ensures [machine] machine(vm);
  exsures [machine] machine(vm);
}
contract nkiOpcode_subtract {
  opt literals;
  requires machine(vm);
  noframe;
  ensures [machine] machine(vm);
  exsures [machine] machine(vm);
}
contract nkiOpcode_multiply {
  opt literals;
  requires machine(vm);
  noframe;
  ensures [machine] machine(vm);
  exsures [machine] machine(vm);
}
contract nkiOpcode_divide {
  opt literals;
  requires machine(vm);
  noframe;
  ensures [machine] machine(vm);
  exsures [machine] machine(vm);
}
contract nkiOpcode_modulo {
  opt literals;
  requires machine(vm);
  noframe;
  ensures [machine] machine(vm);
  exsures [machine] machine(vm);
}
contract nkiOpcode_negate {
  opt literals;
  requires machine(vm);
  noframe;
  ensures [machine] machine(vm);
  exsures [machine] machine(vm);
}
contract nkiOpcode_pop {
  opt literals;
  requires machine(vm);
  noframe;
  ensures [machine] machine(vm);
  exsures [machine] machine(vm);
}
contract nkiOpcode_popN {
  opt literals;
  requires machine(vm);
  noframe;
  ensures [machine] machine(vm);
  exsures [machine] machine(vm);
}
contract nkiOpcode_stackPeek {
  opt literals;
  requires machine(vm);
  noframe;
  ensures [machine] machine(vm);
  exsures [machine] machine(vm);
}
contract nkiOpcode_stackPoke {
  opt literals;
  requires machine(vm);
  noframe;
  ensures [machine] machine(vm);
  exsures [machine] machine(vm);
}
contract nkiOpcode_staticPeek {
  opt literals;
  requires machine(vm);
  noframe;
  ensures [machine] machine(vm);
  exsures [machine] machine(vm);
}
contract nkiOpcode_staticPoke {
  opt literals;
  requires machine(vm);
  noframe;
  ensures [machine] machine(vm);
  exsures [machine] machine(vm);
}
contract nkiOpcode_jumpRelative {
  opt literals;
  requires machine(vm);
  noframe;
  ensures [machine] machine(vm);
  exsures [machine] machine(vm);
}
contract nkiOpcode_return {
  opt literals;
  requires machine(vm);
  noframe;
  ensures [machine] machine(vm);
  exsures [machine] machine(vm);
}
contract nkiOpcode_end {
  opt literals;
  requires machine(vm);
  noframe;
  ensures [machine] machine(vm);
  exsures [machine] machine(vm);
}
contract nkiOpcode_jz {
  opt literals;
  requires machine(vm);
  noframe;
  ensures [machine] machine(vm);
  exsures [machine] machine(vm);
}
contract nkiOpcode_gt {
  opt literals;
  requires machine(vm);
  noframe;
  ensures [machine] machine(vm);
  exsures [machine] machine(vm);
}
contract nkiOpcode_lt {
  opt literals;
  requires machine(vm);
  noframe;
  ensures [machine] machine(vm);
  exsures [machine] machine(vm);
}
contract nkiOpcode_ge {
  opt literals;
  requires machine(vm);
  noframe;
  ensures [machine] machine(vm);
  exsures [machine] machine(vm);
}
contract nkiOpcode_le {
  opt literals;
  requires machine(vm);
  noframe;
  ensures [machine] machine(vm);
  exsures [machine] machine(vm);
}
contract nkiOpcode_eq {
  opt literals;
  requires machine(vm);
  noframe;
  ensures [machine] machine(vm);
  exsures [machine] machine(vm);
}
contract nkiOpcode_ne {
  opt literals;
  requires machine(vm);
  noframe;
  ensures [machine] machine(vm);
  exsures [machine] machine(vm);
}
contract nkiOpcode_eqsametype {
  opt literals;
  requires machine(vm);
  noframe;
  ensures [machine] machine(vm);
  exsures [machine] machine(vm);
}
contract nkiOpcode_not {
  opt literals;
  requires machine(vm);
  noframe;
  ensures [machine] machine(vm);
  exsures [machine] machine(vm);
}
contract nkiOpcode_and {
  opt literals;
  requires machine(vm);
  noframe;
  ensures [machine] machine(vm);
  exsures [machine] machine(vm);
}
contract nkiOpcode_or {
  opt literals;
  requires machine(vm);
  noframe;
  ensures [machine] machine(vm);
  exsures [machine] machine(vm);
}
contract nkiOpcode_createObject {
  opt literals;
  requires machine(vm);
  noframe;
  ensures [machine] machine(vm);
  exsures [machine] machine(vm);
}
contract nkiOpcode_objectFieldGet {
  opt literals;
  requires machine(vm);
  noframe;
  ensures [machine] machine(vm);
  exsures [machine] machine(vm);
}
contract nkiOpcode_objectFieldGet_noPop {
  opt literals;
  requires machine(vm);
  noframe;
  ensures [machine] machine(vm);
  exsures [machine] machine(vm);
}
contract nkiOpcode_objectFieldSet {
  opt literals;
  requires machine(vm);
  noframe;
  ensures [machine] machine(vm);
  exsures [machine] machine(vm);
}
contract nkiOpcode_prepareSelfCall {
  opt literals;
  requires machine(vm);
  noframe;
  ensures [machine] machine(vm);
  exsures [machine] machine(vm);
}
contract nkiOpcode_pushNil {
  opt literals;
  requires machine(vm);
  noframe;
  ensures [machine] machine(vm);
  exsures [machine] machine(vm);
}
contract nkiOpcode_coroutineYield {
  opt literals;
  requires machine(vm);
  noframe;
  ensures [machine] machine(vm);
  exsures [machine] machine(vm);
}
contract nkiOpcode_coroutineResume {
  opt literals;
  requires machine(vm);
  noframe;
  ensures [machine] machine(vm);
  exsures [machine] machine(vm);
}
contract nkiOpcode_coroutineIsFinished {
  opt literals;
  requires machine(vm);
  noframe;
  ensures [machine] machine(vm);
  exsures [machine] machine(vm);
}
contract nkiOpcode_len {
  opt literals;
  requires machine(vm);
  noframe;
  ensures [machine] machine(vm);
  exsures [machine] machine(vm);
}
