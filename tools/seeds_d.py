seeds = [
dict(id='P20-int-buffer', property='P20', needs='a negative number of ten digits appended', breaks='the decimal text overruns its buffer on the stack by one byte',
 edits=[('src/nkdynstr.c', "    char tmp[NK_PRINTF_INTCHARSNEED + 1];\n", "    char tmp[NK_PRINTF_UINTCHARSNEED];\n")],
 demo='''
static int body(struct NKVM *vm) { int i; static const int v[] = { 0, 7, -7, 2147483647, -2147483647 - 1, -1000000000, -999999999 };
  for(i = 0; i < 7; i++) { char w[64]; struct NKDynString *d = nkiDynStrCreate(vm, "x"); nkiDynStrAppendInt32(d, v[i]); sprintf(w, "x%d", v[i]); if(strcmp(w, d->data)) BAD("%s is not %s", d->data, w); nkiDynStrDelete(d); } return 0; }
int main(void) { struct NKVM *vm = nkxVmCreate(); if(!GUARD(vm, body(vm))) BAD("refused"); nkxVmDelete(vm); puts("ok"); return 0; }
''', asan=True),
dict(id='P20-uint-sign', property='P20', needs='an unsigned number of 2^31 or more appended', breaks='the number appears with a minus sign and reads back as another one',
 edits=[('src/nkdynstr.c', "    char tmp[NK_PRINTF_UINTCHARSNEED + 1];\n    sprintf(tmp,\n        NK_PRINTF_UINT32,\n", "    char tmp[NK_PRINTF_INTCHARSNEED + 1];\n    sprintf(tmp,\n        NK_PRINTF_INT32,\n")],
 demo='''
static int body(struct NKVM *vm) { nkuint32_t v[] = { 0, 9, 0x7fffffff, 0x80000000u, 0xffffffffu }; int i; for(i = 0; i < 5; i++) { char w[64]; struct NKDynString *d = nkiDynStrCreate(vm, "n="); nkiDynStrAppendUint32(d, v[i]); sprintf(w, "n=%u", v[i]); if(strcmp(w, d->data)) BAD("%s is not %s", d->data, w); nkiDynStrDelete(d); } return 0; }
int main(void) { struct NKVM *vm = nkxVmCreate(); if(!GUARD(vm, body(vm))) BAD("refused"); nkxVmDelete(vm); puts("ok"); return 0; }
'''),
]
