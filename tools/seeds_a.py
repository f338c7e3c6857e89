seeds = [
dict(id='P01-shrink-in-place', property='P01', needs='a block resized to a smaller size and then released', breaks='usage keeps counting bytes of a released block: the reported usage no longer equals the sum of the blocks handed out',
 edits=[('src/nkmem.c', "        nkuint32_t copySize = size < header->size ? size : header->size;\n        void *newData = nkiMalloc(vm, size);\n", "        nkuint32_t copySize = size < header->size ? size : header->size;\n        void *newData;\n\n        // Shrinking can be done in place.\n        if(size && size < header->size && header->size - size < sizeof(struct NKMemoryHeader)) {\n            header->size = size;\n            return data;\n        }\n\n        newData = nkiMalloc(vm, size);\n")],
 demo='''
int main(void) { struct NKVM *vm = nkxVmCreate(); nkuint32_t u0 = vm->currentMemoryUsage; void *p = 0;
  GUARD(vm, p = nkiMalloc(vm, 100); p = nkiRealloc(vm, p, 90); nkiFree(vm, p));
  if(vm->currentMemoryUsage != u0) BAD("usage %u, was %u before", vm->currentMemoryUsage, u0);
  nkxVmDelete(vm); puts("ok"); return 0; }
'''),
dict(id='P01-limit-without-header', property='P01', needs='a request whose size fits the rest of the limit while size plus bookkeeping does not', breaks='usage goes past the configured limit by up to the size of the bookkeeping header',
 edits=[('src/nkmem.c', "           newChunkSize > vm->limits.maxAllocatedMemory - vm->currentMemoryUsage)", "           size > vm->limits.maxAllocatedMemory - vm->currentMemoryUsage)")],
 demo='''
int main(void) { struct NKVM *vm = nkxVmCreate(); void *p = 0; int ok;
  vm->limits.maxAllocatedMemory = vm->currentMemoryUsage + 100;
  ok = GUARD(vm, p = nkiMalloc(vm, 90));
  if(ok || vm->currentMemoryUsage > vm->limits.maxAllocatedMemory) BAD("usage %u limit %u", vm->currentMemoryUsage, vm->limits.maxAllocatedMemory);
  vm->limits.maxAllocatedMemory = 0xffffffff; nkxVmDelete(vm); puts("ok"); return 0; }
'''),
dict(id='P02-product-check', property='P02', needs='a count of elements whose byte size does not fit 32 bits and whose truncated value is still at least the count', breaks='an array block far smaller than the elements it is meant for is handed out',
 edits=[('src/nkmem.c', "    if(count >= ~(nkuint32_t)0 / size) {\n        nkiErrorStateSetAllocationFailFlag(vm);\n        NK_CATASTROPHE();\n        assert(0);\n        return NULL;\n    }\n\n    return nkiMalloc(vm, size * count);", "    // If the product wrapped around, it is smaller than what we\n    // started with.\n    if(size * count < count) {\n        nkiErrorStateSetAllocationFailFlag(vm);\n        NK_CATASTROPHE();\n        assert(0);\n        return NULL;\n    }\n\n    return nkiMalloc(vm, size * count);")],
 demo='''
int main(void) { struct NKVM *vm = nkxVmCreate(); void *p = 0; int ok;
  vm->limits.maxAllocatedMemory = 0xffffffff;
  ok = GUARD(vm, p = nkiMallocArray(vm, 16, 0x12000000));
  if(ok && p) BAD("block of %u bytes for 0x12000000 elements of 16 bytes", ((struct NKMemoryHeader *)p - 1)->size);
  puts("ok"); _Exit(0); }
'''),
dict(id='P04-slot0-lost', property='P04', needs='slot 0 free when the list of holes is rebuilt', breaks='an empty slot is never offered again',
 edits=[('src/nktable.c', "    for(i = table->capacity - 1; i != NK_UINT_MAX; i--) {\n        if(!table->data[i]) {", "    for(i = table->capacity - 1; i > 0; i--) {\n        if(!table->data[i]) {")],
 demo='''
int main(void) { struct NKVM *vm = nkxVmCreate(); struct NKVMTable t; int x[8]; nkuint32_t i, id = 99;
  GUARD(vm, memset(&t, 0, sizeof t); nkiTableInit(vm, &t); for(i = 0; i < 4; i++) nkiTableAddEntry(vm, &t, &x[i]); nkiTableEraseEntry(vm, &t, 0); nkiTableResetHoles(vm, &t); id = nkiTableAddEntry(vm, &t, &x[5]));
  if(id != 0) BAD("the only empty slot 0 was not offered, got %u", id);
  puts("ok"); _Exit(0); }
'''),
dict(id='P05-same-hash', property='P05', needs='two different texts of the same length with the same 32-bit hash, while the first is alive', breaks='two different texts share one id',
 edits=[('src/nkstring.c', "            if(!nkiStrcmp(cur->str, str)) {", "            // The hash already covers every character and the length.\n            if(cur->hash == hash && cur->str[0] == str[0]) {")],
 demo='''
int main(void) { struct NKVM *vm = nkxVmCreate(); nkuint32_t a = 0, b = 0;
  GUARD(vm, a = nkiVmStringTableFindOrAddString(vm, "xbdb"); b = nkiVmStringTableFindOrAddString(vm, "xcbc"));
  if(a == b || strcmp(nkiVmStringTableGetStringById(&vm->stringTable, b), "xcbc")) BAD("ids %u %u", a, b);
  nkxVmDelete(vm); puts("ok"); return 0; }
'''),
dict(id='P05-lookup-one-past', property='P05', needs='a lookup of the id that equals the capacity of the string table', breaks='looking up an id that was never issued reads memory outside the table', asan=True,
 edits=[('src/nkstring.c', "    if(index >= table->capacity) {\n        return NULL;", "    if(index > table->capacity) {\n        return NULL;")],
 demo='''
int main(void) { struct NKVM *vm = nkxVmCreate(); const char *s;
  s = nkiVmStringTableGetStringById(&vm->stringTable, vm->stringTable.capacity);
  if(s) BAD("text for an id never issued");
  nkxVmDelete(vm); puts("ok"); return 0; }
'''),
dict(id='P11-popn-sign', property='P11', needs='a count of 2^31 or more popped at once', breaks='popping more than was pushed grows the stack past its buffer instead of reporting an error',
 edits=[('src/nkstack.c', "    if(stack->size < count) {", "    if((nkint32_t)(stack->size - count) < 0) {")],
 demo='''
int main(void) { struct NKVM *vm = nkxVmCreate();
  GUARD(vm, nkiVmStackPushInt(vm, 1); nkiVmStackPopN(vm, 0x90000000u));
  if(vm->currentExecutionContext->stack.size != 0 || !vm->errorState.firstError) BAD("stack size %u", vm->currentExecutionContext->stack.size);
  nkxVmDelete(vm); puts("ok"); return 0; }
'''),
dict(id='P11-clear-mask', property='P11', needs='a stack that had grown past two entries is cleared with its memory given back, then read at a large index', breaks='an index computed by a program reaches outside the stack buffer', asan=True,
 edits=[('src/nkstack.c', "        stack->capacity = 2;\n        stack->indexMask = 1;\n", "        stack->capacity = 2;\n")],
 demo='''
int main(void) { struct NKVM *vm = nkxVmCreate(); int i; volatile int v = 0;
  GUARD(vm, for(i = 0; i < 100; i++) nkiVmStackPushInt(vm, i); nkiVmStackClear(vm, &vm->currentExecutionContext->stack, nktrue); v = nkiVmStackPeek(vm, 77)->intData);
  if(v) BAD("value %d", v);
  nkxVmDelete(vm); puts("ok"); return 0; }
'''),
dict(id='P19-memcmp-signed', property='P19', needs='a comparison of bytes of 128 or more', breaks='the byte comparison orders bytes above 127 before the others',
 edits=[('src/nkstring.c', "    const unsigned char *pa = (const unsigned char *)a;\n    const unsigned char *pb = (const unsigned char *)b;", "    const char *pa = (const char *)a;\n    const char *pb = (const char *)b;")],
 demo='''
int main(void) { if(nkiMemcmp("a\\x80", "a\\x10", 2) != 1) BAD("order"); puts("ok"); return 0; }
'''),
dict(id='P19-memset-words', property='P19', needs='a fill of eight bytes or more with a value that does not fit a byte', breaks='the fill writes other bytes than the low byte of the value',
 edits=[('src/nkstring.c', "    nkuint32_t i;\n    for(i = 0; i < len; i++) {\n        ((char*)ptr)[i] = c;\n    }", "    nkuint32_t i = 0;\n    // Fill whole words first.\n    if(len >= 8) {\n        nkuint32_t word = c | (c << 8) | (c << 16) | (c << 24);\n        for(; i + 4 <= len; i += 4) {\n            ((char*)ptr)[i] = (char)word;\n            ((char*)ptr)[i + 1] = (char)(word >> 8);\n            ((char*)ptr)[i + 2] = (char)(word >> 16);\n            ((char*)ptr)[i + 3] = (char)(word >> 24);\n        }\n    }\n    for(; i < len; i++) {\n        ((char*)ptr)[i] = c;\n    }")],
 demo='''
int main(void) { unsigned char b[16]; int i; nkiMemset(b, 0x241, 13); for(i = 0; i < 13; i++) if(b[i] != 0x41) BAD("byte %d is %02x", i, b[i]); puts("ok"); return 0; }
'''),
]
