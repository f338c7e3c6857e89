MEMNOTE = 'bytes moved by nkiMemcpy are an assumed contract here; its body is proved under P19'
PROPS = {
 'P01': dict(title='Memory accounting is exact and the limit is never exceeded',
   groups=[dict(specs=['mem'], files=['nkmem.c', 'nkerror.c'], extern_note={'nkiMemcpy': MEMNOTE}), dict(specs=['memx'], files=['nkx.c'])],
   harness=[dict(name='mem', src='mem.c')],
   note='nkmem.c proved against contracts over a ghost map of handed-out blocks; host malloc/free are assumed to return fresh blocks or nothing.'),
 'P02': dict(title='Blocks are large enough, distinct, and keep their contents when resized',
   groups=[dict(specs=['mem'], files=['nkmem.c', 'nkerror.c'], extern_note={'nkiMemcpy': MEMNOTE})],
   harness=[dict(name='mem', src='mem.c')],
   note='nkmem.c proved against contracts over a ghost map of handed-out blocks; host malloc/free are assumed to return fresh blocks or nothing.'),
 'P04': dict(title='Slot tables never lose, duplicate or misplace an entry', note='All functions of nktable.c proved against functional contracts for all inputs and histories; allocator contract assumed here, decided under P01/P02.',
   groups=[dict(specs=['alloc', 'table'], files=['nktable.c'])],
   harness=[dict(name='tables', src='tables.c')]),
 'P11': dict(title='The operand stack is a stack and never leaves its buffer',
   groups=[dict(specs=['alloc', 'stack'], files=['nkstack.c'])],
   harness=[dict(name='stack', src='stack.c')],
   note='nkstack.c proved against functional contracts; accesses made by the instruction implementations are decided under P12.'),
 'P05': dict(title='Equal string contents share one id and different contents never do',
   groups=[dict(specs=['alloc', 'text', 'strprim', 'table', 'string'], files=['nkstring.c', 'nktable.c', 'nkerror.c'],
                fns=['nkiStringHash', 'nkiVmStringTableGetEntryById', 'nkiVmStringTableGetStringById', 'nkiVmStringTableFindOrAddString', 'nkiVmStringTableCleanOldStrings', 'nkiStrlen', 'nkiStrcmp', 'nkiStrcpy', 'nkiStrcpy_s']),
           dict(specs=['alloc', 'text', 'table', 'string'], files=['nkstring.c', 'nktable.c', 'nkerror.c'], fns=['nkiVmStringTableInit', 'nkiVmStringTableCleanAllStrings', 'nkiVmStringTableDestroy']),
           dict(specs=['alloc', 'table'], files=['nktable.c'])],
   harness=[dict(name='strings', src='strings.c')],
   note='Every function of the string table and of the slot table below it proved for all texts, ids and histories; allocator contract assumed here, decided under P01/P02.'),
 'P19': dict(title='Text and memory primitives respect their bounds',
   groups=[dict(specs=['text', 'strprim'], files=['nkstring.c']),
           dict(specs=['alloc', 'text', 'strprim', 'textuse'], files=['nkmem.c', 'nkdbg.c', 'nktoken.c', 'nkstring.c'], fns=['nkiStrdup', 'nkiDbgAppendEscaped', 'nkiCompilerTokenizerUnescapeString'])],
   harness=[dict(name='text', src='text.c')],
   assumptions=['texts are shorter than 4 GiB - 2 (the helpers count with 32 bits); source and destination do not overlap; escape buffers are at most 0xfffffff0 bytes'],
   note='All eight primitives of nkstring.c and the duplicate/escape/unescape helpers proved for all contents and lengths.'),
}

OBJ = dict(specs=['alloc', 'text', 'table', 'string', 'valuekey', 'objs'], files=['nkobjs.c', 'nkstring.c', 'nktable.c', 'nkvalue.c', 'nkerror.c'])
KEY = dict(specs=['alloc', 'text', 'strprim', 'table', 'string', 'valuekey', 'unreach', 'vorder'], files=['nkvalue.c', 'nkstring.c', 'nktable.c', 'nkdynstr.c', 'nkerror.c'])
KEYFNS = ['nkiValueCompare', 'nkiValueHash']
NOTNAN = 'no key is a floating-point not-a-number: IEEE comparison makes it differ from itself'
PROPS.update({
 'P06': dict(title='Objects behave as maps from values to values',
   groups=[dict(OBJ, fns=['nkiVmObjectFindOrAddEntry', 'nkiVmObjectClearEntry', 'nkiVmObjectFindOrAddEntry_public', 'nkiVmObjectClearEntry_public', 'nkiVmGetObjectFromValue']), dict(KEY, fns=KEYFNS)],
   harness=[dict(name='objects6', src='objects6.c')], assumptions=[NOTNAN],
   note='Store, read and removal proved over a ghost description of the bucket chains, for every key type and every chain; key equality and hashing proved under P10.'),
 'P07': dict(title='Object size is exact and the field limit holds',
   groups=[dict(OBJ, fns=['nkiVmObjectFindOrAddEntry', 'nkiVmObjectClearEntry', 'nkiVmObjectGetSize'])],
   harness=[dict(name='objects7', src='objects7.c')], assumptions=[NOTNAN],
   note='The size equals the length of a ghost enumeration that lists every entry once; kept by insertion, removal, refusal and failed allocation.'),
 'P08': dict(title='Objects held by the host are tracked and never collected',
   groups=[dict(OBJ, fns=['nkiVmObjectAcquireHandle', 'nkiVmObjectReleaseHandle', 'nkiVmObjectGetExternalHandleCount'])],
   harness=[dict(name='objects8', src='objects8.c')],
   note='Acquire and release proved to keep every held object on the list exactly once, with exact counts.'),
 'P10': dict(title='Value comparison is an order and agrees with hashing',
   groups=[dict(KEY, fns=KEYFNS)], harness=[dict(name='values', src='values.c')],
   assumptions=['floating-point comparison is a strict order away from not-a-number (IEEE 754)'],
   note='nkiValueCompare and nkiValueHash proved equal to a mathematical comparison and hash; order laws and hash agreement proved as lemmas over those.'),
})

PROPS.update({
 'P03': dict(title='A failed allocation is contained by every public call',
   groups=[dict(specs=['nkx'], files=['nkx.c', 'nkgc.c', 'nkcompil.c']), dict(specs=['mem'], files=['nkmem.c', 'nkerror.c'], extern_note={'nkiMemcpy': MEMNOTE})],
   harness=[dict(name='recovery', src='recovery.c')],
   sites=[(('w', 'NKVM', 'catastrophicFailureJmpBuf'), ['nkiVmDestroy']), (('w', 'NKErrorState', 'allocationFailure'), ['nkiErrorStateSetAllocationFailFlag', 'nkiErrorStateInit']),
          (('c', 'nkiErrorStateInit'), ['nkiVmInit', 'nkiCompilerClearReplErrorState']),
          (('c', 'longjmp'), ['nkxForceCatastrophicFailure', 'nkiOpcode_call', 'nkiMalloc_real', 'nkiMallocArray', 'nkiReallocArray', 'nkiVmStringTableFindOrAddString'])],
   assumptions=['every internal function not verified here is abandoned (by longjmp to the active recovery point) only with the failure flag set; it cannot assign the recovery point, which is checked on the whole program',
                'pointers public functions receive and follow are valid; memory safety of their bodies is not part of this property',
                'the behaviour of nkxVmDelete after a failure (every block returned) is searched, not proved'],
   note='Every public function of nkx.h proved against a containment contract: recovery point restored on every path, flag stays set, failure value returned, no work once the flag is set. The writers of the recovery point and of the flag are checked over the whole program.'),
})
PROPS.update({
 'P18': dict(title='Error reports fit the buffer the host was told to provide',
   groups=[dict(specs=['alloc', 'text', 'strprim', 'errors', 'errorsx'], files=['nkerror.c', 'nkstring.c', 'nkvm.c', 'nkx.c'])],
   harness=[dict(name='errors', src='errors.c')],
   assumptions=['the whole report is shorter than 4 GiB - 16, and each text with its file name is shorter than 4 GiB - 256 (the lengths are 32 bits)', 'sprintf writes its texts, a decimal number and the separators in order',
                'strings the host passes and the buffer it provides lie in blocks of their own'],
   note='Reporting, counting, measuring and writing proved over a ghost enumeration of the errors with the offset each takes in the report; string constants are modelled with their contents.'),
})

GC = dict(specs=['alloc', 'text', 'table', 'string', 'valuekey', 'objs', 'gc'], files=['nkgc.c', 'nkobjs.c', 'nkstring.c', 'nktable.c', 'nkvalue.c', 'nkerror.c', 'nkcorout.c'])
PROPS.update({
 'P09': dict(title='Garbage collection keeps everything reachable',
   groups=[dict(GC, fns=['nkiVmGcStateMakeEntry', 'nkiVmGarbageCollect_markValue', 'nkiVmGarbageCollect_markStack', 'nkiCoroutineLibrary_coroutineGCMark', 'nkiVmGarbageCollect_markObject', 'nkiVmGarbageCollect_markReferenced',
                         'nkiVmObjectDelete', 'nkiVmObjectTableCleanupObject', 'nkiVmObjectTableCleanOldObjects', 'nkiVmStringTableCleanOldStrings', 'nkiVmGarbageCollect'])],
   harness=[dict(name='objects9', src='objects9.c')],
   assumptions=['a mark callback of the host only marks values through the public marking function and returns; a cleanup callback frees what the host attached and leaves the blocks of the machine alone',
                'no object yet carries the number of the coming pass (a 32-bit counter that would have to wrap around)',
                'the stack of a suspended coroutine is reached through the coroutine mark callback; that the callback of the coroutine type is the verified one is a fact of the type registration',
                'termination of the marking worklist is not proved (each pass marks an unmarked object or drops a record)'],
   note='Tri-colour argument over ghost lists: every value inside a marked object is marked or waiting; at the end nothing waits, so everything reachable from the roots (handles, root stack, running coroutine, static space) is marked, and the sweep removes only the unmarked.'),
})

DYN = ['alloc', 'text', 'strprim', 'textuse', 'dynstr']; DYNF = ['nkdynstr.c', 'nkmem.c', 'nkstring.c']
PROPS.update({
 'P20': dict(title='Growable text buffers hold exactly what was appended',
   groups=[dict(specs=DYN, files=DYNF, fns=['nkiDynStrCreate', 'nkiDynStrDelete', 'nkiDynStrAppend', 'nkiStrdup', 'nkiStrcat', 'nkiStrlen']),
           dict(specs=DYN + ['dynstr_int'], files=DYNF, fns=['nkiDynStrAppendInt32']), dict(specs=DYN + ['dynstr_uint'], files=DYNF, fns=['nkiDynStrAppendUint32']),
           dict(specs=DYN + ['dynstr_float'], files=DYNF, fns=['nkiDynStrAppendFloat']),
           dict(specs=['mem'], files=['nkmem.c', 'nkerror.c'], fns=['nkiMalloc_real', 'nkiRealloc'], extern_note={'nkiMemcpy': MEMNOTE})],
   harness=[dict(name='dynstr', src='dynstr.c')],
   assumptions=['the text appended is not the buffer itself', 'sprintf writes a 32-bit number in decimal with at most 11 characters, and a single-precision number under %f with at most 47'],
   note='Creation, appending and deletion proved for all texts and numbers: the old text is the front, what was appended is the back, in a fresh block large enough; numbers decode to the value appended; a failed append leaves the buffer as it was.'),
})

OPF = ['nkvalue.c', 'nkopcode.c', 'nkstack.c', 'nkvm.c', 'nkcorout.c']
PROPS.update({
'P12': dict(title='No program, however malformed, reaches outside the machine',
   groups=[dict(specs=['alloc', 'text', 'stack', 'vsafe', 'machine', 'opsafe'], files=OPF,
                fns=['nkiOpcode_' + x for x in ('add pushLiteral_int pushLiteral_float pushLiteral_string pushLiteral_functionId nop subtract multiply divide modulo negate pop popN stackPeek stackPoke staticPeek staticPoke jumpRelative return end jz gt lt ge le eq ne eqsametype not and or createObject objectFieldGet objectFieldGet_noPop objectFieldSet prepareSelfCall pushNil coroutineYield coroutineResume coroutineIsFinished len').split()]),
           dict(specs=['alloc', 'text', 'stack', 'vsafe', 'machine', 'opsafe', 'machrun'], files=OPF,
                fns=['nkiOpcode_call', 'nkiOpcode_coroutineCreate', 'nkiVmInitExecutionContext', 'nkiVmDeinitExecutionContext', 'nkiVmIterate', 'nkiVmExecuteProgram']),
           dict(specs=['alloc', 'stack'], files=['nkstack.c'])],
   harness=[dict(name='bytecode', src='bytecode.c')],
   assumptions=['contracts of the object and string tables used by the instructions (functional contracts proved by P04 to P08; here only: returned entries lie in an object, the rest of the machine is left alone)',
                'a native function keeps the machine well formed and does not free blocks it does not own', 'garbage collection keeps the machine well formed (P09)',
                'every slot of the instruction table holds one of the instructions listed (nkiVmInitOpcodeTable fills it)'],
   not_covered=['nkiVmCallFunction (host memory passed by the caller), nkiVmStaticDump and the other printing functions', 'the loaders that build a machine from a snapshot'],
   note='Every instruction, the instruction fetch and the instruction loop are proved to touch only live memory of the machine and to keep code, global space, function tables, contexts and operand stacks well formed, whatever the instruction words, operands and stack contents.'),
 'P14': dict(title='Arithmetic instructions compute the documented result for all operands',
   groups=[dict(specs=['alloc', 'text', 'stack', 'vsafe', 'arith'], files=OPF,
                fns=['nkiOpcode_' + x for x in ('add subtract multiply divide modulo negate not and or gt lt ge le eq ne eqsametype').split()]),
           dict(specs=['alloc', 'text', 'stack', 'vsafe'], files=OPF, fns=['nkiValueTypeGetName', 'nkiValueToInt', 'nkiValueToFloat', 'nkiValueToString', 'nkiValueCompare']),
           dict(specs=['alloc', 'stack'], files=['nkstack.c'])],
   harness=[dict(name='arith', src='arith.c')],
   assumptions=['single-precision operations of the machine are those of C (uninterpreted in the proof, the same operator on both sides)', 'atol and atof return some number for any text'],
   not_covered=['which number a text stands for (atol, atof), the contents of a text built by adding to a text, the order of texts and of a number against a text: safety is proved, the value only searched',
                'comparisons with a NaN follow the implementation (a NaN is below everything)'],
   note='The sixteen arithmetic, comparison and logical instructions proved against a result specification by left operand type, for all operand pairs and stack contents; every division and conversion proved free of undefined behaviour; too short a stack, a zero divisor and wrong types are errors.'),
})

NOT_APPLICABLE = {}
