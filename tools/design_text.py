# Prose for DESIGN.md, one entry per property: (specified, oracle/bounds/cost, reach)
TEXT = {
'P01': 'Ghost map `live` from block headers to sizes; invariant `counted` (usage = sum over live of size + header, peak >= usage, usage <= limit) and `listed` (doubly linked list = live set). `nkiMalloc_real`, `nkiFree`, `nkiRealloc`, `nkiMallocArray`, `nkiReallocArray` keep both on every path, refused requests (exceptional exit) change nothing and set the flag. nkx.c wrappers keep the same contract. The 32-bit wrap of `size + header` is an arithmetic obligation, which no test samples.',
'P02': 'Same group: results are fresh user blocks of at least the size asked, products are proved not to wrap, `nkiRealloc` keeps bytes below min(old, new), the released header leaves the map and goes back to the host once.',
'P03': 'Every public function in nkx.c carries a contract generated by `tools/gen_nkx_spec.py`: on return and on each exceptional path the recovery buffer has its entry contents, the flag only goes up, a failed call returns its documented value, and no work is done once the flag is set. `setjmp` is modelled by symbolic execution of both returns. The writers of the recovery buffer and of the flag, and the callers of `longjmp`, are enumerated over the whole program (`sites`).',
'P04': 'nktable.c in full: ghost enumeration of the free list (`holes`), invariant table_ok (each empty slot is on the list exactly once; capacity is a power of two; slots above are unreachable). Insert/erase/shrink/rebuild keep all other slots.',
'P05': 'String table invariant: every chain holds exactly the records whose text hashes to its bucket, each record sits in its slot, texts are pairwise different. `FindOrAdd` returns the id of the text, equal texts return the same id; ids never issued resolve to the default.',
'P06': 'Ghost enumeration of bucket chains of an object and of its keys (equality and hash from P10). Store, read, remove: the map changes at that key only.',
'P07': 'Size field = length of the ghost enumeration; the limit is kept by insertion, removal, refusal and failed allocation.',
'P08': 'Ghost list of held objects, each once; count > 0 exactly for members. The sweep skips members (P09).',
'P09': 'Tri-colour argument over ghost worklist: all contents of a marked object are marked or waiting; roots are handles, root stack, running coroutine and parents, static space. After the loop nothing waits; the sweep removes exactly the unmarked, and what stays keeps its contents.',
'P10': '`nkiValueCompare` and `nkiValueHash` equal a mathematical comparison and hash; antisymmetry, transitivity, reflexivity and hash agreement are lemmas over those.',
'P11': 'nkstack.c in full: buffer is a power of two at least the depth, mask = capacity - 1, each peek is masked inside, push/pop sequence laws, limit, growth keeps values.',
'P18': 'Ghost enumeration of the errors with each offset in the report; the measuring loop and the writing loop are both tied to it, so the length reported equals the bytes written. String constants are modelled with their contents and `sprintf` with decimal lengths.',
'P19': 'The eight primitives and duplicate/escape/unescape helpers, all lengths and contents.',
}
TEXT.update({
'P20': 'Each append is proved to leave old text ++ new text in a fresh block; numbers through the decimal contract of `sprintf` (one group per format); a throwing append leaves the buffer untouched (exceptional postcondition).',
'P14': 'Each of the sixteen instructions has a result equation by left operand type over the popped pair: wrapped sum, difference, product, truncated quotient and remainder, IEEE single operators, comparison signs, truth values; the rest of the stack is unchanged; missing operands, zero divisors, the overflowing division and wrong types give an error. Conversions are proved for values of any content. Signed overflow, division and float-to-int conversion are obligations on the C code itself: four defects were found that way.',
'P12': 'One machine invariant (`machine` in specs/machine.spec): code, global space, function tables, every execution context of the machine (a ghost field says which contexts belong to it) and every operand stack are live blocks of at least the size their masks and counts say, and no two stacks share a block. Each of the 45 instructions is proved to keep it from any state satisfying it, on normal and on abandoned exit, with every memory access inside a live block; the instruction words, operands, ids and stack contents are unconstrained. Fetch, program loop and context creation are proved against the same invariant, native callbacks and the collector are assumed to keep it. The proof found a null context dereference, the searcher an instruction that loops 2^32 times.',
})
NA_TEXT = {}
LEFT = [
 'Handlers of a `NaN` object key never find it again (IEEE comparison): stated as an exclusion in P06, P07, P10.',
 '`nkiVmStackPush_internal` with capacity 0 uses size and count swapped: unreachable, `nkiVmStackInit` always gives a capacity.',
]
CATCH = {}
FALSE = [
 'P09: `nkiVmGarbageCollect` exceeded its solver budget when other processes shared the cores; solved with `after` cuts (obligations split at each call) rather than by loosening the contract.',
 'P18: the first statement demanded that the count equal the number of errors after an allocation failure too; the code reports the failure alone, by design. The statement was corrected.',
 'P07: an early version demanded that the limit hold for objects created before the limit was lowered; the property is that no operation takes an object past it, and was restated.',
 'P23: "registering an existing name returns the existing entry" holds for native functions only; registering a type twice is refused with an error. The statement was corrected.',
]
