import json
P=[]
def p(id,title,stmt,over,qt,why,files,mech,**k):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qt),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=mech,where=files[0])],**k)); P.append(d)
p('P01','Memory accounting is exact and the limit is never exceeded',
 'At every moment the memory usage reported for a virtual machine equals the sum of the sizes, bookkeeping included, of the blocks handed out through its allocator and not yet released, and the reported peak is the largest usage ever reached. No request that would take the usage past the configured limit is granted, whatever the size asked for, and a request that is refused for any reason, host refusal included, leaves usage and peak unchanged.',
 ['histories','inputs','fault_sequences'],'every sequence of allocate/resize/release calls with any sizes, any limit and any pattern of host allocation failures',
 'A test runs a few sizes far from the 32-bit edge; the accounting must be exact for every size and every history, including requests that wrap.',
 ['src/nkmem.c','src/nkmem.h','src/nkx.c'],'the allocator wrappers that keep a header before each block, a usage counter and the per-machine allocation list')
p('P02','Blocks are large enough, distinct, and keep their contents when resized',
 'A successful allocation of any non-zero size, or of any count of elements, yields a block holding at least that many bytes and overlapping no block still in use; a product of size and count that does not fit 32 bits is refused, never silently shortened. Resizing keeps the bytes common to the old and new size and retires the old block; releasing a block hands exactly that block back to the host and leaves every other block usable.',
 ['histories','inputs','fault_sequences'],'every size, count and history of allocate/resize/release calls, and any host failure pattern',
 'Overflowing size products and list-unlinking cases occur only for particular sizes and orders of release.',
 ['src/nkmem.c','src/nkstring.c'],'array allocation overflow checks, copy length on resize, and the doubly linked allocation list')
p('P03','A failed allocation is contained by every public call',
 'When memory runs out inside any public operation, that operation returns its documented failure value to its caller, the failure flag becomes and stays set, and the recovery point that was active before the call is active again afterwards, whether the call succeeds or fails. Once the flag is set, public operations that could allocate return their failure value without doing their work, and deleting the machine still gives every block back to the host.',
 ['histories','fault_sequences'],'every public operation, every point inside it at which memory may run out, every nesting of public calls through host callbacks',
 'Tests fail allocations at sampled points; containment must hold at every allocation in every public operation and every nesting.',
 ['src/nkx.c','src/nkfail.h','src/nkerror.c'],'the save/restore of the recovery buffer around each public call')
p('P04','Slot tables never lose, duplicate or misplace an entry',
 'The growable tables that give strings and objects their ids hand out, on each insertion, an id whose slot was empty, leave every other entry where it was, and make the id resolve to the inserted entry until it is erased. Every empty slot stays available for reuse and no slot is ever offered twice; growing, shrinking and rebuilding keep all entries and never cut off a used slot.',
 ['histories','fault_sequences'],'every sequence of insert/erase/shrink/rebuild operations of any length, and allocation failure at any point inside them',
 'Free-list damage shows only after particular interleavings of erase, growth and shrink.',
 ['src/nktable.c','src/nkstring.c','src/nkobjs.c'],'the free-slot list kept beside the pointer array')
p('P05','Equal string contents share one id and different contents never do',
 'Asking for the id of a text yields an id whose stored text is exactly that text; two requests made while the string stays alive yield the same id if and only if the texts are equal, including when distinct texts collide in the hash or share a prefix. Creating a string changes no existing id or text, and looking up an id that was never issued or has been collected yields a defined default instead of memory outside the table.',
 ['histories','inputs'],'every history of string creation, lookup and collection, every text and every id value',
 'Collisions and stale ids do not arise in sampled inputs.',
 ['src/nkstring.c','src/nktable.c'],'hash buckets chained through the string records, plus the slot table')
p('P06','Objects behave as maps from values to values',
 'After any sequence of stores, reads and removals on an object, reading a key gives the value most recently stored under an equal key, or nothing if there is none or it was removed; no operation on one key changes what another key yields. Two keys that compare equal name the same entry, and two that do not never do.',
 ['histories','inputs'],'every operation sequence over every kind of key, including keys that fall into the same bucket',
 'Bucket-chain surgery errors depend on the position of the entry in its chain and on which keys collide.',
 ['src/nkobjs.c','src/nkvalue.c'],'fixed array of hash buckets with linked entries')
p('P07','Object size is exact and the field limit holds',
 'The size reported for an object always equals the number of entries it holds. No operation takes an object past the configured field limit, and an insertion refused for that reason, or for lack of memory, adds nothing and leaves the size right.',
 ['histories','fault_sequences','configurations'],'every operation history, every field limit, and allocation failure at any insertion',
 'Counter drift needs a refused insertion followed by further use of the same object.',
 ['src/nkobjs.c'],'the size counter updated beside chain insertion and removal')
p('P08','Objects held by the host are tracked and never collected',
 'An object is on the list of host-held objects exactly while its handle count is above zero, and the list contains no object twice. Releasing handles decrements one at a time, a release without a matching acquire is reported as an error without changing the count, and a collection never frees an object that is on the list or anything reachable from it.',
 ['histories'],'every interleaving of acquire, release, collection and object creation',
 'List unlinking errors depend on which neighbours are present when a handle is released.',
 ['src/nkobjs.c','src/nkgc.c'],'intrusive list of externally held objects')
p('P09','Garbage collection keeps everything reachable',
 'A collection never frees a string or object reachable from any live root: the global variables, every execution stack, host-held handles, and the values stored in reachable objects. Everything unreachable from them is freed, and everything kept is left with its contents unchanged and ready for the next collection.',
 ['histories','inputs'],'every heap graph, including cycles and deep chains, and every collection history',
 'Reachability is a statement about all heap graphs; a missed root or edge only matters for particular graphs.',
 ['src/nkgc.c','src/nkstring.c','src/nkobjs.c','src/nkcorout.c'],'mark and sweep with a work list and a pass counter')
p('P10','Value comparison is an order and agrees with hashing',
 'Floating-point not-a-number aside, comparing two values is antisymmetric and transitive within a type, is zero for a value against itself, and orders integers by their mathematical value, never by a wrapped difference. Values that compare equal under the strict comparison hash equally, so that any structure indexed by hash finds them.',
 ['inputs'],'all pairs and triples of values of every type, including extreme integers',
 'Wrapped comparisons only show at the extremes of the integer range.',
 ['src/nkvalue.c'],'three-way comparison and hash functions over tagged values')
p('P11','The operand stack is a stack and never leaves its buffer',
 'Pushing and popping any sequence of values returns them in last-in first-out order, growing the buffer never changes or loses a stored value, and no access through the stack reaches outside its buffer whatever index a program computes. Popping more than was pushed is reported as an error and yields a harmless value, and the stack never grows past the configured maximum.',
 ['histories','inputs','configurations'],'every push/pop/peek sequence, any index, and any stack limit',
 'Wrap-around of masks and of the capacity at the limits is out of reach of sampled programs.',
 ['src/nkstack.c','src/nkstack.h'],'power-of-two buffer with an address mask')
p('P12','No program, however malformed, reaches outside the machine',
 'Executing any sequence of instruction words, including corrupted ones loaded from a snapshot, only reads and writes inside the instruction array, global space, operand stack and objects of its own machine. Jumps, calls, global accesses, function and object ids that are out of range are reported as run-time errors or confined by masking, never followed.',
 ['programs','inputs'],'every instruction array, every static space and stack content, and every function, object or string id stored in a value',
 'Hostile bytecode is unbounded; fuzzing samples it.',
 ['src/nkopcode.c','src/nkvm.c','src/nkfunc.c','src/nkstack.c'],'address masks and range checks in the instruction implementations')
p('P13','A program never runs past its instruction budget',
 'When a budget of N instructions is set, at most N further instructions are executed before the machine stops with an error, however control flows between functions, coroutines and native calls; with no budget the machine is not stopped. Each executed instruction uses one unit.',
 ['programs','histories'],'every program, every budget including zero and the largest, and every nesting of calls',
 'A budget that leaks only along a rare control path is not seen by sampled programs.',
 ['src/nkvm.c','src/nkopcode.c'],'countdown in the instruction step')
p('P14','Arithmetic instructions compute the documented result for all operands',
 'For every pair of operands the arithmetic, comparison and logical instructions push the result of the operation on the left operand type: 32-bit two-complement wrapping for integers, single-precision for floating point. Division or remainder by zero and operand types that are not allowed are reported as errors instead of crashing, including the one integer division that overflows.',
 ['inputs','programs'],'all operand pairs of all types',
 'A 64-bit space of operand pairs; the dangerous ones are a handful at the extremes.',
 ['src/nkopcode.c','src/nkvalue.c'],'one implementation function per instruction')
p('P15','Coroutines keep separate stacks and resume where they left off',
 'Resuming a coroutine continues it exactly where it last yielded, with its own stack contents unchanged by whatever ran meanwhile, and yielding returns control to whoever resumed it. A finished or already running coroutine is never resumed; the attempt is an error.',
 ['histories','programs'],'every nesting and interleaving of create/resume/yield',
 'Interleavings are unbounded.',
 ['src/nkcorout.c','src/nkopcode.c'],'chain of execution contexts linked by parent')
p('P16','Loading a snapshot never leaves dangling or out-of-range references',
 'Restoring a machine from any byte stream either reports failure or leaves a machine in which every stored count matches its table, every hash chain and slot is consistent, and table sizes are the powers of two the access masks assume. No byte stream makes the loader write outside its tables.',
 ['inputs'],'all byte streams, including truncated and adversarial ones',
 'The space of byte streams is unbounded and fuzzing samples it.',
 ['src/nksave.c'],'reader routines with explicit validity checks')
p('P17','Saving and restoring reproduces the machine',
 'Restoring a saved machine into a fresh one gives the same values, strings, objects, functions, globals, stacks and limits, so that continuing the restored machine behaves like continuing the original. The bytes read back are consumed exactly as they were written.',
 ['histories','programs'],'every machine state reachable by any program at any point of its execution',
 'Every state of every program would have to be saved; a field left out matters only in states that use it.',
 ['src/nksave.c'],'one routine per structure used for both directions')
p('P18','Error reports fit the buffer the host was told to provide',
 'The length reported for the error text equals exactly what is then written, terminator included, for any number of errors of any length, and the text lists every recorded error once, oldest first. While no allocation has failed, the error count equals the number of recorded errors; after a failed allocation the report and the count show that failure alone.',
 ['histories','inputs'],'every sequence of reported errors with any texts and line numbers',
 'Length mismatches depend on digit counts and text lengths that tests do not vary.',
 ['src/nkerror.c'],'two traversals of the error list, one to measure and one to write')
p('P19','Text and memory primitives respect their bounds',
 'The copy, fill, compare, length and bounded-copy helpers touch exactly the bytes their arguments allow, produce the documented result for every input, and the bounded copy always terminates its output after at most the given number of characters. Duplicating, escaping and unescaping helpers never read past the terminator nor write past their buffer.',
 ['inputs'],'all buffers, lengths and contents',
 'Off-by-one errors show only at exact boundary lengths.',
 ['src/nkstring.c','src/nkdynstr.c','src/nkcommon.h'],'hand-written replacements of the C library helpers')
p('P20','Growable text buffers hold exactly what was appended',
 'After any sequence of appends a text buffer contains the concatenation of everything appended, terminated, in a block large enough for it; appended integers appear in decimal and read back as the same number, appended floating-point numbers with six decimals. An append that runs out of memory leaves the buffer as it was.',
 ['histories','inputs'],'every sequence of appends of any texts and numbers, and failure of any allocation',
 'Boundary sizes and extreme numbers are not sampled.',
 ['src/nkdynstr.c'],'reallocating buffer with explicit length computation')
p('P21','Compacting memory changes nothing a program can observe',
 'Compacting a machine leaves every global, stack value and object entry denoting the same content as before, and keeps every id that is still referenced valid. Only unused capacity is given back.',
 ['histories'],'every machine state',
 'A missed reference matters only for states that hold it.',
 ['src/nkshrink.c','src/nktable.c'],'renumbering and table truncation')
p('P22','Constant folding agrees with run-time evaluation',
 'An expression over literals simplified at compile time yields the same value as evaluating it at run time, for every operator and every operand value; expressions whose evaluation would be an error, such as division by zero, are left for run time.',
 ['inputs','programs'],'all literal operand pairs and operators',
 'Rare operand pairs (extremes, zero divisors, long fractions) disagree.',
 ['src/nkopt.c','src/nkopcode.c'],'tree rewriting over literal nodes')
p('P23','Registering natives and types yields stable, unique ids',
 'Registering a native function or external type returns an id below the current count whose entry carries the given name and callback; registering a native function under an existing name returns the existing entry and registering a type twice is refused with an error, never a duplicate. Registration never changes other ids, and a failed registration leaves the existing tables usable.',
 ['histories','fault_sequences'],'every sequence of registrations and any allocation failure',
 'Failure in the middle of growth is not sampled per call.',
 ['src/nkfunc.c','src/nkvm.c'],'append-only arrays searched by name')
p('P24','Native callbacks only run with arguments that passed their checks',
 'A native function registered with argument types is only invoked when the number and types of the arguments match what was declared, and otherwise an error is reported and the function is not run. The arguments it sees are exactly the values the caller passed, in order.',
 ['programs','inputs'],'every call with any arguments',
 'All combinations of declared and passed types cannot be sampled.',
 ['src/nkfunc.c','src/nkopcode.c'],'argument check in the native call path')
p('P25','Compiling any text is memory safe and reports errors instead of crashing',
 'For every source text the tokenizer and compiler terminate, touch only their own memory, and either produce a program or report at least one error with a line number inside the text.',
 ['inputs'],'all source texts',
 'All texts cannot be sampled.',
 ['src/nktoken.c','src/nkexpr.c','src/nkcompil.c'],'hand-written tokenizer and recursive-descent compiler with a depth limit')
p('P26','Compiled programs mean what the language says',
 'The instructions emitted for a program compute what the language definition prescribes for that program, for every statement and expression form.',
 ['programs'],'all programs',
 'All programs cannot be sampled.',
 ['src/nkcompil.c','src/nkexpr.c','src/nkopcode.c'],'recursive-descent compiler emitting stack code')
for d in P:
    assert len(d['title'])<=80,(d['id'],len(d['title']))
    print(json.dumps(d))
