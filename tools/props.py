"""Source of properties.jsonl and MANIFEST.json (run tools/mk.py after editing)."""
P = []
def prop(id, title, statement, over, qtext, why, files, mech, note, observe=None, state=None, level='proof', technique=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, note=note, observe=observe, state=state, level=level, na=na,
                  technique=technique or 'contract-based deductive verification: contracts on the real C functions, obligations discharged by CBMC symbolic execution with SAT/SMT back ends'))

prop('C01', 'Integer arithmetic is exact modulo 2^64 and never crashes',
 'For all 64-bit integers, + - * (procedure and bytecode instruction), their integer-only variants add/int sub/int mul/int inc/int, negation and abs return the mathematical result modulo 2^64; rem, mod/int and div/int return the truncated remainder and quotient, with the smallest integer divided by -1 wrapping. '
 'A zero divisor raises :division-by-zero, and the integer-only procedures and the increment instruction raise on an operand that is not an integer; no operand crashes the process.',
 ['inputs'], 'every pair of 64-bit operands, every operation, procedure and instruction form',
 'the tests compare a few dozen literal sums; overflow, INT64_MIN / -1 and zero divisors are single points in 2^128 operand pairs',
 ['lib/arithmetic.c', 'lib/vm.c'], [('native arithmetic procedures', 'lib/arithmetic.c'), ('arithmetic instructions', 'lib/vm.c lBytecodeEval')],
 'All 64-bit operands; instructions are executed by the real interpreter loop on a push/push/op/return program. 64-bit * / % are uninterpreted functions in the proof (sound over-approximation); anything not provable that way is re-decided exactly.')
prop('C02', 'Float arithmetic is IEEE double; NaN and infinity never become values',
 'When + - * / rem meet at least one float (and / always), every integer operand is converted to double and the result is the IEEE-754 double result of the operation; the same promotion holds for pow, atan2, sqrt and cbrt. '
 'A result that is NaN or infinite raises :float-nan or :float-inf instead of being returned, both from the procedures and from the bytecode instructions.',
 ['inputs'], 'every int/float operand pair with finite floats',
 'tests use small decimal literals; rounding differences, 2^53+1 and overflow to infinity are never reached',
 ['lib/arithmetic.c', 'lib/vm.c', 'lib/nujel.h'], [('lValFloat rejects NaN/Inf', 'lib/nujel.h'), ('promotion in procedures and instructions', 'lib/arithmetic.c, lib/vm.c')],
 'All finite doubles and all ints. Double + - * / and libm functions are uninterpreted in the proof, so operand order, promotion, choice of operation and NaN/Inf handling are proved, not the FPU.')
prop('C03', 'A bytecode instruction and its procedure agree',
 'For every pair of operands that are not nil, the bytecode instruction for + - * / rem, add/int, bit-and, bit-or, bit-xor, bit-shift-left and bit-shift-right and the first-class procedure of the same name either return the identical value or both raise; for numeric operands they raise the same kind of exception. '
 'So compiling a call inline can never change its meaning.',
 ['inputs', 'programs'], 'every operator with an inline instruction, every non-nil operand pair of any type',
 'tests always go through the compiler, which picks one of the two implementations; nothing compares them',
 ['lib/vm.c', 'lib/arithmetic.c'], [('instruction bodies', 'lib/vm.c lBytecodeEval'), ('procedure bodies', 'lib/arithmetic.c')],
 'Relational proof over both real implementations, all operand types and values.')
prop('C04', 'Comparison and equality are exact',
 'The comparison instructions order two ints as integers, two floats or a mixed pair as doubles, strings bytewise as unsigned bytes with a proper prefix first, and symbols and keywords likewise by name; < <= > >= = and not= are mutually consistent on them. '
 'Equality of values of different non-numeric types is false, of reference types is identity, and zero? is true exactly for 0 and 0.0.',
 ['inputs'], 'every pair of comparable values',
 'tests compare small positive numbers and short words; differences beyond 2^31, bytes above 127 and prefixes are not sampled',
 ['lib/val.c', 'lib/vm.c'], [('three-way comparison', 'lib/val.c lValGreater'), ('equality', 'lib/val.c lValEqual'), ('predicate instructions', 'lib/vm.c')],
 'All values; the comparison loops over strings and names are proved by loop invariants, with no bound on the length.')
prop('C05', 'Bit operations are exact on all 64 bits',
 'bit-and, bit-or, bit-xor and bit-not work on all 64 bits, popcount counts the set bits, and shifts use the amount modulo 64: left shifts fill with zeros, right shifts copy the sign bit. '
 'Procedures and instructions agree and raise on operands that are not integers.',
 ['inputs'], 'every operand pair including negative values and any shift amount',
 'tests shift small positive values by small amounts',
 ['lib/arithmetic.c', 'lib/vm.c'], [('bit procedures', 'lib/arithmetic.c'), ('bit instructions', 'lib/vm.c')],
 'Specified bit by bit for a symbolic bit position; all operands.')
prop('C06', 'ref and set! are exact, bounds-checked and touch nothing else',
 'For arrays, strings, buffers, buffer views of every element type, bytecode arrays, lists, trees and environments of any size and any 64-bit index, ref returns the element addressed, decoded from the bytes of a view, and set! changes that element and nothing else. '
 'An index outside the collection raises :out-of-bounds or :type-error (a list yields nil), as does a value of the wrong type; memory outside the collection is never read or written, by procedure or instruction.',
 ['inputs'], 'every collection kind and size, every key of any type and value, every stored value',
 'tests index small collections with small indices; indices beyond 2^31, view offsets and off-by-one bounds are not sampled',
 ['lib/generic.c', 'lib/vm.c'], [('generic access', 'lib/generic.c lGenericRef/lGenericSet'), ('view codec', 'lib/generic.c lBufferViewRef/lBufferViewSet'), ('ref and set! instructions', 'lib/vm.c')],
 'Symbolic sizes and contents; the frame is checked at a symbolic witness location. Lists: bounded length, labelled bounded.')
prop('C07', 'Immutable collections never change',
 'No set!, length! or other mutating procedure modifies an array, buffer or tree that is marked immutable; it raises instead and leaves length and contents as they were. '
 'A view of an immutable buffer is itself immutable however it is requested, and no procedure hands out writable memory of an immutable buffer or view.',
 ['inputs', 'operations'], 'every mutating operation on every immutable collection of any size and contents',
 'tests check one literal per collection kind; views over immutable buffers and empty collections are combinations they do not reach',
 ['lib/generic.c', 'lib/buffer.c', 'lib/array.c', 'lib/tree.c'], [('immutability checks', 'lib/generic.c lGenericSet'), ('view creation', 'lib/buffer.c bufferView'), ('writable pointers', 'lib/type-system.c castToBuffer')],
 'Symbolic sizes and contents; unchanged contents are checked at a symbolic witness location.')

prop('C08', 'Buffers, arrays and their conversions keep exactly the bytes they should',
 'Allocating, cloning, cutting, copying, growing and converting buffers and arrays of any size yields exactly the selected bytes or elements at the right place, zero or nil where nothing was copied, in memory of its own; everything else stays as it was. '
 'A size, offset or length that is negative, too large or of the wrong type, an immutable target and running out of memory raise without changing anything and without touching memory outside the collections.',
 ['inputs'], 'every buffer, array and argument of any type, any size up to the limits of the types, with allocation allowed to fail at every call',
 'tests copy a few bytes between small buffers; sizes near 2^31, failing allocations and overlapping selections are not sampled',
 ['lib/buffer.c', 'lib/array.c', 'lib/allocator.c'], [('buffer procedures and methods', 'lib/buffer.c'), ('array methods', 'lib/array.c'), ('buffer and array allocation', 'lib/allocator.c')],
 'Symbolic sizes and contents, a symbolic witness offset stands for every byte; libc memory functions are replaced by contracts. Conversions between arrays and bytecode arrays: at most 5 elements, labelled bounded.')
prop('C09', 'Strings: cut and search are exact, NUL bytes included',
 'For every string and every start and end, cut returns the selected bytes as a fresh immutable string, clipping the range to the string. '
 'index-of returns the first position at or after its start, last-index-of the last one at or before it, at which a non-empty needle occurs, and a negative number when there is none; NUL bytes are ordinary bytes and no byte outside the strings is read.',
 ['inputs'], 'every string and needle of any length and content, every start and end of any type',
 'tests search short words from the start; needles longer than the rest, negative positions and NUL bytes are not sampled',
 ['lib/string.c'], [('cut', 'lib/string.c lnmStringCut'), ('search', 'lib/string.c lnmStringIndexOf/lnmStringLastIndexOf')],
 'Symbolic lengths and contents; the search loops are proved by loop invariants, with no bound.')
prop('C11', 'Trees are exact maps from symbols to values',
 'After any sequence of insertions a tree of any size associates each symbol with the value stored for it last, and with nothing when none was stored: ref and has? find exactly those associations, length counts them, keys and values list them in the same ascending order. '
 'tree/new stores its arguments pair by pair, clone makes an equal tree that shares no node, and looking up, listing or cloning changes nothing.',
 ['inputs', 'operations'], 'every tree of any size and shape, every key, every sequence of insertions',
 'tests insert a handful of keys in one order; rotations deep in a tree and long insertion orders are not sampled',
 ['lib/tree.c'], [('insertion', 'lib/tree.c lTreeInsert'), ('lookup', 'lib/tree.c lTreeRef'), ('size, keys, values, copies', 'lib/tree.c')],
 'Induction over the tree: the recursive calls are replaced by the contract under proof; lookup loops and the argument loop are proved by invariants. No bound on the tree.')
prop('C12', 'Trees stay ordered and balanced',
 'After any sequence of insertions every tree is a balanced search tree: keys to the left are smaller and to the right greater, the heights of the two subtrees of every node differ by at most one and the height kept in the node is right. '
 'So an insertion makes the tree at most one level higher, and looking up one of n keys takes at most about 1.44 log2 n comparisons.',
 ['inputs', 'operations'], 'every tree of any size and shape and every insertion',
 'tests only observe that keys are found, which an unbalanced or wrongly annotated tree satisfies as well',
 ['lib/tree.c'], [('insertion and rebalancing', 'lib/tree.c lTreeInsert/lTreeBalance/lTreeRotateLeft/lTreeRotateRight')],
 'Induction over the tree: the recursive call is replaced by the contract under proof. No bound on the tree.')
prop('C10', 'Symbols are interned: one object per name',
 'Whatever symbols were created and collected before, asking for a name yields the existing symbol of that name, and otherwise a new symbol with that name which was not in use; names count up to the 93 characters a symbol stores. '
 'Creating or freeing a symbol leaves every other symbol with its name and still found by it, and creation gives up only when no place is left.',
 ['inputs', 'operations'], 'every state of the symbol table reachable by creating and freeing symbols, every name',
 'tests create few symbols and free none; collisions, tombstones, wrap-around, reuse and a table without fresh slots are not sampled',
 ['lib/symbol.c'], [('interning', 'lib/symbol.c lSymS/lSymbolIndexSlot'), ('freeing', 'lib/symbol.c lSymbolFree')],
 'The table invariant is stated for symbolic witnesses (slot, symbol, character) over the full table of 16384 symbols; the probe loop is proved by an invariant.')
prop('C13', 'Variables resolve to their innermost binding',
 'In a chain of scopes of any depth and size, reading a variable yields the value of its innermost binding and set! changes exactly that binding; def binds the name in the scope at hand, whatever the scopes around it hold. '
 'Reading or assigning a name without any binding raises :unbound-variable and changes nothing, and resolves? and has? tell exactly whether a binding is found; the instructions for functions with more than 256 literals behave the same.',
 ['inputs', 'programs'], 'every chain of scopes, every name, every value, both encodings of every variable instruction',
 'tests use shallow scopes with a handful of variables and functions with few literals; shadowing at depth and the wide encodings are not sampled',
 ['lib/closure.c', 'lib/vm.c', 'lib/core-operators.c', 'lib/type-system.c'], [('lookup, assignment, definition', 'lib/closure.c lGetClosureSym/lSetClosureSym/lDefineClosureSym'), ('variable instructions', 'lib/vm.c lBytecodeEval')],
 'Scopes and their trees come into being as the loops walk over them; the loops are proved by invariants, with no bound on depth or size.')
prop('C14', 'Calls bind every argument to the right parameter',
 'Calling a function or macro, directly or with apply, binds its parameters to the arguments in order in a new scope inside the function, a missing argument is nil and a rest parameter gets the list of the remaining arguments in order; a built-in procedure receives its arguments the same way and its value becomes the value of the call, leaving the operands below untouched. '
 'A method call finds the entry of the object, then that of its prototype, then the method of the innermost class of the receiver that has one; an unknown method and calling a value that is no function raise :type-error.',
 ['inputs', 'programs'], 'every parameter list of any length, every argument list, every built-in arity, every receiver and class hierarchy',
 'tests call functions with the expected number of arguments; missing and surplus arguments for every arity, apply with long or improper lists and deep class chains are not sampled',
 ['lib/vm.c', 'lib/closure.c', 'lib/type-system.c'], [('call instructions', 'lib/vm.c lBytecodeEval lopApply/lopApplyCollection'), ('scope of a call', 'lib/closure.c lClosureNewFunCall'), ('method lookup', 'lib/type-system.c lMethodLookup')],
 'Parameter lists, argument lists of apply, class chains and method tables are unbounded (loop invariants). Direct calls of functions: 0, 1, 2, 3, 5 and 24 arguments on the stack; built-in procedures: every number of arguments up to two more than they take.')
prop('C15', 'Exceptions reach the closest handler; code resumes where it left off',
 'A thrown value, a failing instruction or a failing built-in procedure, at whatever depth of calls and scopes, hands the exception (with its stack trace, or a bare value as a list) to the closest handler still active; its value becomes that of the try, with the operands and the scope of the surrounding code intact and nothing further of the body run, and a handler that fails passes to the next one. What is thrown is left as it was, and an exception nobody catches ends the evaluation with it. '
 'Returning from a call at any scope depth, let, eval, jumps and conditionals likewise leave operands, scopes and literals of the surrounding code as they were, and the stacks have room for all the code about to run can push.',
 ['inputs', 'programs'], 'every value thrown and returned, every jump offset, every size of stacks and code; nesting as enumerated by the cases',
 'tests throw a few fixed exceptions from shallow code; operands left on the stack, nested and failing handlers, throws across scopes and calls, and large functions are not sampled',
 ['lib/vm.c'], [('exceptions', 'lib/vm.c lBytecodeEval lopTry/lopThrow'), ('returning', 'lib/vm.c lBytecodeEval lopRet'), ('stacks', 'lib/vm.c lBytecodeEnsureSufficientStack')],
 'The dispatch loop is executed on real instruction sequences with arbitrary operands: one contract case per shape of nesting (20 shapes of throw, for built-in and function handlers).')
P.sort(key=lambda p: p['id'])
