import json
P=[]
def p(id,title,stmt,over,otext,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=otext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],**({'state':[dict(name=a,meaning=b) for a,b in state]} if state else {}),observe_at=[observe],hook_needed=None)))
p("C01","Arithmetic and comparison are exact and independent of storage width",
 "Every arithmetic, logical and comparison primitive gives on arrays exactly the element-by-element result of applying it to the individual numbers and characters, with no wraparound when values leave the range of the narrowest storage type that held them. Integer results below 2^53 in magnitude are exact; character arithmetic stays within code points; combinations outside a primitive's domain are an error and never a wrong value. Leading-axis shape agreement decides which arguments are combined, and a mismatch is an error.",
 ["inputs"],"all pairs of atoms and arrays of numbers and characters, of any shape, nesting and element range",
 "tests sample a few hundred fixed arguments; overflow, tail and type-pair paths depend on value ranges, lengths and storage combinations no fixed list covers",
 ["src/builtins/arithd.c","src/builtins/arithm.c","src/builtins/cmp.c","src/builtins/bit.c","src/utils/each.c","src/builtins/sfns.c"],
 [("dyadic arithmetic dispatch and overflow promotion","src/builtins/arithd.c"),("array comparison kernels","src/builtins/cmp.c"),("bit-array not/negate","src/builtins/bit.c"),("leading-axis pervasion","src/utils/each.c")],
 "result value of each call, through the C API")
p("C02","Results depend only on argument values, never on their representation",
 "Two arrays that match are interchangeable: giving either to any primitive or modifier produces matching results, or an error in both cases, whatever their internal element type, whether they are slices of larger arrays, whether they are shared, and whatever operation produced them. This also holds for the equality, ordering and hashing of nested values that contain them.",
 ["inputs","histories"],"all functions, all argument values, all internal encodings of each argument",
 "the tests exercise a literal in the one encoding the parser gives it; the number of encoding pairs times lengths times functions is far beyond what they list",
 ["src/builtins/squeeze.c","src/builtins/compare.c","src/core/stuff.c","src/core/tyarr.c","src/core/fillarr.c","src/builtins/internal.c"],
 [("choice of narrowest encoding","src/builtins/squeeze.c"),("match and compare across encodings","src/builtins/compare.c, src/core/stuff.c"),("slice objects","src/core/tyarrTemplate.c"),("hashing of values","src/utils/hash.c")],
 "results of the same call over every encoding of its arguments")
p("C03","Values are immutable: no operation changes a value still in use",
 "Once a value has been bound, stored in another value, captured or passed as an argument, it keeps matching what it was, whatever later operations, modified assignments or structural updates use it or its parts. Operations that reuse an argument's memory may only do so when nothing else can observe it.",
 ["histories","inputs"],"all histories of operations over variables that alias each other in part or whole",
 "in-place reuse depends on the exact reference counts at each step of a history; tests check single expressions with fresh literals and never re-read the other aliases",
 ["src/utils/mut.c","src/utils/mut.h","src/core/stuff.h","src/builtins/select.c","src/builtins/sfns.c","src/core/harr.c","src/vm.c"],
 [("reusable-argument test","src/core/stuff.h, src/h.h"),("in-place mutation builder","src/utils/mut.c"),("in-place structural update","src/builtins/select.c, src/builtins/sfns.c"),("variable moves in bytecode and tacit code","src/vm.c, src/opt/comp.c")],
 "re-reading every live variable after every step")
p("C04","Structural functions put every element where its index says",
 "Reshape, deshape, take, drop, prefixes, suffixes, windows, rotate, reverse, shift, transpose and reorder axes, join, join-to, merge, couple, solo, enclose, enlist, length, shape, rank and depth give the shape and the element at each index that their definition fixes, for every rank, axis length and element type, including empty arrays and lengths around word boundaries. Arguments that do not conform are an error.",
 ["inputs"],"all shapes, element types and left arguments",
 "data movement kernels branch on element width, axis length, alignment and rank; the tests hit a handful of small shapes",
 ["src/builtins/sfns.c","src/builtins/transpose.c","src/utils/mut.c","src/utils/bits.c","src/core/stuff.c","src/core/arrFns.h"],
 [("take/drop/shift/reverse/rotate/join","src/builtins/sfns.c"),("transpose kernels","src/builtins/transpose.c"),("bulk and bit-level copy","src/utils/mut.c, src/utils/bits.c"),("reshape","src/builtins/sfns.c")],
 "result value of each call, through the C API")
p("C05","Selection and structural update read and write exactly the addressed items",
 "Pick, select and their multi-axis and nested forms return precisely the addressed elements, counting negative indices from the end and rejecting every index out of range. An update through Under of a selecting function (⊏ ⊑ / ↑ ↓ ⥊ and compositions of them) changes exactly the addressed positions to the new values and leaves all other positions, the shape and the original array as they were, or is an error.",
 ["inputs"],"all arrays, index arrays (nested or not) and replacement values",
 "index width, element width, bounds checks and in-place update paths multiply; tests use short index lists",
 ["src/builtins/select.c","src/builtins/sfns.c","src/builtins/slash.c","src/builtins/md2.c","src/core/derv.c"],
 [("select kernels and bounds checks","src/builtins/select.c"),("pick and depth indices","src/builtins/sfns.c"),("Under for select, pick, take, drop, reverse, reshape, replicate","src/builtins/select.c, src/builtins/sfns.c, src/builtins/slash.c")],
 "result and original argument of each call")
p("C06","Search functions agree with element-wise matching",
 "Index of, member of, progressive index, find, classify, self count, occurrence counting, mark firsts and deduplicate give for every cell the answer obtained by comparing cells with Match one by one in index order. The answer does not depend on which of the direct-lookup, hashing, sorting or comparison strategies the sizes and types select.",
 ["inputs"],"all principal and searched-for arrays of any cell shape, element type and value range",
 "strategy selection depends on lengths, value ranges and type pairs with thresholds in the hundreds to thousands; tests mostly stay under them",
 ["src/builtins/search.c","src/builtins/selfsearch.c","src/utils/hash.c","src/utils/hashmapTemplate.h","src/builtins/fns.c"],
 [("index-of/member strategies","src/builtins/search.c"),("self-search strategies","src/builtins/selfsearch.c"),("hashing and hash tables","src/utils/hash.c, src/utils/hashmapTemplate.h"),("find","src/builtins/fns.c")],
 "result value of each call, through the C API")
p("C07","Sort, grade and bins realise one stable total order on values",
 "There is one total order on all data values, under which two values are equal exactly when they match. Sort returns the cells of its argument in that order, grade the stable permutation that sorts them, and bins the number of cells of a sorted left argument that precede or equal each right cell; descending forms are the exact reverse, with ties still stable, and a left argument that is not sorted is an error.",
 ["inputs"],"all arrays of numbers, characters, mixed or nested values, in any length, range and initial order",
 "radix, counting, merge, insertion and comparison strategies are selected by type, length, range and presortedness; tests use a few small arrays",
 ["src/builtins/sort.c","src/builtins/sortTemplate.h","src/builtins/grade.h","src/builtins/radix.h","src/builtins/compare.c"],
 [("sort and grade strategies","src/builtins/sortTemplate.h, src/builtins/grade.h"),("radix passes","src/builtins/radix.h"),("bins","src/builtins/grade.h"),("value comparison","src/builtins/compare.c")],
 "result value of each call, through the C API")
p("C08","Replicate, indices and group move each cell to exactly where counts say",
 "Indices lists each index as often as its count; replicate repeats each cell as often as its count, on one or several leading axes; group puts each cell, in order, in the group its key names, omits cells with key -1 and sizes its result by the largest key or the given length. Arguments with negative counts, keys below -1, fractional values or wrong lengths are an error.",
 ["inputs"],"all counts/keys (boolean, small, large, constant, sparse, dense) and cell shapes",
 "the kernels switch on density, count magnitude, element width and length thresholds; tests sample few of these",
 ["src/builtins/slash.c","src/builtins/group.c"],
 [("replicate and indices kernels","src/builtins/slash.c"),("group","src/builtins/group.c")],
 "result value of each call, through the C API")
p("C09","Fold, insert and scan equal their sequential definitions",
 "Fold and insert combine cells from the last to the first, and scan from the first to the last, giving what that sequence of individual applications gives, with any initial value taken first and identity values for empty arguments. For user functions the calls happen in exactly that order and number; special cases for particular functions and element types give the same result or error.",
 ["inputs","programs"],"all operand functions (primitive and user-defined), arrays and initial values",
 "special-cased operand/type/length/shape combinations are many; the tests cover few lengths and rarely the overflow points of integer folds and scans",
 ["src/builtins/fold.c","src/builtins/scan.c"],
 [("fold/insert fast paths","src/builtins/fold.c"),("scan fast paths","src/builtins/scan.c")],
 "result value and the log of operand calls")
p("C10","Mapping modifiers, combinators and trains follow their definitions",
 "Each, table, cells, rank, depth, repeat, choose, atop, over, before, after, valences, constant, swap and trains call their operands on exactly the arguments their definition gives, once each and in index order, and assemble the results into the defined shape. Special cases chosen for particular operands give the same result or error as the definition.",
 ["inputs","programs"],"all operands (primitive, derived and user-defined), ranks, depths and argument shapes",
 "fast paths for recognised operands (cells, rank, table, each) multiply with shapes and ranks; tests sample a few",
 ["src/builtins/cells.c","src/builtins/md1.c","src/builtins/md2.c","src/core/derv.c","src/core/derv.h","src/utils/each.c"],
 [("cells and rank special cases","src/builtins/cells.c"),("each and table","src/builtins/md1.c, src/utils/each.c"),("2-modifiers","src/builtins/md2.c"),("derived functions and trains","src/core/derv.c")],
 "result value and the log of operand calls")
p("C11","Undo inverts: applying the function to the result gives the argument back",
 "Where a function has an inverse that succeeds, applying the function to the inverse's result gives the original value back (up to rounding for •math and ⋆, up to order for the counts that /⁼ gives of unsorted indices); outside the function's range the inverse is an error, not a wrong value. This covers the natively inverted primitives (monadic - ⌽ ⍉ < ⋈ ≍ / ⋆; dyadic ⌽ ⍉ ⋆), the •math functions, ˜ of these, functions bound to a constant with ⊸ or ⟜, and blocks with 𝕊⁼𝕩, 𝕨𝕊⁼𝕩 and 𝕨𝕊˜⁼𝕩 headers, whose matching undo body is the one that runs.",
 ["inputs","programs"],"all natively invertible primitives and derived functions, all values in the range of the function and outside it",
 "inverse rules compose, so the space is programs times values; tests check a few individual inverses",
 ["src/builtins/inverse.c","src/core/derv.c","src/builtins/slash.c","src/builtins/transpose.c","src/builtins/sfns.c","src/builtins/md2.c","src/builtins/arithd.c","src/builtins/arithm.c"],
 [("inverse registration and dispatch","src/builtins/inverse.c"),("inverse of derived functions and trains","src/core/derv.c"),("per-primitive inverses","src/builtins/*.c")],
 "inverse result and its image")
p("C12","Errors are catchable anywhere and leave a consistent system",
 "Any error raised while evaluating, at any call depth and in any builtin, is delivered to the innermost enclosing catch, whose handler sees the original arguments and the message of that error; with none, it reaches the top level, which reports it and goes on. Effects completed before the error remain, effects after it do not occur, and all other values and later computations are exactly as if the failing call had not happened.",
 ["programs","histories","inputs"],"all programs with errors and nested catches at all points",
 "each of the hundreds of error sites unwinds live native state; tests check the message of single failing expressions but never what runs after them in the same process",
 ["src/vm.c","src/vm.h","src/core/gstack.h","src/builtins/md2.c","src/main.c","src/builtins/sysfn.c"],
 [("catch frames and unwinding","src/vm.c, src/vm.h"),("catch modifier","src/builtins/md2.c"),("current error message","src/builtins/sysfn.c"),("top-level handler","src/main.c")],
 "handler arguments, effect log, later results, memory balance")
p("C13","Memory is reclaimed exactly when unreachable, and limits fail cleanly",
 "A value stays intact while anything reachable refers to it, across any number of garbage collections at any point, and after all references are dropped the memory in use returns to what it was, including cyclic closures, namespaces, hash maps and values abandoned by errors. When a configured memory limit prevents an allocation, the failing operation raises a catchable error and the program goes on with all its values intact.",
 ["histories","programs","fault_sequences"],"all histories of allocation, sharing, cycles, errors and collections; all allocation failure points",
 "lifetime bugs need a specific interleaving of allocation, error and collection; tests never look at memory in use nor set a limit",
 ["src/opt/gc.c","src/opt/mm_buddy.c","src/opt/mm_buddyTemplate.c","src/core/heap.c","src/core/gstack.h","src/ns.c","src/vm.c"],
 [("cycle collection","src/opt/gc.c"),("buddy allocator","src/opt/mm_buddyTemplate.c, src/opt/mm_buddy.c"),("reference counting","src/core/stuff.h, src/h.h"),("heap limit","src/opt/mm_buddyTemplate.c")],
 "memory in use after each history, live values re-read after collections")
p("C14","Blocks follow scope, header and evaluation-order rules on every call",
 "Compiled programs with nested blocks behave by the block rules: right-to-left evaluation, fresh variables per call, closures that capture variables not values, header matching and predicates choosing the first body that fits, immediate and deferred modifiers, destructuring and modified assignment, recursion, and namespaces exposing exactly the exported names. The behaviour of a block is the same on its first call and its thousandth, and a name read before definition or a failed match is an error.",
 ["programs","histories"],"all valid bytecode programs and all numbers of calls of each block",
 "the existing tests run a compiler that cannot express nested blocks, headers, destructuring or namespaces, and almost never call a body often enough to compile it to machine code",
 ["src/vm.c","src/vm.h","src/jit/nvm_x86_64.c","src/load.c","src/ns.c"],
 [("bytecode interpreter and scopes","src/vm.c"),("machine-code generation for hot bodies","src/jit/nvm_x86_64.c"),("compiled object loading","src/load.c"),("namespaces","src/ns.c")],
 "results, errors and effect log of whole programs")
p("C15","Source text means what the grammar says",
 "Source text given to the built-in compiler is evaluated by the language grammar: parts are run from right to left, roles come from the spelling of names, modifiers bind before trains and application, and parentheses, lists, strings, characters, numbers, separators and comments are read as the language says; case does not distinguish names beyond their role. A missing 𝕨 makes a call monadic, and is an error where a value is needed. Text outside the accepted grammar, such as unbalanced brackets, misplaced assignments, wrong roles or variables read before they are set, is an error and nothing of it is run; accepted text prints and returns exactly what the language says.",
 ["programs","inputs"],"all texts in the accepted subset and all other texts",
 "the tests use around two thousand fixed texts; the grammar is recursive",
 ["src/opt/comp.c","src/load.c"],
 [("tokeniser and expression compiler","src/opt/comp.c"),("execution of compiled text","src/load.c")],
 "value or error of evaluating generated texts")
p("C16","Environments are isolated, persistent and updated line by line",
 "An interactive session keeps every variable defined by an accepted line for later lines; a line that fails keeps only the effects it completed, and an evaluation in a separate environment, with its own strictness, variable set and system values, neither sees nor changes any other environment. Redefinition is accepted or rejected as the environment's mode says, and session commands show or change only what they name.",
 ["histories","programs"],"all sequences of lines over any number of coexisting environments",
 "needs histories of lines across environments; tests evaluate one isolated text at a time",
 ["src/load.c","src/main.c","src/builtins/sysfn.c","src/vm.c"],
 [("extending a scope line by line","src/load.c, src/vm.c"),("evaluation environments","src/builtins/sysfn.c"),("session loop and commands","src/main.c")],
 "values and errors of each line, output of the session")
p("C17","The hash map is a map with insertion-ordered matching keys",
 "For every history of set, delete, get, has, count, keys and values, the mutable map answers as a finite map from values compared by Match: the last set value of a key, present exactly if set and not deleted since, with keys and values listed in corresponding order of insertion. Duplicate initial keys and absent keys without a default are errors that change nothing.",
 ["histories","inputs"],"all operation histories and key values",
 "growth, deletion and probe-chain states are reached only by long histories; tests have a few short ones",
 ["src/builtins/search.c","src/builtins/sysfn.c","src/utils/hash.c"],
 [("open-addressing table operations","src/builtins/search.c"),("map namespace interface","src/builtins/sysfn.c")],
 "answers of every operation in a history")
p("C18","File functions do to the file system exactly what they say",
 "File writes make the file's contents exactly the given characters (as UTF-8), bytes or lines, and reads return what is there, inverse to the writes; existence, type, listing, rename, create-directory, remove, name and parent functions report or change exactly the named entry. Relative paths are resolved against the stated base, and a failing operation is an error that changes nothing else.",
 ["histories","inputs","fault_sequences"],"all histories of file operations over a directory tree, all contents and path forms",
 "needs operation histories against real file-system state, including failures; tests only check path string functions",
 ["src/builtins/sysfn.c","src/utils/file.c","src/utils/file.h"],
 [("file functions","src/builtins/sysfn.c"),("path handling and read/write loops","src/utils/file.c")],
 "result of every call and an independent listing of the directory")
p("C19","Each imported file is run once per path, and cycles are errors",
 "Importing a file runs it once, relative to the importing file, and every later import of the same file by any spelling of its path gives the same value without running it again, until the cache is cleared. A file that imports itself directly or indirectly is an error, a failed import leaves no partial result and is retried next time, and imports with explicit arguments run afresh with those arguments.",
 ["histories","programs"],"all import graphs, path spellings, failures and import orders",
 "needs multi-file import graphs with failures and repeats; tests never import",
 ["src/builtins/sysfn.c","src/load.c"],
 [("import cache and in-progress marks","src/builtins/sysfn.c"),("file execution","src/load.c")],
 "results of imports and count of executions")
p("C20","Text encoding and bit reinterpretation are lossless and validated",
 "Converting characters to UTF-8 bytes and back returns the original characters, decoding yields exactly the standard's code points for every well-formed byte sequence (surrogates, which are BQN characters, are encoded and decoded like the others) and an error for others, and numbers converted to text and back are the same number. Reinterpreting bits between widths preserves the bit sequence exactly, least significant first, and is its own inverse with widths swapped; bitwise operations act on each bit.",
 ["inputs"],"all character sequences, byte sequences, numbers and width pairs",
 "tests list a few strings and casts; multi-byte boundaries, malformed input, vector tails and rare widths are untested",
 ["src/utils/utf.c","src/builtins/bit.c","src/builtins/sysfn.c","src/utils/ryu.c","src/utils/bits.c"],
 [("UTF-8 conversion","src/utils/utf.c"),("bit casts and bitwise operations","src/builtins/bit.c"),("number formatting and parsing","src/utils/ryu.c, src/builtins/sysfn.c")],
 "result value of each call")
p("C21","Random generators are reproducible and stay within bounds",
 "A generator made from a seed gives the same sequence of results for the same sequence of calls, whatever other generators or code run in between, and different calls advance it. Range results are integers in range with the requested shape, deals are distinct in-range values, and subsets are sorted and distinct; sizes that cannot be satisfied are errors, and every permitted outcome can occur.",
 ["histories","inputs"],"all seeds, call histories and range/deal/subset sizes",
 "strategy choice depends on the ratio and magnitude of sizes; tests check one or two shapes",
 ["src/builtins/sysfn.c","src/utils/wyhash.h"],
 [("range, deal and subset","src/builtins/sysfn.c"),("generator state step","src/utils/wyhash.h")],
 "results of call histories on several generators")
p("C22","The C embedding interface transfers values losslessly and with clear ownership",
 "Values made through the C interface read back with the same shape and elements for every element type, for every representation the value may have internally; reads leave the value usable, copies are independent of the original's release, and calls do not release their arguments. Bound C functions receive their object and arguments exactly, and native functions called from the language get arguments converted without loss or an error.",
 ["histories","inputs"],"all element types, shapes and values; all orders of make, copy, read, call, release",
 "no existing test uses the C interface",
 ["src/ffi.c","include/bqnffi.h"],
 [("value construction and reading","src/ffi.c"),("bound functions","src/ffi.c"),("native calls with typed signatures","src/ffi.c")],
 "values read through the interface, memory balance")
p("C23","Subprocess calls pass data through completely in every interleaving",
 "Running a command returns its exit code and everything it wrote to each output stream, and gives it exactly the supplied input, whatever the amounts and whatever order the child reads, writes, closes or exits in. It neither deadlocks nor kills the caller, a command that cannot be run is an error, and no descriptor or process is left behind.",
 ["schedules","inputs","fault_sequences"],"all interleavings of child reads, writes, closes and exit, with any data volumes relative to pipe capacity",
 "depends on the schedule between two processes and pipe capacity; no test runs a subprocess",
 ["src/builtins/sysfn.c"],
 [("poll loop over the three pipes","src/builtins/sysfn.c")],
 "exit code and streams for scripted children")
p("C24","The process interface delivers input, output and exit status faithfully",
 "Running the executable on a file, an expression, standard input or a mix gives the program its arguments exactly, writes to standard output exactly what it prints or shows and nothing else, reports uncaught errors on standard error, and exits with the requested status or nonzero after an error. Reading lines from standard input returns every line exactly once and in order, then end of input.",
 ["programs","inputs","configurations"],"all option sequences, programs, argument texts and input streams",
 "tests call into one in-process evaluator with fixed options; start-up options and streams are not exercised",
 ["src/main.c","src/builtins/sysfn.c","src/load.c"],
 [("option handling","src/main.c"),("output and line input","src/builtins/sysfn.c")],
 "exit status, stdout, stderr of real processes")
for q in P:
    assert len(q['title'])<=80,(q['id'],len(q['title']))
open('/verif/properties.jsonl','w').write(''.join(json.dumps(q,ensure_ascii=False)+"\n" for q in P))
