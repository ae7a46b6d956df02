_T = "explicit TLA+ specification checked with TLC; "
_Q = " Trusts the specification, TLC, qemu-riscv64, and gcc's assembler, linker and libc."
NOTE = {
"C01": (_T + "exhaustive operator x type x value matrix and random expression programs evaluated by the model and replayed on the compiler",
  "TLC (IntMatrix) enumerates the whole operator x type-pair x boundary-value matrix, and CMachine evaluates random expression programs; every value is compared with the compiled program." + _Q),
"C02": (_T + "constant expressions in every constant position evaluated by the model and compared with what the compiler folded",
  "CMachine evaluates each constant expression; the compiler's value is observed in initialisers, enumerators, case labels, lengths, widths, alignments, #if, addresses." + _Q),
"C03": (_T + "random store histories run by the model and replayed, comparing every byte of memory after every store",
  "CMachine's byte memory is compared with the compiled program's after each store, plus the exhaustive assignment matrix of IntMatrix." + _Q),
"C04": (_T + "random statement trees executed as a transition system by TLC and their event traces replayed",
  "CMachine is a small-step transition system over statement points; the compiled program must emit exactly the model's trace." + _Q),
"C16": (_T + "SoftFloat (IEEE 754 in integer arithmetic, written in TLA+) evaluates float/double/long double programs; bit-exact comparison",
  "SoftFloat defines binary32/64/128 add/sub/mul/div, comparison and conversion exactly; results are compared bit for bit." + _Q),
"C17": (_T + "pointer, array, VLA and alloca programs executed by the model's object memory and replayed",
  "CMachine models pointers as object+offset; programs with pointer arithmetic, VLAs, alloca, large frames and recursion are replayed." + _Q),
"C18": (_T + "all interleavings of an atomic operation with another thread's step enumerated by TLC; the compiled operation is stepped instruction by instruction under qemu's gdb stub with that step injected at every boundary; recorded histories of real threads validated as behaviours of Atomics.tla; thread-local schedules from Tls.tla replayed",
  "Atomics has atomic operations as indivisible steps on an object and its neighbours, AtomicsAlg is the lr/sc retry algorithm, Tls the per-thread copies. Memory ordering is not modelled." + _Q),
"C05": (_T + "the psABI layout function of CTypes evaluated for random struct/union declarations and compared with sizes, alignments, offsets and byte images of the compiled program",
  "CTypes defines the layout of every struct/union shape; TLC evaluates sizes, alignments, offsets and byte images after setting members, and the compiled program must agree." + _Q),
"C08": (_T + "random macro definitions and uses expanded by a TLA+ definition of macro replacement (Prosser's algorithm) and compared token by token with toycc -E",
  "MacroExp defines argument substitution, #, ##, __VA_OPT__, hide sets and rescanning; Preproc runs it over whole source files; the tokens of -E must be exactly the model's. Trusts the specification (cross-checked against gcc -E) and TLC."),
"C09": (_T + "HashMap.tla (open addressing refines a map) checked exhaustively, its histories and random conditional-inclusion sources run by Preproc.tla and replayed through toycc -E",
  "All define/undef histories of the bounded table model, random long histories of names whose hashes collide, table growth, and random nested conditionals with junk in skipped groups; the tokens of -E must be exactly the model's. Trusts the specification (cross-checked against gcc -E) and TLC."),
"C10": (_T + "random directory trees, search options and inclusion graphs run by Preproc.tla and replayed through toycc -E (in a scratch tree, with the compiler's own header directory part of it)",
  "Preproc models the file stack, search path, #include_next position, #pragma once set and conditional stack; guards are an optimisation the model does not have, so they must not be visible. The tokens of -E must be exactly the model's, and unresolvable inclusions must fail. Trusts the specification (cross-checked against gcc -E) and TLC."),
"C14": (_T + "Preproc.tla gives the files opened, Deps.tla (option reader as a transition system) the place, target, prerequisites and phony targets; compared with what toycc writes",
  "Random inclusion graphs (odd file names included) x random combinations and orders of -M -MD -MMD -MF -MT -MQ -MP -o -c -S -E; exact comparison of target text, prerequisite set, phony set, place, and of the set of files written. Trusts the specification and TLC."),
"C13": (_T + "Driver.tla enumerates every configuration (mode x inputs x -o x -x x failing stage) within the bounds; each behaviour is replayed on the real driver with recording stand-ins for as and ld on PATH",
  "Every enumerated configuration is run; exit status, set and contents of files, temporary files, standard output, and the sequence and arguments of the commands must be the model's. Trusts the specification and TLC; real as/ld are exercised by the other checks."),
"C06": (_T + "random and systematically enumerated initialiser lists run item by item by CInit.tla, and every scalar of the object compared in global, static, automatic and compound-literal form",
  "CInit is a transition system over initialiser items (current-object cursor, brace elision, designators, strings, unions, overriding, unknown lengths); the value of every scalar of the initialised object and the deduced length must be the model's." + _Q),
"C07": (_T + "CallConvAll.tla checks the placement rule over every sequence of argument classes; CallConv.tla builds the register and stack image of random calls, compared with what a recording callee sees of a compiled caller and fed to compiled callees",
  "Random signatures (systematic over the number of integer and floating registers already used): argument registers, stack words, by-reference copies, results, variadic arguments through va_arg, callee-saved registers and the stack pointer must be the model's; bytes the ABI leaves open are not compared." + _Q),
"C11": (_T + "Lexer.tla takes random source bytes through phases 1-3, 5 and 6 one token per step; the tokens are compared with toycc -E (identifiers replaced through macros, so boundaries show), literals' types, sizes and bytes with the compiled program, glued expressions with their spaced-out reading",
  "Token soup with splices, comments, line ends, byte order marks, UCNs and Annex D boundaries; every kind of literal with its type and value (decimal and hexadecimal floating constants by exact arithmetic); concatenations; invalid tokens and literals must be rejected. Implementation-defined and undefined cases, digraphs and long double constants beyond 64 bits are left open. Trusts the specification (cross-checked against gcc) and TLC."),
"C15": (_T + "source texts with violations at random places judged by the same TLA+ specifications that define valid ones (Preproc/MacroExp/PPExpr for directives, Lexer for characters, CSyn for syntax, names and types); acceptance, rejection and the file and line of the diagnostic are compared with toycc's",
  "Three families: random conditional/include/macro sources with broken directives; random characters; random programs (splices, comments, macros, includes and #line between the tokens) with one or more violations of every documented kind. toycc must exit 0 exactly on what the specification accepts, otherwise exit non-zero (no signal) with a diagnostic at a place the specification allows and no output. Violations toycc does not document as errors are left open. Trusts the specification (cross-checked against gcc) and TLC."),
"C12": (_T + "ScopeLink.tla walks random programs of one to three translation units declaration by declaration (scope stack, tag and ordinary name spaces, linkage table), gives the symbols each object file must, may and must not have, links and runs the model; output and ELF symbol tables are compared with the compiled program's, some units compiled by gcc",
  "Every use of a name (value, increment, sizeof, call, tag size, pointer target) in random nests of blocks, for-scopes, parameters and block-scope declarations shows which declaration it resolved to; every sequence of file-scope declarations (tentative, extern, static, thread-local, inline forms, arrays of unknown length) shows in the symbol table and in what the linked program prints. Prototype scope, VLA parameters and 6.2.2p7 undefined mixtures are left out." + _Q),
"C19": (_T + "random token sequences (parentheses dropped at random, specifiers in any order, nested declarators) parsed by CGrammar.tla, evaluated by CMachine's semantics, and replayed on the compiler",
  "CGrammar is the C expression and declaration grammar as a parser over tokens; the tree and types it finds are evaluated by CExpr/CMachine, and the compiled program must print the same values, sizes, alignments and selections. Sequences C does not give a defined meaning are left out." + _Q),
}
