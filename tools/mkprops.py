#!/usr/bin/env python3
"""Single source for properties.jsonl (run by hand; output is committed)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

prop("C01", "Integer expressions have the value and type C prescribes (LP64)",
 "A compiled program computes every defined integer expression (arithmetic, shifts, comparisons, bitwise and logical operators, casts, ?:, comma, sizeof; operands of any width and signedness, _Bool and enum included) to exactly the value the C rules give on LP64. That includes the integer promotions, the usual arithmetic conversions, modular unsigned arithmetic, truncating division, and the width and signedness of the result's type.",
 ["programs", "inputs"],
 "every binary/unary operator x every pair of integer types x boundary and random operand values; every random well-defined expression tree",
 "The tests evaluate a few dozen literal expressions, mostly on int; operators x type pairs x values is a product space of millions, and wrong sign/zero extension only shows for particular pairs and values.",
 ["type.c", "codegen.c", "parser/parser.c"],
 [("common type and implicit casts", "type.c: add_type/usual_arith_conv"), ("value conversion matrix", "codegen.c: cast"), ("operator selection by width/signedness", "codegen.c: gen_expr")],
 [("result register", "value of the last expression, extended according to its type", "codegen.c")],
 ["output of the compiled program under qemu-riscv64"])

prop("C02", "Constant expressions fold to what run-time evaluation would give",
 "Wherever the compiler evaluates an expression itself (static initialisers of integer and floating type, enumerators, case labels, array lengths, bit-field widths, alignment specifiers, address constants), the result is what the C semantics of that expression gives, hence the same as evaluating it at run time. Long double constants are folded with the precision of the host's long double. #if expressions are evaluated the same way in 64-bit arithmetic.",
 ["programs", "inputs"],
 "every random constant expression tree over integer and floating constants, sizeof, casts, conditionals and object addresses, placed in every constant context",
 "The tests fold a handful of small int constants; a fold that forgets a width, a sign or a cast is invisible at small positive values.",
 ["parser/common.c", "parser/initializer.c", "preprocessor/preprocess.c"],
 [("recursive folder", "parser/common.c: eval, eval2, eval_double, eval_rval"), ("#if evaluation", "preprocessor/preprocess.c: eval_const_expr")],
 [], ["values stored in static objects, seen by the compiled program", "branch of #if selected in -E output"])

prop("C03", "A store changes exactly the designated object, side effects once",
 "Assignment, compound assignment and ++/-- (on scalars, array elements, struct/union members, bit-fields and whole structs) write the converted value into exactly the bytes or bits of the designated object and leave every other byte and bit of memory unchanged. The operands' side effects happen exactly once, and the expression's own value is the value stored, after conversion to the type of the left operand.",
 ["programs", "histories"],
 "every history of assignments, compound assignments, increments and struct copies over random aggregates with bit-fields, including large ones and large offsets",
 "The tests store into a few small objects and read back the field written; they never compare the whole of memory after a random history.",
 ["codegen.c", "parser/parser.c", "type.c"],
 [("store by type", "codegen.c: store"), ("read-modify-write of bit-fields", "codegen.c: gen_expr ASSIGN"), ("compound assignment rewriting", "parser/parser.c: to_assign, new_inc_dec")],
 [("memory", "bytes of every object of the program", "generated code")],
 ["byte dumps of all objects after every step"])

prop("C04", "Control flow follows C for every nesting of statements",
 "Execution of if, while, do, for, switch (with fallthrough, default anywhere, case ranges, nested switches, cases inside inner blocks and loops), break, continue, goto (forwards, backwards, into and out of blocks), computed goto, return, &&, ||, ?:, comma and statement expressions visits the statements in exactly the order C defines.",
 ["programs", "inputs"],
 "every random nesting of the control statements, with the path taken depending on run-time values",
 "The tests run each construct once, nearly always alone; wrong targets show only in particular nestings and values.",
 ["parser/parser.c", "codegen.c"],
 [("break/continue/goto targets", "parser/parser.c: stmt, resolve_goto_labels"), ("case dispatch", "codegen.c: gen_stmt SWITCH")],
 [("program point", "which statement runs next", "generated code")],
 ["trace of visited statements printed by the compiled program"])

prop("C05", "Object layout matches the RISC-V LP64 psABI",
 "sizeof, _Alignof, offsetof and the bit position of every member (structs, unions, nested and anonymous members, bit-fields of every width including zero-width and unnamed ones, arrays, packed and aligned attributes, _Alignas, flexible array members) are those of the RISC-V LP64 psABI, so objects can be shared with code compiled by another compiler; static objects, and automatic ones up to 16, are actually placed at addresses that satisfy their alignment. (The packed attribute: on types without bit-fields.)",
 ["programs"],
 "every declaration of a struct or union built from the supported member kinds",
 "The tests check about thirty fixed declarations; the bit-field packing rule depends on offset, width, type and neighbours.",
 ["parser/declarator.c", "type.c", "parser/parser.c"],
 [("member placement", "parser/declarator.c: struct_decl, union_decl")],
 [], ["sizeof/_Alignof/offsetof printed by the compiled program", "byte image of an object after setting one member"])

prop("C06", "Initialisers give every element its value and zero elsewhere",
 "Every initialiser (nested braces, brace elision, designators for arrays, ranges, members and nested members in any order with overriding, strings, flexible members, unions, compound literals, unknown-length arrays) gives each sub-object the value C prescribes and zero where nothing is given. Static and automatic objects with the same initialiser hold the same values. (Left open: what survives of an earlier initialiser when a braced list, string or member designator re-initialises only part of an aggregate it set.)",
 ["programs"],
 "every random (type, initialiser) pair, for static, automatic and compound-literal objects",
 "The tests contain a fixed list of initialisers; designator order, overriding and elision combine without bound.",
 ["parser/initializer.c", "codegen.c"],
 [("initialiser tree", "parser/initializer.c: initializer2, designation"), ("static image", "parser/initializer.c: write_gvar_data"), ("emitted data", "codegen.c: emit_data")],
 [], ["byte/element dump of the object at run time"])

prop("C07", "Calls obey the RISC-V calling convention and interoperate with gcc",
 "For every prototype over integer, pointer, float, double, long double, _Bool and integer-only struct/union types (by value and returned, any size and number, plus variadic calls with scalar arguments), a caller and a callee compiled by toycc pass and receive every argument and result in the registers and stack slots the RISC-V LP64D psABI assigns, so either side may be compiled by gcc. Arguments may themselves contain calls; every register the ABI makes callee-saved, and the stack pointer, are preserved across a call.",
 ["programs", "inputs"],
 "every random signature (0 to 20 parameters), with random argument values, in both directions, nested and variadic",
 "The tests call a few fixed helper functions; register exhaustion, splitting and extension depend on the whole signature.",
 ["codegen.c", "parser/parser.c"],
 [("argument placement", "codegen.c: push_args, ND_FUNCALL"), ("parameter homing", "codegen.c: emit_text, store_args"), ("struct return", "codegen.c: copy_ret_buffer, copy_struct_reg, copy_struct_mem")],
 [], ["register/stack image captured by an assembly stub", "values seen by gcc-compiled callees and callers"])

prop("C08", "Macro expansion follows the C standard's algorithm",
 "Preprocessing any text with any set of object-like and function-like macros (nested and recursive uses, # and ##, variadic macros with __VA_ARGS__, __VA_OPT__, named variadics and comma elision, empty arguments, redefinition) yields exactly the token sequence the C standard (and the documented GNU extensions) gives, and always terminates. Spacing that affects tokenisation or stringising is preserved.",
 ["programs", "histories"],
 "every random macro set and input token sequence",
 "The tests expand a fixed set of macros; hide-set and pre-expansion mistakes need particular nestings.",
 ["preprocessor/preprocess.c", "hashmap.c"],
 [("hide sets", "preprocessor/preprocess.c: expand_macro, add_hideset, hideset_intersection"), ("substitution", "preprocessor/preprocess.c: subst, paste, stringize")],
 [("macro table", "name -> definition", "hashmap.c")],
 ["token sequence printed by toycc -E"])

prop("C09", "Conditional inclusion and the macro table follow the source history",
 "For every sequence of #define, #undef, -D, -U and conditional directives (#if/#ifdef/#ifndef/#elif/#else/#endif, arbitrarily nested, with skipped groups holding arbitrary preprocessing tokens), exactly the groups selected by C's rules are processed. A name expands, and defined(name) is true, iff the last directive executed for it was a definition, whatever the number and order of definitions and removals.",
 ["programs", "histories"],
 "every random nesting of conditionals and every define/undef/lookup history, including thousands of names",
 "The tests use a few nested conditionals and a fixed hash-map exercise; table growth and tombstone reuse depend on the history.",
 ["preprocessor/preprocess.c", "hashmap.c", "main.c"],
 [("conditional stack", "preprocessor/preprocess.c: preprocess2, skip_cond_incl"), ("open addressing with tombstones", "hashmap.c: get_or_insert_entry, rehash, hashmap_delete2")],
 [("macro table", "open-addressing hash map", "hashmap.c"), ("conditional stack", "nesting of #if groups", "preprocessor/preprocess.c")],
 ["tokens printed by toycc -E"])

prop("C10", "#include finds the file C and the options prescribe, once if asked",
 "Every #include (quoted, angled or macro-expanded), #include_next, -include, -I and -idirafter resolves to the first existing file in the search order (a quoted name: the directory of the including file; then the -I directories in order, the compiler's own include directory and the standard ones, the -idirafter directories, and as a last resort the working directory; #include_next starts after the directory in which the current file was found), and the result is the same text as if the file had been pasted there. #pragma once suppresses exactly the later inclusions of the same file, and include guards never change the result compared with processing the file again.",
 ["configurations", "programs"],
 "every random directory tree, search path and inclusion graph",
 "The tests use a fixed two-directory layout; caching and guard detection only matter for repeated inclusions under changing macros.",
 ["preprocessor/preprocess.c", "main.c"],
 [("search", "preprocessor/preprocess.c: search_include_paths, search_include_from"), ("guard detection and pragma once", "preprocessor/preprocess.c: detect_include_guard, include_file")],
 [("pragma-once set", "files never to be read again", "preprocessor/preprocess.c")],
 ["tokens printed by toycc -E"])

prop("C11", "Tokens and literals denote what the source characters say",
 "Every source text is split into the tokens C's maximal-munch rule gives after comment removal and line splicing, and each literal has the type and value C prescribes: integer constants in every base with every suffix, floating constants, character constants and strings with every escape and prefix (UTF-8, UTF-16, UTF-32, wide), concatenation of adjacent strings, universal character names and non-ASCII identifiers (not claimed: digraphs, multi-character constants, and long double constants needing more than the 64 significant bits of the host).",
 ["inputs", "programs"],
 "every literal of the grammar, every adjacent pair of tokens, comments and splices at every position",
 "The tests contain a fixed list of literals and a few comments.",
 ["tokenize.c", "unicode.c", "string.c", "preprocessor/preprocess.c"],
 [("lexer", "tokenize.c: tokenize, read_punct, convert_pp_number"), ("encodings", "unicode.c: encode_utf8, decode_utf8"), ("concatenation", "preprocessor/preprocess.c: join_adjacent_string_literals")],
 [], ["tokens printed by toycc -E", "sizeof, type and bytes of each literal at run time"])

prop("C12", "Names resolve by scope and get the linkage and storage C prescribes",
 "An identifier, tag, label or enumerator always refers to the innermost visible declaration in its own name space, through any nesting and shadowing of blocks, for-scopes, parameters, prototypes and typedefs. Every file-scope or static object and function gets the symbol C prescribes: external, static, extern, tentative or common definition, thread-local; static inline functions are emitted iff needed; separately compiled files therefore link and share exactly the external objects.",
 ["programs"],
 "every random nest of scopes and every sequence of declarations of a name",
 "The tests cover a few shadowings and a few linkages singly.",
 ["parser/scope.c", "parser/declarator.c", "parser/parser.c", "codegen.c"],
 [("scope chain", "parser/scope.c: find_var, push_scope"), ("liveness of static inline", "parser/parser.c: mark_live"), ("tentative definitions", "parser/parser.c: scan_globals")],
 [("scope stack", "variables, typedefs, enumerators and tags per block", "parser/scope.c")],
 ["values printed by the compiled program", "symbol table of the object file"])

prop("C13", "The driver's exit status and files reflect what really happened",
 "For every command line and every failure of a stage, the driver exits 0 iff every requested stage succeeded, runs the stages the options ask for (-E, -S, -c, link; several inputs; -o; -x; input kinds by extension) exactly once per input in order, puts each result where the options say, and stops at the first failure with a non-zero status. No temporary file is ever left behind and no input is modified.",
 ["configurations", "fault_sequences"],
 "every combination of mode, inputs, output option and failing stage",
 "test/driver.sh runs one command line per option with no failing stage.",
 ["main.c"],
 [("stage sequencing", "main.c: main, run_cc1, assemble, run_linker, run_subprocess"), ("temporary files", "main.c: create_tmpfile, cleanup")],
 [("temporary files", "names to remove at exit", "main.c")],
 ["exit status, files on disk, commands received by the stage stand-ins"])

prop("C14", "Dependency output names exactly the files read",
 "With -M, -MD, -MMD, -MF, -MT, -MQ and -MP in every combination, the dependency rule has the prescribed target(s) (every -MT as given and every -MQ quoted for make, in order; by default the source's name with .o), lists exactly the source and every file opened by inclusion (system headers left out for -MMD), each path once and quoted for make, goes to the prescribed place (-MF; with -MD/-MMD the name of the -o file or source with .d; else -o or standard output), and adds a phony target per listed header iff -MP.",
 ["configurations", "programs"],
 "every option combination and inclusion graph, with any number of headers",
 "test/driver.sh checks one command line per option on a two-header program.",
 ["main.c", "tokenize.c"],
 [("rule printing", "main.c: print_dependencies"), ("list of opened files", "tokenize.c: get_input_files")],
 [("input files", "files opened so far", "tokenize.c")],
 ["contents of the dependency file or stdout"])

prop("C15", "Invalid programs are rejected, valid ones are not, lines are right",
 "A translation unit with a lexical, syntactic or semantic violation the compiler documents as an error (undeclared name, bad operand, duplicate label, unterminated literal or conditional, #error, bad member, wrong argument count, ...) makes toycc exit non-zero with a diagnostic naming the file and line of the offending token, and leaves no output; the same program without the violation compiles. Line splices, comments, macros, includes and #line do not disturb the reported location or __LINE__/__FILE__.",
 ["programs"],
 "every violation kind injected at every position of random valid programs with arbitrary line structure",
 "The tests are all valid programs, so no rejection and no location is ever checked.",
 ["tokenize.c", "utils.c", "parser/parser.c", "parser/declarator.c", "preprocessor/preprocess.c", "type.c"],
 [("diagnostics", "tokenize.c: verror_at, error_tok"), ("line numbers", "tokenize.c: add_line_numbers; preprocessor/preprocess.c: read_line_marker")],
 [], ["exit status, stderr and output file of toycc"])

prop("C16", "Floating-point expressions and conversions are IEEE exact",
 "Every expression over float, double and long double (arithmetic, comparison, negation, !, &&, ||, ?:, assignment, compound assignment, conversion to and from every integer type and _Bool, default argument promotion) yields the correctly rounded IEEE result in the type C prescribes, at run time and, for float and double, in static initialisers.",
 ["programs", "inputs"],
 "every operator x type pair x boundary/random finite values; every random expression tree",
 "The tests use a few small literals; conversion bugs need particular type pairs, signs and magnitudes.",
 ["codegen.c", "type.c", "parser/common.c", "tokenize.c"],
 [("conversion matrix", "codegen.c: cast"), ("operators by type", "codegen.c: gen_expr"), ("literals", "tokenize.c: convert_pp_number; codegen.c: ND_NUM")],
 [], ["bit patterns printed by the compiled program"])

prop("C17", "Pointers, arrays, VLAs and alloca address the right element",
 "For every element type, dimension and index, pointer arithmetic, indexing, pointer differences and comparisons, array decay, pointers to arrays, multi-dimensional arrays, variable-length arrays (sizeof included) and alloca blocks address exactly the element C prescribes. Distinct live objects never overlap, however large the frame or deep the nesting. (By documented design &array has the type of a pointer to the first element; VLA parameters are not supported.)",
 ["programs", "inputs"],
 "every random declaration of arrays, pointers and VLAs with random index expressions, with small and large frames",
 "The tests index a few small arrays of int; scaling and frame-offset errors depend on sizes and depth.",
 ["parser/parser.c", "type.c", "codegen.c"],
 [("pointer scaling", "parser/parser.c: new_add, new_sub"), ("VLA size and placement", "parser/declarator.c: compute_vla_size; codegen.c: builtin_alloca"), ("frame offsets", "codegen.c: assign_lvar_offsets")],
 [], ["memory contents printed by the compiled program"])

prop("C18", "Atomic operations are atomic and TLS objects are per thread",
 "In every interleaving of threads, each atomic operation (atomic load/store, exchange, compare-exchange, atomic compound assignment and ++/--, on every width they accept) takes effect indivisibly: no update is lost and the returned old or new values are consistent with one total order. A failed compare-exchange stores the observed value into *expected and returns false; thread-local objects are distinct per thread and start from their initialiser, wherever they are defined and used. (Ordering of other memory accesses is not part of this.)",
 ["schedules", "inputs"],
 "all interleavings of 2-3 threads in the model; all operand widths and value cases sequentially; many real schedules",
 "test/atomic.c runs one increment loop with one type and accepts many wrong implementations.",
 ["codegen.c", "parser/parser.c", "include/stdatomic.h"],
 [("lr/sc loop", "codegen.c: ND_CAS"), ("amoswap", "codegen.c: ND_EXCH"), ("atomic compound assignment", "parser/parser.c: to_assign"), ("thread-pointer addressing", "codegen.c: gen_addr")],
 [], ["final values and per-operation results printed by the compiled program"])

prop("C19", "Source text is grouped and typed as C's grammar says",
 "Every valid token sequence is grouped exactly as the C grammar prescribes: precedence and associativity of every operator, casts against parenthesised expressions, sizeof and _Alignof of expressions and type names, postfix chains, comma against argument separators, conditional and assignment operators without parentheses. Declaration specifiers in any order and declarators of any depth (pointers, arrays, functions, parentheses, abstract declarators, typedef names, typeof) declare the type C prescribes; _Generic and __builtin_types_compatible_p select by type compatibility. (Qualifiers are ignored; long long is a name of long and signed char of char; enumerated types and &array are left out.)",
 ["programs"],
 "every token sequence over the whole expression and declarator grammar, with parentheses removed at random",
 "The tests are written with one fixed style of parentheses and use a handful of declarators; a wrong precedence level or declarator rule shows only for particular neighbours.",
 ["parser/parser.c", "parser/declarator.c", "type.c"],
 [("expression grammar", "parser/parser.c: expr, assign, conditional, logor ... mul, cast, unary, postfix, primary"), ("declarations", "parser/declarator.c: declspec, declarator, abstract_declarator, func_params, typename"), ("compatibility", "type.c: is_compatible; parser/parser.c: generic_selection")],
 [], ["output of the compiled program"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
