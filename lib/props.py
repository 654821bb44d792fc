"""The table of properties: properties.jsonl, MANIFEST.json and DESIGN.md's list are generated from it (tools/gen.py)."""
L = "src/mosmllib/"
R = "src/runtime/"
C = "src/compiler/"
NOT_APPLICABLE = {}
PROPS = []


def P(id, title, statement, over, space, why, files, mech, observe, technique, note, design, hook=None, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, space=space, why=why, files=files, mech=mech,
                      observe=observe, technique=technique, note=note, design=design, hook=hook, **kw))


ENUM = "exhaustive enumeration of bounded inputs/operation sequences on the real code against a reference model"
NOTE = "Every point of the stated bounded space is executed on the code built from the working tree and compared with a reference written in Python or SML independently of the implementation; nothing is claimed beyond the bounds. "

P("C01", "Programs evaluate as the Definition of Standard ML says",
  "A Core program evaluates with call by value, left to right: every expression form (application, tuples, records, conditionals, andalso/orelse, case, let, local functions and recursion, references, loops, raise and handle, sequences) performs its effects in order and yields the value or raises the exception that the Definition prescribes, whatever the nesting and the context, whether variables are global, local, parameters or captured by closures, and however many components the forms have (a program beyond the implementation limits is refused by the compiler).",
  ["programs"], "all compositions of the grammar's productions up to depth three with every choice of leaves, in several contexts",
  "the tests run fixed programs; the compiler's environment access, known-call, closure, tail-call and constant-folding paths depend on how forms are nested",
  [C + "Front.sml", C + "Back.sml", C + "Match.sml", C + "Tr_env.sml", C + "Emitcode.sml", C + "Instruct.sml", R + "interp.c"],
  [("translation to lambda code", C + "Front.sml"), ("code generation: stack layout, closures, tail calls", C + "Back.sml"), ("bytecode interpretation", R + "interp.c")],
  ["effect trace, value, exception"], "exhaustive enumeration of programs of a typed grammar up to a bound, run through the real compiler and runtime, against a reference interpreter",
  NOTE + "A curried application evaluates function and all arguments before applying, which the repository documents (doc/bugs) and the reference follows.",
  "`checks/C01.py`. Productions: each with every leaf combination; each production in each hole of each other; spines of three; several contexts; 38 forms with up to 1000 components. Oracle: an SML evaluator in Python; trace, value and exception compared.")

P("C02", "Pattern matching selects the first matching clause",
  "For every list of clauses and every value, a match (fn, fun, curried fun, case, val, handle) selects the first clause whose pattern matches and binds its variables to the corresponding parts, and raises Match or Bind (or reraises, in handle) when none matches. "
  "The compiler warns that a match is not exhaustive exactly when some value is matched by no clause, and that cases are unused exactly when some clause can never be selected.",
  ["programs", "inputs"], "per type universe, all clause lists over all patterns up to a depth and length, applied to every value",
  "the tests have hand-picked matches; decision-tree sharing, static knowledge and switch generation vary with every clause combination",
  [C + "Match.sml", C + "Front.sml", C + "Back.sml"], [("decision trees and warnings", C + "Match.sml"), ("switch code", C + "Back.sml")],
  ["selected clause, bindings, exceptions, warnings"], "exhaustive enumeration of clause lists and values through the real compiler, against a first-match interpreter",
  NOTE, "`checks/C02.py`. Universes: bool pairs, options, lists, constants (int, char, string, word, real), datatypes of various shapes, records, exceptions (aliases too), references. Oracle: first-match interpreter; exhaustiveness and redundancy by enumerating values.")

P("C03", "Type inference is sound, complete and principal",
  "A phrase is accepted exactly when it is well-typed by the Definition's rules, and then the type reported is its principal type: let-polymorphism generalises exactly the variables the value restriction and explicit type variables allow, equality types, overloading, flexible records, references, exceptions and recursion included.",
  ["programs"], "all terms up to 5–7 constructors over 19 small grammars covering the typing features",
  "the tests type-check fixed programs; level adjustment, generalisation and equality attributes go wrong only for specific nestings",
  [C + "Elab.sml", C + "Types.sml", C + "Synchk.sml", C + "Asynt.sml", C + "Sigmtch.sml"], [("elaboration", C + "Elab.sml"), ("unification, levels, generalisation", C + "Types.sml")],
  ["acceptance, reported type, generalised variables"], "exhaustive enumeration of small terms given to the real toplevel, against an independent type inference",
  NOTE + "Terms whose explicit type variables meet the value restriction are left out.",
  "`checks/C03.py`. About 120,000 terms; reference: Hindley–Milner with levels, equality attributes, overloading, rigid variables and row types in Python.")

P("C04", "Integer, word and byte arithmetic is exact or raises",
  "Every int operation (+ - * div mod quot rem ~ abs, comparisons, min, max, sign, sameSign) gives the exact mathematical result when it is representable and raises Overflow or Div otherwise; Word and Word8 operations, shifts and conversions (toInt, toIntX, fromInt) are exact modulo the word size. "
  "The result does not depend on how the operation is written: operator or function value or structure member, constant or variable operands, inlined or not.",
  ["inputs"], "all ordered pairs of the boundary values of the 63-bit int and word domains and of a word8 set, for every operation and every syntactic form",
  "the tests sample a few values per operation; overflow detection, rounding towards negative infinity and constant folding each have their own code path per operand shape",
  [R + "interp.c", R + "ints.c", C + "Back.sml", C + "Emitcode.sml", L + "Int.sml", L + "Word.sml", L + "Word8.sml"],
  [("arithmetic instructions with overflow checks", R + "interp.c"), ("primitive selection and constant operand forms", C + "Primdec.sml, " + C + "Back.sml")],
  ["program results and exceptions"], ENUM,
  NOTE + "Oracle: Python's unbounded integers. Operands between the boundary values are not enumerated.",
  "`checks/C04.py`. Alphabet: boundary values (0, ±1, ±2, powers of two ±1, halves, extremes) of the 63-bit int, 63-bit word and 8-bit word domains; all ordered pairs; all operations; forms: operator on variables, literal left/right/both, operator as a value, structure function. Oracle: Python integers. Reaches the inlined, constant and closure code paths of every operation, which the tests hit at a few values only.")

P("B01", "List, ListPair and Option functions mean what the Basis says",
  "For every list and every callback, the functions of List, ListPair and Option return the specified result or raise the specified exception (Empty, Subscript, Size, UnequalLengths, Option), and apply the callback to exactly the specified elements in the specified order, including when the callback raises.",
  ["inputs", "programs"], "all lists over {0,1,2} up to a length, all pairs of lists, all predicates, all indices around the bounds, callbacks raising at each position",
  "the tests use a few lists per function; order of application and behaviour at every boundary index are not observed",
  [L + "List.sml", L + "ListPair.sml", L + "Option.sml"], [("list recursion", L + "List.sml"), ("lockstep recursion", L + "ListPair.sml")],
  ["results, exceptions and callback traces"], ENUM, NOTE,
  "`checks/B01.py`. All lists over {0,1,2} to length 4 (quick)/5, all pairs for binary functions, all eight predicates, index arguments around the bounds and at the extreme ints, callbacks that log and that raise at each position. Oracle: Python lists.")

P("B02", "Arrays, vectors and their slices behave as sequences",
  "Array, Vector, CharArray/CharVector, Word8Array/Word8Vector and their slice structures behave as finite sequences: indexing, tabulation, update, folds, searches, sub-slicing, concatenation, conversion and comparison give the sequence result or raise Subscript/Size, visiting elements in the specified order. "
  "Copying between arrays, or within one array with any overlap, has the effect of copying from a snapshot, and an out-of-range copy raises Subscript and changes nothing.",
  ["inputs", "histories"], "all sequences up to a length, all valid and invalid slices and copy offsets (extreme ints included), all short mutation histories",
  "the tests check a few slices; overlap direction, offset+length overflow and empty slices at the ends are combinatorial",
  [L + "Array.mlp", L + "Vector.mlp", L + "CharArray.sml", L + "Word8Array.sml", L + "ArraySlice.sml", L + "VectorSlice.sml", R + "str.c"],
  [("bounds checks and copy direction", L + "Array*.sml")], ["results, exceptions, array contents afterwards"], ENUM, NOTE,
  "`checks/B02.py`. Base sequences of a list, every slice, every index/length argument around the bounds and at the extreme ints, every operation with tracing and raising callbacks, every copy (slice, offset) into the same and another array, every history of two mutations. Oracle: Python lists.")

P("B03", "Array2 behaves as an m-by-n matrix",
  "Array2 operations behave as operations on an m-by-n matrix in row-major or column-major order as requested, for every region; invalid dimensions, indices and regions raise Size or Subscript before any effect, and copying a region is as if from a snapshot even when source and destination overlap.",
  ["inputs"], "all dimensions up to 3x3, all regions valid or not, both traversals, all overlapping copies",
  "the tests use one matrix shape; overlapping region copies and degenerate dimensions are not covered",
  [L + "Array2.sml"], [("region checks, traversal and copy order", L + "Array2.sml")], ["results, exceptions, matrix contents"], ENUM, NOTE,
  "`checks/B03.py`. All dimensions to 3x3 (including 0 rows/columns), all regions, both traversals, all copies incl. overlapping; extreme ints. Oracle: Python lists of lists.")

P("B04", "Strings, substrings and characters are exact sequences of characters",
  "String, Substring, Char and StringCvt functions act as functions on sequences of characters 0–255: extraction, search, tokenising, concatenation, translation, comparison, padding and character classification give the specified result or raise Subscript/Chr. "
  "toString/fromString and toCString/fromCString are mutually inverse on every string, and a reader accepts exactly the escape syntax.",
  ["inputs"], "all strings over small alphabets up to a length, all substrings, all index arguments incl. extreme ints, all 256 characters, all escape texts over an alphabet up to a length",
  "the tests use fixed strings; escape syntax, base-triple arithmetic and searches at each offset are combinatorial",
  [L + "String.sml", L + "Substring.sml", L + "Char.sml", L + "StringCvt.sml", L + "Strbase.mlp", R + "str.c"],
  [("substring base triples", L + "Substring.sml"), ("escape readers and printers", L + "Strbase.mlp")], ["results and exceptions"], ENUM,
  NOTE + "The reader accepts a formatting sequence only when a character follows it, as the repository's own tests pin.",
  "`checks/B04.py`. All strings over {a,b} to a length, all substrings, patterns, arguments around the bounds; all pairs of short strings over {NUL,a,b,\\255}; all characters; all escape texts over an alphabet. Oracle: Python.")

P("B13", "Sorting returns the ordered permutation of its input",
  "Listsort.sort and Arraysort.sort return a permutation of their input that is ordered by the given ordering, Listsort.sorted decides orderedness, and merging sorted lists gives the sorted union, for every input.",
  ["inputs"], "all words over small key alphabets and all permutations up to a length, structured families around the sizes where the algorithms change strategy",
  "the tests sort a few lists; run detection, merges and the quicksort's median-of-three/insertion thresholds need specific shapes",
  [L + "Listsort.sml", L + "Arraysort.sml"], [("run-detecting merge sort", L + "Listsort.sml"), ("quicksort with insertion sort below a size", L + "Arraysort.sml")],
  ["result order and element identities"], ENUM,
  NOTE + "mergeUniq is judged on strictly ordered arguments only: the repository's tests pin that duplicates inside one argument are kept.",
  "`checks/B13.py`. All key words to length 8–9, all permutations, structured families at sizes 7 and 40; elements carry identities. Oracle: insertion sort in the harness.")

P("R01", "Garbage collection is unobservable",
  "At whatever allocation the collector runs, minor or major, and however its incremental slices fall, a program computes the same results, raises the same exceptions and writes the same output: live values are never lost, moved without update or overwritten, weak pointers to live values stay intact, and finalisation never affects live data.",
  ["schedules"], "for each corpus program, a full collection at every single allocation point, and every n-th allocation crossed with mark/sweep slice sizes; an AddressSanitizer pass with a collection at every allocation",
  "the tests run with collections at a handful of arbitrary points; an unrooted C local or missed write barrier shows only when a collection falls in one window",
  [R + "minor_gc.c", R + "major_gc.c", R + "memory.c", R + "memory.h", R + "weak.c", R + "roots.c", R + "interp.c", R + "alloc.c", R + "mosml.c", "src/dynlibs/mregex/mregex.c"],
  [("write barrier Modify/initialize", R + "memory.h"), ("C roots", R + "roots.c"), ("incremental mark and sweep", R + "major_gc.c"), ("weak array sweeping", R + "weak.c")],
  ["program output and status"], "stateless model checking of the real runtime: all single collection points and an every-n/slice-size grid, by guarded hooks",
  "Every collection point of every corpus program is executed with freed memory poisoned; multi-collection schedules are a grid, not all subsets. The compiler and toplevel also run under forced collections.",
  "`checks/R01.py`. The runtime rebuilt with -DMOSML_VERIFY lets the environment choose at which allocations a collection happens (anywhere the allocator may collect anyway) and how much marking/sweeping each slice does; freed memory is poisoned. The corpus (`lib/gc/*.sml`, a generated lexer/parser, Regex, Gdbm, IntInf, the compiler and a toplevel session) covers the allocating instructions and C primitives. Every schedule's output must equal the unforced run's. ASAN build for the densest schedules.",
  hook="MOSML_VERIFY: collections at chosen allocation points")

P("B05", "Numbers and their text agree exactly",
  "Int, Word, Word8, Bool and Real conversions to text and from text are exact: fmt and toString in every radix give the numeral of the value, and scanning any text accepts exactly the numerals of that radix, gives the exact value or raises Overflow, and leaves exactly the rest of the text, whatever character source is used. "
  "Real.fmt in SCI, FIX and GEN gives the correctly rounded decimal numeral of any magnitude and precision, and scanning the text that toString-like formatting of sufficient precision gives returns the same real.",
  ["inputs"], "all texts over each radix's numeral alphabet up to a length; all boundary values in all radices; all boundary reals in all formats and precisions",
  "the tests convert a few numerals; overflow at the last digit, signs, prefixes, unfinished exponents and formatting buffers depend on the exact text",
  [L + "Int.sml", L + "Word.sml", L + "Word8.sml", L + "Real.sml", L + "Bool.sml", R + "mosml.c", R + "floats.c", R + "ints.c", R + "str.c"],
  [("scanners", L + "Int.sml, Word.sml, Real.sml"), ("formatting primitives", R + "ints.c, floats.c, mosml.c")], ["values, remaining text, exceptions"], ENUM, NOTE,
  "`checks/B05.py`. All texts over the numeral alphabet of each radix (sign, prefix, digits, separators) to a length, with two readers; overflow borders with leading zeros; every boundary value formatted and rescanned; reals of every magnitude in every format and precision. Oracle: regular expressions and Python's exact conversions.")

P("B09", "Polymorphic equality is structural, and hashing respects it",
  "For values of any equality type, = holds exactly when the values are structurally equal (references and arrays: the same object), however the two values were built, wherever they live in the heap, and however the comparison is expressed (=, <>, polymorphic function, inside a larger structure). "
  "Polyhash.hash and hash_param give equal results on equal values, at any count and limit, independent of garbage collection.",
  ["inputs", "histories"], "all ordered pairs of values of some forty types, each value as an old-heap copy and a fresh copy, in several forms of comparison",
  "the tests compare a few values; tags, boxed and unboxed representations and the heap a copy lives in give different paths",
  [R + "mosml.c", R + "hash.c", R + "interp.c", L + "Polyhash.sml", C + "Back.sml"], [("structural comparison", R + "mosml.c"), ("hashing", R + "hash.c")], ["booleans and hash values"], ENUM, NOTE,
  "`checks/B09.py`. Per type a list of boundary values built twice (one copy promoted); all pairs; forms: =, <>, through a polymorphic function, inside tuple/list/option, by fresh copy. Oracle: Python equality. Hashes of equal values must agree, before and after collections.")

P("B21", "Real arithmetic and conversions are the IEEE operations, or raise",
  "Real +, -, *, /, ~, abs, comparisons, min, max, sign, Math functions and the conversions between real and int (real, floor, ceil, trunc, round) and between real and bytes (PackReal) give the IEEE double result or the specified exception (Overflow, Div, Domain), in every syntactic form; floor, ceil, trunc and round give the exact integer or raise Overflow.",
  ["inputs"], "all ordered pairs of a set of boundary and ordinary doubles under every operation; doubles around every rounding and range boundary",
  "the tests use a few ordinary reals; overflow limits, ties, range borders and byte orders are corner cases",
  [R + "floats.c", R + "interp.c", R + "mosml.c", L + "Real.sml", L + "Math.sml", L + "PackRealBig.sml", L + "PackRealLittle.sml"],
  [("float primitives", R + "floats.c, interp.c"), ("conversions", R + "mosml.c")], ["bit patterns of results, exceptions"], ENUM,
  NOTE + "Moscow ML's documented limit: results above half the largest double raise Overflow, and a zero result has no sign.",
  "`checks/B21.py`. Boundary and ordinary doubles, all pairs, all operations, several syntactic forms; conversions around every rounding and range boundary; PackReal in both byte orders. Oracle: Python's doubles (same libm), compared bit for bit.")

Y = "src/mosmlyac/"
P("T02", "Generated parsers accept the grammar's language and run the right actions",
  "For every grammar, mosmlyac's generated parser together with the runtime's parsing engine behaves as the LALR(1) parser of the grammar with conflicts resolved by the documented rules (precedence, associativity, %prec, rule order): it accepts exactly that language, runs the semantic actions in order with the right attribute values and source positions, reports an error after the same token, and mosmlyac reports the actual numbers of conflicts and of never reduced rules. "
  "Actions are copied faithfully, $-references replaced outside strings and comments only.",
  ["programs", "inputs"], "all grammars over two nonterminals and two tokens up to a size, all precedence assignments of operator grammars, large grammars around table-size limits; all inputs up to a length",
  "the tests parse fixed grammars; lookahead propagation, conflict resolution, table packing and stack growth depend on the grammar's shape and the input",
  [Y + "lalr.c", Y + "lr0.c", Y + "closure.c", Y + "mkpar.c", Y + "output.c", Y + "reader.c", Y + "symtab.c", Y + "warshall.c", R + "parsing.c", L + "Parsing.sml"],
  [("LR(0) automaton and lookaheads", Y + "lr0.c, lalr.c"), ("conflict resolution", Y + "mkpar.c"), ("table packing", Y + "output.c"), ("parsing engine", R + "parsing.c")],
  ["parse results, reductions, positions, tokens read, conflict reports"], "exhaustive enumeration of bounded grammars and inputs through the real generator and engine, against an independent LALR(1) construction",
  NOTE + "Positions are compared in grammars without empty rules. Cyclic grammars on which a resolved conflict makes any LALR parser loop are left out.",
  "`checks/T02.py`. About 2,200 grammars, over 800,000 parses; oracle `lib/lalr.py`, an LALR(1) construction written for this purpose, which also predicts the automaton's size, the conflict and never-reduced counts. 1,849 pairs of lexically awkward action texts.")

P("R03", "Streams deliver every byte exactly once and in order",
  "Whatever the history of operations on a stream (TextIO, BinIO, BasicIO, Nonstdio; reading by characters, lines, blocks, with lookahead and seeking; writing, flushing, seeking, appending, closing) and however the operating system splits, shortens or interrupts (EINTR) the reads and writes, input operations return exactly the file's bytes from the current position, and output operations leave exactly the written bytes in the file once flushed or closed. "
  "Streams that are open at the same time do not disturb each other, also when standard descriptors were closed. A read or write that fails is reported by an exception, never by missing data in an operation sequence that succeeded, and a program whose standard output cannot be written still ends, with an error status.",
  ["histories", "fault outcomes"], "all operation sequences to a depth at positions around the buffer size; all outcome sequences of the first reads and writes; an error after any short prefix of outcomes",
  "the tests read and write small files through whole transfers; buffer-boundary states, short transfers and interrupted calls need particular lengths, positions and system behaviour",
  [R + "io.c", R + "io.h", R + "sys.c", L + "TextIO.sml", L + "BinIO.sml", L + "BasicIO.sml", L + "Nonstdio.sml", R + "main.c"],
  [("buffered channels", R + "io.c"), ("stream layer", L + "TextIO.sml, BinIO.sml, Nonstdio.sml"), ("exit", R + "sys.c, main.c")], ["data delivered, file contents, positions, exit status"],
  "exhaustive exploration of operation histories and of system-call outcome sequences on the real runtime (fault injector interposed on read and write)",
  NOTE + "After a reported error nothing is promised about a retry.",
  "`checks/R03.py`. (1) all histories of 2-3 operations at positions around 4096 on files of nine lengths, TextIO/BinIO/Nonstdio, against an index model; (2) all histories of opening, using, closing four streams in seven states of the standard descriptors; (3) `lib/io/shim.c` interposed on read/write: all outcome sequences (whole, 1 byte, half, all but one, EINTR, EAGAIN, error) of the first 4 reads and 3 writes for 13 copying programs, for the compiler and the linker; (4) failing standard output.")

P("R06", "A value written by output_value is read back equal, with its sharing",
  "Nonstdio.output_value followed by Nonstdio.input_value (at the same type) gives back an equal value for every value free of functions and abstract objects, whatever its size, depth and shape: the sharing and cycles of references and arrays are reproduced, the copy shares nothing with the original, several values and other data in one stream are kept apart, and the file may have been written on a machine of another word size or byte order. "
  "A value containing a function, a stream or a weak pointer is refused with an exception and nothing is written. Truncated data or a failing read is reported by an exception and never damages the program's heap, and neither split transfers nor garbage collections affect the result.",
  ["inputs", "histories", "fault outcomes"], "families of leaf values, all small graphs, all pairs of a selection, all offsets around the buffer size, all truncations, all outcome sequences of the first transfers, collections at every allocation",
  "the tests write and read one value; sharing tables, block growth, byte orders and failures in the middle of a read need particular sizes and histories",
  [R + "extern.c", R + "intern.c", R + "interncp.c", R + "intext.h", R + "reverse.h", R + "io.c", L + "Nonstdio.sml"],
  [("sharing table and output block", R + "extern.c"), ("reading, conversion between formats, pointer adjustment", R + "intern.c")], ["values read, exceptions, heap integrity"],
  "exhaustive enumeration of values, graphs, truncations, transfer outcomes and collection schedules on the real runtime, against structural equality and graph isomorphism",
  NOTE + "Files changed other than by truncation are outside the property.",
  "`checks/R06.py`. Writes and reads ~23,000 values and graphs; transcodes 2,400 files to the 32-bit/64-bit, little/big-endian and compact formats in Python and reads them; truncates files at every byte; injects short, interrupted and failing reads; forces collections at every allocation while reading.")

P("T01", "Generated lexers return the longest match of the first rule",
  "For every set of rules, a lexer generated by mosmllex returns at each position the longest prefix of the remaining input that some rule matches, runs the action of the first rule that matches that prefix, and reports the lexeme, its start and its end exactly; where no prefix matches, it fails as documented. "
  "The result does not depend on how the input arrives: one string, or chunks of any sizes from a reading function, across buffer refills; several lexers in use at the same time do not disturb each other. Every notation for characters (all codes 1-255), ranges, complements, strings, names and operators denotes its documented set, and action texts are copied faithfully.",
  ["programs", "inputs", "chunkings"], "all regular expressions over two letters to a size, all pairs/triples of small ones, all inputs over three letters to a length; every character in every notation; all chunkings of short inputs and refills around the buffer size",
  "the tests have one or two lexers; automaton construction, table packing, longest-match backtracking and buffer refilling depend on the rules and on how the input is split",
  ["src/lex/Scan_aux.sml", "src/lex/Lexgen.sml", "src/lex/Output.sml", "src/lex/Grammar.grm", "src/lex/Scanner.lex", R + "lexing.c", L + "Lexing.sml"],
  [("automaton construction", "src/lex/Lexgen.sml"), ("code generation", "src/lex/Output.sml"), ("character supply, refill, backtracking", R + "lexing.c, " + L + "Lexing.sml")],
  ["tokens, lexemes, positions, failures"], "exhaustive enumeration of bounded rule sets, inputs and chunkings through the real generator and runtime, against derivatives of regular expressions",
  NOTE, "`checks/T01.py`. About 1,900 rule sets on 364 inputs each; 2,500 notation cases; all chunkings; lexemes crossing the 1024/2048-character buffers at every offset. Oracle: Brzozowski derivatives in Python.")

P("R04", "Calls nest as deep as memory allows and exceptions find their handler",
  "Function calls of every shape (any number of parameters, curried or not, partial and over-application, tail and non-tail, callbacks from C) may nest arbitrarily deep: the evaluation stack grows as needed without changing any value. At every depth a raised exception - by raise or by a primitive - reaches the innermost enclosing handler with its argument, local variables of the handling function are intact, and evaluation continues normally afterwards. "
  "When the stack's limit is reached, Out_of_memory is raised, can be handled, and the program goes on.",
  ["programs", "inputs"], "families of recursive functions: call shape x live variables x handler spacing x alignment, each through a series of depths that crosses every stack growth; eight events at the bottom",
  "the tests recurse to one or two depths; whether a growth of the stack happens at a given instruction, with handlers on the stack, depends on depth and frame size",
  [R + "stacks.c", R + "stacks.h", R + "interp.c", R + "fail.c", R + "callback.c", C + "Back.sml"],
  [("stack growth, relocation of handlers", R + "stacks.c"), ("calls, handlers, raise", R + "interp.c"), ("exceptions through C", R + "fail.c, callback.c")], ["values, exceptions, memory errors"],
  "exhaustive enumeration of call shapes, frame sizes, handler spacings and depths on the real compiler and runtime, against a loop",
  NOTE, "`checks/R04.py`. Families run natively and with AddressSanitizer; depths chosen so that the stack grows through all its sizes with each alignment. Oracle: iteration over the levels.", hook="MOSML_VERIFY (AddressSanitizer build of the runtime)")

P("B16", "Gdbm and Polygdbm tables are persistent finite maps",
  "A Gdbm or Polygdbm table is a finite map from keys to values kept in a file: after any history of add, insert, remove, reorganize, closing and reopening in any mode, in the same or another process, lookups, iteration and folding see exactly the pairs the map contains, each once; adding an existing key, removing a missing one, writing through a reader and using a closed table raise the documented exceptions without effect; withtable/withtables close the tables also when the function raises. "
  "Keys and values of any size and content (including empty and NUL bytes) are preserved, and so are typed values in Polygdbm.",
  ["histories", "inputs"], "all operation histories to a depth over two tables' worth of keys, observed after every step; key/value sizes around block limits; all pairs of open modes; typed values; collections at every allocation",
  "the tests run one history; persistence, overwriting, failure in the middle and sizes need particular sequences",
  ["src/dynlibs/mgdbm/mgdbm.c", L + "Gdbm.sml", L + "Polygdbm.sml", R + "mosml.c", R + "extern.c", R + "intern.c"],
  [("table primitives", "src/dynlibs/mgdbm/mgdbm.c"), ("serialisation to strings", R + "mosml.c")], ["table contents, exceptions, files"], ENUM,
  NOTE, "`checks/B16.py`. 67,000 histories, 5 million observations, against an association list; a second process reads the tables; the collector is forced at every allocation.")

P("R05", "An interrupt raises Interrupt and damages nothing",
  "In a program that catches interrupts, SIGINT - whenever it arrives, in ML code, in a loop without allocation, during a primitive, while waiting for input, or during a collection - raises Interrupt at some later point of the evaluation, soon: the effects performed are a prefix of the uninterrupted program's effects followed by those of the handlers, innermost first; all data not being modified at that point is intact, and the program can handle the exception and continue, be interrupted again, and compute correct results. "
  "In the interactive toplevel while a phrase is evaluated, only that phrase is abandoned; bindings made earlier stay usable. An interrupted mosmlc never leaves an incomplete .ui or .uo file or executable that looks complete.",
  ["schedules", "fault outcomes"], "a SIGINT at every poll point of each program, pairs and growing series of interrupts, a SIGINT at each read, at every point of compilations, links and toplevel sessions",
  "no test sends a signal; the effect depends on the instruction at which it is noticed",
  [R + "signals.c", R + "interp.c", R + "fail.c", R + "io.c", R + "sys.c", C + "Maint.sml", C + "Mainc.sml", C + "Compiler.sml", C + "Link.sml", L + "Polyhash.sml", L + "Dynarray.sml"],
  [("signal recording and polling", R + "signals.c, interp.c"), ("toplevel recovery", C + "Maint.sml"), ("output files", C + "Compiler.sml, Link.sml")], ["effect traces, data, files, session transcripts"],
  "stateless exploration of interrupt schedules on the real runtime: the hooked runtime delivers SIGINT at every poll point in turn",
  NOTE + "Whether a message is printed, and an interrupt in the middle of an input operation that needs several reads, are outside the property.",
  "`checks/R05.py`. 155,000 schedules: about 30 programs interrupted at every poll point and in series, endless computations, interrupted reads (interposed read), compilations and links with every truncation judged by whether the tools accept the file, toplevel sessions.", hook="MOSML_VERIFY: MOSML_VERIFY_INTR_AT, MOSML_VERIFY_INTR_GROW")

P("R07", "A signal may arrive at any machine instruction",
  "In a program that catches interrupts, a SIGINT that arrives at any machine instruction whatsoever - in the interpreter, in a primitive, inside a collection that was requested, while the evaluation stack is being moved, in the input and output routines before, during and after a system call, in a callback, in the signal handler itself - is neither lost nor noticed twice: Interrupt is raised exactly once, within the next few calls (two signals: once or twice). "
  "The effects performed are a prefix of the uninterrupted ones; input delivered and input still to be read together are the whole input but for what the interrupted operation asked for; an output file contains whole operations; all other data is intact.",
  ["schedules"], "every instruction of 15 windows of program execution (about 230,000) as the point of arrival of one signal; every pair of instructions of shorter windows (about 350,000) for two signals",
  "no test sends a signal; races between a signal handler and the code it interrupts are a few instructions wide",
  [R + "signals.c", R + "signals.h", R + "interp.c", R + "io.c", R + "sys.c", R + "fail.c", R + "callback.c", R + "stacks.c", R + "minor_gc.c", R + "misc.c"],
  [("signal recording, blocking sections", R + "signals.c"), ("polling and entering the handler", R + "interp.c (process_signal)"), ("waiting for input", R + "io.c (really_read)")], ["number of interrupts, effects, input, files, data"],
  "stateless exploration of all arrival points on the unmodified runtime: single-stepping with a forked copy per instruction",
  NOTE + "Windows are a few thousand to fifty thousand instructions of chosen programs; the toplevel's own code is covered at poll points only (R05).",
  "`checks/R07.py`, `lib/step/step.c`. A preloaded library sets the processor's trap flag between two markers; the trap handler forks at each instruction and the copy gets SIGINT exactly there, runs to its end and judges itself (open files are private to the copy). Two races found this way are fixed.")

P("B15", "Regular expression matching finds the leftmost longest match",
  "For every regular expression of the documented (extended or basic) notation, flags and string, Regex finds a match exactly when one exists and then reports the leftmost longest one; the match vector has a component for every group, giving what the group last matched in some parse of that match, or the empty substring. "
  "All ways of matching (compiled or not, whole string or substring, boolean or with groups) agree; substrings refer to the base string; NUL and other bytes in the string are ordinary. "
  "replace, substitute, fields, tokens, map, app and fold split the string as specified, apply functions from left to right and raise Regex when no progress is made; expressions that are not regular expressions raise Regex.",
  ["inputs"], "all expressions up to 6 nodes (extended) and 5 (basic, all quantifiers), with anchors, flags, back references and character lists, on all strings up to length 4 to 6 over the alphabet; every byte against every list",
  "the tests try some twenty expressions; group positions under repetition, flags and lists give special cases for particular combinations",
  ["src/dynlibs/mregex/mregex.c", L + "Regex.sml"], [("match vector construction", "src/dynlibs/mregex/mregex.c regmatch_sus"), ("splitting loops", L + "Regex.sml")],
  ["match vectors, results, order of applications, exceptions"], ENUM,
  NOTE + "The matcher proper is the C library's on Linux (its symbols take precedence over the bundled regex-0.12), so anchors inside repeated parts, which it mishandles, are left out.",
  "`checks/B15.py`. 27,000 expressions, 2.2 million expression/string pairs, each through all six matching functions; oracle: the set of all parses, in Python. Found the truncated match vectors (fixed).")

P("B17", "IntInf is exact integer arithmetic",
  "Every IntInf operation gives the mathematical result on integers of any size, negative operands included: sums, products, both kinds of division, powers, logarithms, comparisons, sign and extremes; division by zero raises Div, log2 of a number that is not positive raises Domain, toInt raises Overflow exactly when the number is not an int. "
  "Numbers are read and written exactly in each radix. Operations change none of their operands, and results stay valid whatever the collector does.",
  ["inputs", "histories"], "all ordered pairs of some ninety numbers around powers of two up to 2^1000, under each operation; all texts up to length 4 over an 11-character alphabet in each radix; computations with collections at every allocation",
  "the tests use numbers that fit an int; carries, signs of quotients, limits of int and finalisation show only beyond",
  ["src/dynlibs/intinf/IntInf.sml", "src/dynlibs/intinf/intinf.c"], [("interface to GMP, finalised limbs", "src/dynlibs/intinf/intinf.c"), ("operations, scanning", "src/dynlibs/intinf/IntInf.sml")],
  ["numbers as text, exceptions"], ENUM, NOTE,
  "`checks/B17.py`. 240,000 binary operations, 120,000 numerals, runs under forced collections and AddressSanitizer; oracle: Python's integers. Found four defects (fixed).")

P("B18", "Dates and times agree with the calendar",
  "Date.date normalises any combination of fields, in and out of range, to the Gregorian date it denotes, with the right weekday and day of the year; conversion between Time.time and dates, universal and local, is inverse in every zone on both sides of every change of offset; offsets shift the instant by exactly their amount, in the direction given. "
  "compare orders dates by year, month, day, hour, minute, second; fmt and toString give what the C library's strftime and asctime specify, whatever the length; scan, fromString and Time.scan accept exactly their grammar and consume exactly the text accepted; invalid dates raise Date when printed or converted. "
  "Time arithmetic and conversions are exact to the microsecond, or raise; clocks do not go backwards.",
  ["inputs"], "every day of 215 years and 1500 days of the first; all combinations of out-of-range fields at month, year and century boundaries; every second hour around every transition of several zones for decades; all half-hour offsets; all texts up to length 4 over a 9-character alphabet",
  "the tests use a few dates in one zone; leap years, century rules, zone transitions and offsets beyond half a day are each a few days in many",
  [L + "Date.sml", L + "Time.sml", L + "Timer.sml", R + "mosml.c"], [("normalisation, offsets, scanning", L + "Date.sml"), ("times", L + "Time.sml"), ("C library interface", R + "mosml.c sml_localtime, sml_mktime, sml_strftime, sml_asctime")],
  ["fields, instants, texts, exceptions"], ENUM,
  NOTE + "Nothing is claimed about Date.toTime before 1970, nor about fractions of a second before 1970 in dates; zone rules are the C library's, read through Python.",
  "`checks/B18.py`. 257,000 dates, instants and texts; oracle: day-number arithmetic in Python, and Python's own localtime and strftime. Found five defects (fixed).")

P("B12", "FileSys performs the operation asked for and reports what the system holds",
  "Every operation of OS.FileSys (mkDir, rmDir, remove, rename, setTime, chDir) has exactly the effect of the operating system's own operation on the file named and on nothing else, and when it fails raises OS.SysErr carrying the system's error and changes nothing. "
  "Every query (isDir, isLink, readLink, fileSize, modTime, access, fullPath, realPath, getDir, fileId with hash and compare, directory listings) reports what the system holds, for links, dangling links, link loops, files and directories without permissions, names with any bytes, sizes and times of any magnitude. "
  "Two file ids are equal exactly when the files are the same. A directory stream delivers every entry except . and .. exactly once, from the start again after rewindDir, and raises SysErr after closeDir.",
  ["histories", "inputs"], "all histories of two operations of which one is from a core of 20 (130 operations in all) and of three from a core of 11, on a tree of 16 objects, with ten queries on each of 26 paths afterwards; all histories of five operations on two directory streams; all pairs of 160 file identities",
  "the tests perform one operation at a time on a few files they create, as the user who may do everything",
  [L + "FileSys.mlp", R + "mosml.c", R + "sys.c", R + "unix.c"], [("system calls and errors", R + "mosml.c sml_mkdir ... sml_access; sys.c sys_remove, sys_rename; unix.c"), ("error reporting, paths, streams", L + "FileSys.mlp")],
  ["results, errors, the tree left behind"], "exhaustive enumeration of operation histories on the real code against a reference execution",
  NOTE + "The oracle is the same history performed through Python's os module on a second copy of the tree, by an unprivileged user.",
  "`checks/B12.py`. 6,500 operation histories, 41,000 directory stream histories, names, links, sizes and times of all magnitudes; as user nobody inside a scratch directory. A preloaded stat gives file identities that no disk here has. Found colliding file ids (fixed).")

P("B22", "Processes are started, spoken to, signalled and reaped faithfully",
  "Unix.execute and executeInEnv start the command with exactly the arguments and environment given, whatever bytes they hold; what is written to the child's stream arrives on its standard input and what it prints can be read, all of it and in order; the child sees the end of its input when the stream is closed and the parent sees the end of the child's output when it ends, whatever other children live. "
  "kill delivers the signal named; reap closes the streams, waits and tells success from failure; a second reap or a kill after it raises Fail. "
  "A program's arguments and environment are those it was given; Process.system reports success exactly when the command succeeds; exit ends the program with the status given, after the registered actions in reverse order and with its output flushed; terminate skips the actions; sleep lasts at least as long as asked.",
  ["schedules", "inputs"], "all interleavings of two conversations (of eleven kinds) with children up to ten operations in total, and of three; every exit status; every signal; every byte in arguments and environment; all orders of up to four exit actions",
  "the tests start a few processes one at a time; pipes inherited by other children and the order of closing and waiting matter only with several alive",
  ["src/dynlibs/munix/munix.c", L + "Unix.sml", L + "Signal.sml", L + "Process.mlp", R + "mosml.c", R + "sys.c"], [("starting, signalling and reaping", "src/dynlibs/munix/munix.c"), ("streams", L + "Unix.sml"), ("status, exit", R + "mosml.c sml_system, " + R + "sys.c sys_exit")],
  ["texts received, statuses, exceptions, absence of hanging"], "exhaustive enumeration of operation interleavings on the real code against a model",
  NOTE + "Whether a process that is being written to when it is reaped dies of SIGPIPE is left open.",
  "`checks/B22.py`. 8,000 conversations, 256 exit statuses through system and exit, and through execute and reap, 20 signals. Found three defects (fixed).")
P("B23", "Sockets carry bytes and datagrams exactly, and select tells what is ready",
  "Over a connected pair of sockets every byte sent (from the vector or array slice given, no more) is received once and in order, in pieces no larger than asked for; receiving into an array changes only the slice given; peeking removes nothing; after NO_SENDS or close the peer gets what was sent and then an empty result, and sending raises. "
  "A datagram arrives whole (or cut to the room offered) with its sender's address, which leads back to the sender, also when the sender has no name. A slice outside its buffer raises Subscript and sends nothing; an impossible count raises; every failure of the system raises, and later operations work. "
  "select returns exactly the ready descriptors of each of its lists, in order, waits no longer and no shorter than its timeout, and never touches memory outside its sets; addresses name exactly the file, host and port given.",
  ["histories", "faults", "inputs"], "all sequences of five operations of 20 (four of 30) on Unix pairs and three of 30 on Internet pairs; four and three of 22 on datagram sockets; 91 states of three sockets with all ordered lists; every errno at every call; all file name lengths; 28,561 addresses",
  "no test uses Socket; select's lists, truncation, unnamed peers and shutdown depend on the state of both ends",
  ["src/dynlibs/msocket/msocket.c", L + "Socket.sml"], [("all operations", "src/dynlibs/msocket/msocket.c"), ("slices, flags, select", L + "Socket.sml")],
  ["bytes received, counts, select's lists, exceptions, elapsed time"], "exhaustive enumeration of operation sequences on the real code against a model, with fault injection",
  NOTE + "The kernel's loopback is the medium; what happens after a connection was reset is left open.",
  "`checks/B23.py`. 3.7 million steps. Found five defects (fixed).")
P("R08", "ML and C exchange values, calls and exceptions faithfully through the foreign interface",
  "Every ML value of the documented representations (integers, words, characters, reals, strings with any bytes, booleans, unit, tuples and records of any width with their fields in label order, lists, references, constructors numbered in the order of their names) is seen by C code as documented, and the same value built by C with alloc, alloc_string, copy_double, alloc_tuple, modify is the ML value. "
  "C functions called with one to five arguments get them in order; callbacks from C to ML nest to any depth with ML calls and stack growth inside, every frame keeps its values over any collection, and an exception raised at the bottom reaches the nearest handler whoever raised it, with everything in between undone. "
  "The registries behave as maps: a registered value is the one fetched and called until it is removed, also through a value pointer held by C; a second registration, removing what never was, and unknown names raise Fail. A closed library handle raises Closed at every later use of it or of its symbols and no other handle is affected. "
  "A finalised block is finalised once, after it became unreachable and not before.",
  ["histories", "inputs", "schedules"], "some 4,000 values over seven leaf types to two levels, each from both sides; all sequences of four registry operations of 15; all nestings of four call frames of five kinds with seven outcomes handled at every level; all sequences of five operations on two handles; 20,000 finalised blocks; the smaller bounds again with a collection at every allocation",
  "the tests of Dynlib and Callback make a handful of calls and no exception crosses C more than once",
  ["src/runtime/callback.c", "src/runtime/dynlib.c", "src/runtime/alloc.c", "src/runtime/memory.c", "src/runtime/interp.c", L + "Dynlib.sml", L + "Callback.sml"],
  [("registries, value pointers", "src/runtime/callback.c"), ("handles and symbols", "src/runtime/dynlib.c"), ("callbacks and exceptions crossing C", "src/runtime/interp.c")],
  ["values on both sides, results, exceptions raised, finaliser counts"], "exhaustive enumeration of values, operation sequences and call nestings on the real code against a model",
  NOTE + "The C side is compiled against the runtime's own headers, as the documentation asks.",
  "`checks/R08.py`, `lib/ffi/ffi.c`.")
P("B06", "Finite maps and sets are the mathematical objects, and persistent",
  "Binarymap, Redblackmap, Splaymap and Intmap are finite maps, and Binaryset, Splayset, Rbset and Intset finite sets, ordered by the ordering given: after any sequence of operations lookups find exactly what was inserted last and not removed, removing or retrieving what is not there raises NotFound, counts and listings are exact and in order, "
  "union, intersection, difference, inclusion, equality and comparison are those of sets however the two were built, intervals select exactly their elements, folds and iterators visit every entry once in increasing or decreasing order and stop at an exception. No operation changes an older version. Red-black sets stay balanced.",
  ["histories", "inputs"], "all sequences of six operations over five keys for four maps, observed at every step and again after everything done to newer versions; all insertion orders of seven keys with removals; 14 sizes up to 300 in seven regular orders; all pairs of subsets of seven items, built in four ways, under every operation",
  "only Rbset has tests, on a few small sets",
  [L + f + ".sml" for f in ("Binarymap", "Redblackmap", "Splaymap", "Splaytree", "Intmap", "Binaryset", "Splayset", "Rbset", "Intset")],
  [("rebalancing", L + "Binarymap.sml"), ("red-black insertion and deletion, digits", L + "Rbset.sml"), ("splaying", L + "Splaytree.sml")],
  ["observations of every version", "callback traces", "exceptions"], "exhaustive enumeration of operation sequences on the real code against sorted lists",
  NOTE + "Which of several equal items a set keeps is left open.",
  "`checks/B06.py`. 1.8 million states. Found that Rbset.mapMono rejected increasing and accepted decreasing functions (fixed).")
P("B08", "Mutable containers, suspensions, bytes and random numbers are what they stand for",
  "A Polyhash table is a finite map and a Hashset a finite set for every hash function (also one under which everything collides): lookup, insertion, conditional insertion, removal, filtering, mapping, copying, counting and listing are exact after any history and any growth, a missing key raises the table's exception, and a copy is independent. "
  "A Dynarray is a function from natural numbers with a default, subArray takes the documented range, negative indices raise Subscript. A Buffer holds exactly what was added since it was made, cleared or reset. A suspension is evaluated at most once, when first forced. Byte conversions keep every byte; packString changes only its range or raises Subscript. Random numbers lie in their range and depend only on the seed.",
  ["histories", "inputs"], "all sequences of four operations of 14 (tables, five hash functions) and of ten (sets), of five operations of eleven (arrays) and ten (buffers, five initial sizes); growth to 260 entries in 17 sizes and three key patterns; all bytes, slices and ranges up to 20",
  "the tests insert a handful of keys; nothing tests Hashset, Dynarray or Buffer",
  [L + f + ".sml" for f in ("Polyhash", "Hashset", "Dynarray", "Buffer", "Susp", "Byte", "Random")] + ["src/runtime/hash.c"],
  [("buckets and growth", L + "Polyhash.sml"), ("buckets and growth", L + "Hashset.sml"), ("growing", L + "Dynarray.sml"), ("growing", L + "Buffer.sml")],
  ["observations after every operation", "exceptions"], "exhaustive enumeration of operation sequences on the real code against lists and functions",
  NOTE + "The order in which hash tables present their entries is left open.",
  "`checks/B08.py`. Found that Dynarray.subArray left out the last element of its range (fixed).")
