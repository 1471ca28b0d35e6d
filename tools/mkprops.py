#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m) for n, m in state],
                     observe_at=list(observe))))

IN = ["inputs"]; HI = ["histories"]; PR = ["programs"]
S = "lib/string/"; M = "lib/mes/"

# ------------------------------------------------------------------ C library
p("L01", "Memory block operations have exactly their standard effect",
  "Copying, moving (overlapping blocks included), filling, zeroing and duplicating memory with the C library's block functions leaves in the destination exactly the bytes that the standard prescribes, for every length, content and placement. They return the value the standard prescribes, and no byte outside the destination changes.",
  IN, "all lengths, contents, and relative placements (overlap) of source and destination",
  "lib/tests/string/{memcpy,memmove,memset}.c try two or three small blocks; overlap in both directions at every distance, zero and large lengths and the frame (nothing else changes) are never observed.",
  [S+"memcpy.c", S+"__memcpy.c", S+"memmove.c", S+"__memmove.c", S+"memset.c", S+"__memset.c", S+"bzero.c", S+"bcopy.c"],
  [("memcpy/__memcpy", S+"memcpy.c"), ("memmove direction choice", S+"memmove.c"), ("memset", S+"memset.c")])

p("L02", "String copy and concatenation produce the exact string, inside its bounds",
  "For all strings, the C library's string copy, bounded copy, concatenation, bounded concatenation, duplication, length and case-mapping functions produce exactly the standard result, terminated (padded, for the bounded copy) as the standard says, and return what the standard says. They change no byte beyond the result.",
  IN, "all source and destination strings, all bounds n (0, shorter, equal, longer than the source)",
  "lib/tests/string has a handful of literals per function (strncpy, strcat, strdup have no test of padding or of bytes past the result).",
  [S+"strlen.c", S+"strcpy.c", S+"strncpy.c", S+"strcat.c", S+"strncat.c", S+"strdup.c", S+"strlwr.c", S+"strupr.c"],
  [("strcpy/strncpy loops", S), ("strdup = malloc + strcpy", S+"strdup.c")])

p("L03", "Memory and string comparison is the unsigned-byte lexicographic order",
  "For all blocks and strings, the C library's comparison functions return zero exactly when the (bounded) contents are equal, and otherwise a value whose sign is that of the first difference taken as unsigned bytes. The bounded variants look at no more than n bytes, and the unbounded ones at nothing past the terminator.",
  IN, "all pairs of blocks / strings over all 256 byte values, all bounds",
  "lib/tests/string/{strcmp,strncmp,memcmp}.c compare ASCII literals only; bytes >= 128, n = 0 and bounds exactly at the difference are unsampled.",
  [S+"memcmp.c", S+"strcmp.c", S+"strncmp.c", S+"bcmp.c"],
  [("byte difference", S+"strcmp.c"), ("bounded loop", S+"strncmp.c")])

p("L04", "String and memory search returns the first (last) match or nothing",
  "For all haystacks and needles the C library's search functions for a byte, a set of bytes, a substring or a sub-block return the position the standard prescribes (first match, or last match for the reverse search, the terminator counting as part of the string), and the null pointer exactly if there is no match. The span functions return exactly the length of the longest prefix inside (outside) the given set.",
  IN, "all strings/blocks, needles, sets and characters over all byte values, empty ones included",
  "lib/tests/string/{strchr,memchr,memmem,strstr,...}.c hold one to four literals per function; self-overlapping needles, empty strings, bytes >= 128 and absent matches are mostly unsampled.",
  [S+"memchr.c", S+"memmem.c", S+"strchr.c", S+"strrchr.c", S+"strstr.c", S+"strpbrk.c", S+"strspn.c", S+"strcspn.c", S+"index.c", S+"rindex.c"],
  [("linear scans", S), ("window comparison", S+"memmem.c")])

p("L05", "Character classification and case mapping follow the C locale",
  "For every unsigned char value and EOF, each character class predicate of the C library is true exactly for the members of that class in the C locale, and the two case mappings change exactly the letters of the other case, leaving every other value as it is.",
  IN, "all 257 argument values of all predicates",
  "lib/tests/ctype/*.c test one or two characters per predicate; class boundaries ('@' '[' '`' '{' '/' ':' 0 127 128..255 EOF) are not enumerated.",
  ["lib/ctype/"+f for f in "isalnum.c isalpha.c isascii.c iscntrl.c isdigit.c isgraph.c islower.c isprint.c ispunct.c isspace.c isupper.c isxdigit.c isnumber.c tolower.c toupper.c".split()],
  [("range tests", "lib/ctype/")])

p("L06", "Integers are rendered exactly in every base",
  "For every signed or unsigned machine integer and every base from 2 to 16 (up to 36 where letters allow), the C library's integer-to-text conversions return the canonical numeral of the value: most significant digit first, no leading zeros, a single minus sign exactly for negative signed values. Conversion writes only its own buffer.",
  IN, "all 64-bit (32-bit) values times all bases, signed and unsigned",
  "Tests convert a few small decimal numbers; numerals longer than ten digits, the most negative value, base 2 and values above LONG_MAX are unsampled.",
  [M+"ntoab.c", M+"itoa.c", M+"ltoa.c", M+"ltoab.c", M+"ultoa.c", M+"utoa.c"],
  [("ntoab digit loop and static buffer", M+"ntoab.c"), ("thin wrappers", M+"ltoab.c")])

p("L07", "Numerals are parsed to their exact value",
  "For every text, the C library's text-to-integer conversions skip leading white space, accept one optional sign and consume the longest run of digits valid in the base (2 to 36, letters of either case). In the strtol family a 0x before a hexadecimal digit is skipped in base sixteen and selects base sixteen when the base is given as 0, where otherwise a leading 0 selects base eight and any other digit base ten. They return the exact value of that numeral whenever it fits a long, and the end pointer, where one is reported, is left right after the last digit consumed.",
  IN, "all strings (signs, white space, any digits and trailing text), all bases 2..36",
  "lib/tests/stdlib/strtol.c and lib/tests/mes/90-abtol? style tests parse a few decimal/hex numbers; values over 2^31, mixed letter/decimal digits and malformed tails are unsampled.",
  [M+"abtol.c", "lib/stdlib/atoi.c", "lib/stdlib/atol.c", "lib/stdlib/strtol.c", "lib/stdlib/strtoul.c", "lib/stdlib/strtoll.c", "lib/stdlib/strtoull.c"],
  [("abtol accumulator loop", M+"abtol.c"), ("strtol base prefix handling", "lib/stdlib/strtol.c")])

p("L08", "Sorting yields the ordered permutation of the array",
  "For every array, element size and consistent comparison function, sorting leaves the array's elements in non-decreasing order, as a permutation of the original elements, and changes no memory outside the array. It terminates for every input, including empty, one-element, already sorted and all-equal arrays.",
  IN, "all element counts, element sizes, contents, and total preorders given as comparison function",
  "lib/tests/stdlib/qsort.c sorts two fixed arrays of strings.",
  ["lib/stdlib/qsort.c"], [("qpart partition, qswap", "lib/stdlib/qsort.c")])

p("L09", "Allocated blocks are disjoint, aligned, large enough and keep their contents",
  "Every successful allocation returns a suitably aligned block of at least the requested size that overlaps no block handed out before, inside memory the program has obtained from the system; zero-allocation returns zeroed memory for the full product of its arguments (or fails), and re-allocation keeps the old contents up to the smaller size. When the system refuses memory the allocator reports failure and its state is unchanged.",
  HI+["fault_sequences"], "all sequences of allocation, zeroed allocation, re-allocation and release with all sizes; the system refusing memory at any point",
  "lib/tests/stdlib/ and scaffold/malloc.c allocate a few blocks; no test checks disjointness, alignment, refusal by the system or contents across growth.",
  ["lib/linux/malloc.c", "lib/stdlib/calloc.c", "lib/stdlib/realloc.c", "lib/stdlib/free.c", "lib/posix/sbrk.c"],
  [("brk bump allocator", "lib/linux/malloc.c"), ("copy on realloc", "lib/stdlib/realloc.c")],
  [("__brk", "current end of the heap")])

p("L10", "The environment behaves as a map from names to values",
  "For every environment, name and value: looking a name up returns the value of the entry with exactly that name, or nothing if there is none; setting a name (with overwrite) makes a later lookup return the new value, without overwrite keeps an existing value, and changes no other name's value; unsetting removes the name and leaves every other name's value. No memory outside the environment's own storage is written.",
  HI, "all environments (names that are prefixes of each other, empty values, duplicates), all set/unset/get sequences",
  "lib/tests/posix/getenv.c, lib/tests/stdlib? set one variable and read it back; prefix names, replacement by longer values, and removal next to other entries are unsampled.",
  ["lib/posix/getenv.c", "lib/posix/setenv.c", "lib/posix/unsetenv.c"],
  [("linear scan of environ", "lib/posix/getenv.c"), ("append/replace entry", "lib/posix/setenv.c"), ("compaction loop", "lib/posix/unsetenv.c")],
  [("environ", "null-terminated array of NAME=VALUE strings")])

p("L11", "Buffered reading and push-back deliver the file's bytes once and in order",
  "Reading a file descriptor through the library (read, fread, fdgetc/getc/fgetc/getchar, fdgets/fgets) delivers exactly the bytes that the underlying reads supplied, each once and in order, whatever the sizes of the requests and of the chunks the system returns; end of file and errors are reported as the underlying read reports them once buffered bytes are used up, and an error never loses bytes. A character pushed back is the next character read from that descriptor (one can be pushed back; a second one stops the program). Seeking and writing start from the reader's position, failed seeks leave the position and what is buffered, and descriptors do not disturb each other, inside or outside of the table.",
  HI+["fault_sequences"], "all interleavings of block reads, character reads and push-backs over all descriptors; all chunkings, short reads and errors of the system",
  "Tests read whole small files; request/chunk size combinations, refill at buffer boundaries, several descriptors and multiple push-backs are unsampled.",
  [M+"__buffered_read.c", "lib/posix/buffered-read.c", "lib/posix/write.c", "lib/linux/lseek.c", "lib/stdio/fread.c", M+"fdgetc.c", M+"fdungetc.c", M+"fdgets.c"],
  [("refill and copy-out", M+"__buffered_read.c"), ("push-back stack", M+"fdungetc.c")],
  [("__buffered_read table", "per-descriptor buffer, fill and read position"), ("__ungetc_buf", "per-descriptor pushed back character")])

p("L12", "Formatted output is the exact expansion of the format",
  "For every format built from literal text and the supported conversions (characters, strings, signed, unsigned, octal and hexadecimal integers, percent, with width, zero or space padding, left justification and precision), formatting to a buffer produces exactly the standard expansion and count, and formatting to a descriptor or file writes that same text. The bounded variant never writes past its bound and always terminates what it wrote.",
  IN, "all argument values, widths, precisions, flags and buffer bounds for the supported conversions",
  "lib/tests/stdio/80-printf? use about twenty fixed format/argument pairs; widths shorter/longer than the number, truncation at each position and extreme values are unsampled.",
  ["lib/stdio/vfprintf.c", "lib/stdio/vsnprintf.c", "lib/stdio/vsprintf.c", "lib/stdio/snprintf.c", "lib/stdio/sprintf.c"],
  [("conversion state machine", "lib/stdio/vsnprintf.c")])

p("L13", "System call failures surface as -1 with the right error number",
  "Whatever value the kernel returns, each library system-call wrapper passes the caller's arguments unchanged to the right call, returns a non-negative result unchanged, and turns every negative result -e into the return value -1 with the error number e; a successful call leaves the error number clear.",
  ["inputs", "fault_sequences"], "all kernel results and all argument values for all wrappers",
  "Tests call a few wrappers in the success case; failures are sampled for open/access only.",
  ["lib/linux/x86_64-mes-gcc/_exit.c", "lib/linux/x86_64-mes-gcc/syscall.c", "lib/linux/x86_64-mes-gcc/syscall-internal.c"],
  [("errno translation in _sys_callN", "lib/linux/x86_64-mes-gcc/syscall.c")], [("errno", "last error number")])

p("L14", "Software division satisfies the division identity",
  "For every dividend and non-zero divisor representable in the machine word, the library's software division helpers return the quotient truncated toward zero and the remainder with the dividend's sign, so that quotient times divisor plus remainder is the dividend and the remainder is smaller than the divisor in absolute value.",
  IN, "all pairs of machine integers with non-zero divisor, signed and unsigned",
  "These helpers are only linked on platforms without a division instruction (or for the tcc run-time library), and no test in the suite calls them with extreme or random operands.",
  [M+"div.c", "lib/libtcc1.c"], [("shift-subtract long division", M+"div.c"), ("sign fix-up", M+"div.c")])

p("L15", "Program lookup finds the first executable along the search path",
  "Running a program by name (execvp) executes the name itself when it contains a slash, with the arguments given and the current environment, and otherwise the program of that name in the first entry of PATH, in order, that holds it (an empty entry is the current directory); path search (search_path) returns that file name. Both report failure (ENOENT from execvp) and execute nothing when PATH is unset, no entry holds the program or memory is refused. Neither reads or writes outside the strings it was given and the block it allocates, whatever the length of PATH and name.",
  IN, "all PATH values (empty, missing, trailing or doubled separators), all names and file system contents",
  "execvp is exercised only through scripts run with an ordinary PATH.",
  [M+"search-path.c", "lib/posix/execvp.c"], [("segment loop", M+"search-path.c")])

# ------------------------------------------------------------------ Scheme
C = "src/"
p("S01", "Garbage collection preserves everything the program can reach",
  "After a collection, every value reachable from the program's roots (registers, stack, symbol table, module, ports) has the same type, contents and sharing structure as before, and no two distinct live objects have been merged or overlap. Every object that was live is still inside the arena, and free memory starts after the last of them. When the copies of the live objects do not fit in the space the collector has, the interpreter stops with an error instead of writing over the stack.",
  HI, "all heap graphs (any mix of object types, sharing, cycles), all arena sizes, collection at any allowed point",
  "The tests that trigger a collection check a few values afterwards; the graph shapes (cycles through vectors, records, byte objects of every length) are not enumerated.",
  [C+"gc.c"], [("forwarding copy", C+"gc.c gc_copy"), ("scan loop", C+"gc.c gc_loop"), ("copy back and relocation", C+"gc.c gc_flip")],
  [("g_cells/g_news", "from-space and to-space"), ("g_free", "allocation pointer")])

p("S02", "Allocation returns fresh cells and never touches existing objects",
  "Every object the interpreter allocates (pair, number, character, string, bytes, vector, record, variable, closure and so on) is a new object with exactly the type and contents asked for, large enough for its payload, disjoint from every object allocated before, and inside the arena; existing objects do not change. When the arena is exhausted the interpreter stops with an error instead of writing outside of it.",
  HI, "all allocation sequences and payload sizes, including the arena filling up exactly",
  "Tests allocate far less than the arena; overlap or a payload one word too small would only show as corruption much later.",
  [C+"gc.c", C+"vector.c", C+"struct.c", C+"string.c"],
  [("bump allocation with bound check", C+"gc.c alloc"), ("size computation for byte payloads", C+"gc.c bytes_cells")],
  [("g_free", "allocation pointer"), ("g_arena", "arena")])

p("S03", "List primitives compute the standard result for every list",
  "For every proper list the built-in list operations (construction, car/cdr and their mutation, length, append of two, reversal, membership and association by identity or equality, last pair) return exactly the standard result; the ones not named as destructive leave all existing objects unchanged, and the destructive ones change only the cells they are meant to change. Taking car or cdr of something that is not a pair is reported as a type error, never an arbitrary value.",
  IN, "all proper lists of any length and elements, improper ones for length; all arguments for car and cdr",
  "tests/base.test, tests/srfi-*.test use short literal lists and cannot see changes to other objects.",
  [C+"core.c", C+"lib.c"], [("type checks in car/cdr", C+"core.c"), ("list loops", C+"core.c"), ("memq, last_pair", C+"lib.c")])

p("S04", "Structural equality is exactly equality of structure",
  "Two finite values are equal? exactly when they are built alike: pairs pairwise, vectors of equal length elementwise, strings and keywords by content, numbers and characters by value, everything else by identity. Identity comparison (eq?) is true exactly for the same object, equal numbers, equal characters and equal keywords.",
  IN, "all pairs of finite (acyclic) values of any nesting",
  "The suite compares a dozen literal values.",
  [C+"lib.c", C+"core.c"], [("recursive comparison", C+"lib.c equal2_p"), ("eq_p", C+"core.c")])

p("S05", "Integer arithmetic is exact on every fitting argument list",
  "For every argument list of fixnums whose exact result fits a machine word, + - * return the exact result, quotient-style division truncates toward zero, modulo returns the remainder with the divisor's sign, and the bitwise operations and shifts equal the two's-complement definition; the primitive numeric comparisons (=, <, >) hold exactly when every adjacent pair is related. Division by zero, and a non-number among the arguments (for a comparison: before the first pair that is not related), are reported as errors.",
  IN, "all argument lists of any length over the whole signed word range",
  "tests/math.test samples about forty small calls; negative operands, long argument lists, word extremes are unsampled.",
  [C+"math.c"], [("fold loops with type assertion", C+"math.c")])

p("S06", "Vectors and records give back what was stored, and reject bad indices",
  "For every length and valid index, reading a vector or record field returns the value last stored there (or the fill value), storing changes that one slot and nothing else, length is constant, and conversion between vectors and lists preserves order and elements. An index below zero or not below the length is reported as an error, and no memory outside the object is accessed.",
  HI, "all lengths, indices (valid, negative, at and past the end), and store/fetch sequences",
  "tests/vector.test and tests/srfi-9*.test index a few small vectors in range.",
  [C+"vector.c", C+"struct.c"], [("bound check, slot address", C+"vector.c"), ("struct_ref_/struct_set_x_", C+"struct.c")])

p("S07", "String and symbol conversions preserve every character",
  "For every string, conversion to a list of characters and back, to a keyword, and from a symbol or keyword to a string keeps length and every character; appending strings yields exactly their concatenation; length and character reference agree with the contents, and string equality is equality of contents. An index out of range is reported as an error and no operation writes past the storage of the string it creates.",
  IN, "all strings (empty, with NUL or high bytes, up to the size limit) and indices",
  "tests/string.test uses short ASCII literals in range.",
  [C+"string.c"], [("list_to_cstring, bytes_to_list", C+"string.c"), ("string_append", C+"string.c")])

p("S08", "Symbols are unique: equal names give the identical symbol",
  "Interning two names yields the identical symbol exactly when the names are equal as strings (length and every byte), at any time and in any order of interning; interning an existing name allocates no second symbol, and the name of a symbol never changes.",
  HI, "all sequences of names, including prefixes, empty names and names with equal hash",
  "The suite relies on but never tests collisions, prefixes or long runs of interning.",
  [C+"string.c", C+"symbol.c", C+"hash.c"], [("string_to_symbol lookup-or-insert", C+"string.c"), ("g_symbols table", C+"symbol.c")],
  [("g_symbols", "hash table of all symbols")])

p("S09", "A hash table returns the value last stored under each key",
  "For every sequence of stores and lookups, looking up a key returns the value most recently stored under an equal key (by identity for the identity variants), or the default when it was never stored; storing under one key does not affect the value under any other key, whatever the hash values and table size. Every hash value is a valid bucket index.",
  HI, "all tables sizes, keys (any string, symbol bytes >= 128 included), collisions and store sequences",
  "tests/hash.test stores two or three keys; collisions, replacement and unusual key bytes are unsampled.",
  [C+"hash.c"], [("hash function", C+"hash.c hash_cstring"), ("bucket alist", C+"hash.c hash_set_x_")])

p("S10", "Variable lookup finds the innermost binding and arguments bind by position",
  "Calling a procedure binds each formal parameter to the argument at its position and a rest parameter to the list of the remaining arguments, and a wrong argument count is reported; looking a variable up yields the most recently established binding of that name in the environment, assignment changes exactly that binding, and an unbound name is reported as an error.",
  PR+["inputs"], "all formals lists (fixed, dotted, symbol), all argument lists, all environments with shadowing",
  "The suite uses a few arities; arity mismatch and deep shadowing are rarely sampled.",
  [C+"eval-apply.c", C+"core.c"], [("pairlis", C+"eval-apply.c"), ("check_formals", C+"eval-apply.c"), ("assq lookup, set_env_x", C+"core.c")])

p("S11", "Numbers and characters read back as the value that was written",
  "For every fixnum, writing it gives its decimal digits with a minus sign when negative, and reading that text gives the same number; the binary, octal and hexadecimal literals (#b #o #x) denote exactly their value, with an optional sign. For every character value 0 to 255, writing it gives #\\ and its name, the character itself or its octal code, and reading that gives the same character; hexadecimal codes (#\\xAB) denote their value. An identifier is read as the symbol of exactly its characters, of any length the reader's buffer admits, a longer one is reported as an error. Reading stops right after the literal so that the following text is read next.",
  IN, "all fixnums, all literals in the four bases, all characters, all following characters",
  "tests/read.test reads a dozen literals.",
  [C+"reader.c", "lib/mes/ntoab.c"], [("reader_read_binary/octal/hex, identifier-or-number", C+"reader.c")])

p("S12", "String and character output escapes exactly what reading needs",
  "Writing a string emits its characters in order between double quotes, with exactly the characters that need it escaped, so that reading the output yields an equal string; displaying emits the raw characters; nothing is lost or duplicated for any character value. The escapes of a string literal denote \\ \" NUL and the control characters a b t n v f r e, or the value of their hexadecimal digits.",
  IN, "all strings over all 256 byte values",
  "tests/display.test and read.test use a few escapes.",
  [C+"display.c", C+"reader.c"], [("fdwrite_char, fdwrite_string_char", C+"display.c"), ("reader_read_string", C+"reader.c")])

p("S13", "Character input ports deliver their text once, in order, with push-back",
  "Reading bytes or characters from the current input port (a descriptor or a string port), or with read-char and read-string from the port given, delivers each byte of that port's text (0 to 255) exactly once and in order, then end-of-file (-1); read-string delivers all that is left. Peeking does not consume, and a character that was unread is the next one read. Reading one port changes neither another port, nor the strings that ports were opened on, nor which port is current; set-current-input-port makes exactly the given port current and gives back the one that was.",
  HI, "all texts and all interleavings of read, peek, unread and port switches",
  "tests/port? read short literal strings.",
  [C+"posix.c", C+"string.c", M+"fdgetc.c", M+"fdungetc.c"], [("peekchar/readchar/unreadchar/read_char/current_input_port/set_current_input_port/open_input_string", C+"posix.c"), ("read_string", C+"string.c")])

p("S14", "Built-in procedures reject arguments of the wrong type",
  "Applying a primitive accessor or mutator to a value of the wrong type is reported as an error and never reads or overwrites the payload of an object of another type as if it were the expected one.",
  IN, "all argument values of every object type for the checked primitives",
  "Tests only apply primitives to values of the right type.",
  [C+"core.c", C+"lib.c", C+"string.c", C+"vector.c", C+"struct.c"], [("assert_type / error calls", C)])

# ------------------------------------------------------------------ MesCC
p("M01", "Each x86_64 code-generation step computes its defined operation",
  "For all register contents and memory, the machine code that MesCC emits on x86_64 for each back-end operation (load, store, move, add, subtract, multiply, divide, remainder, and, or, xor, shifts, negation, comparisons, sign and zero extension, push, pop, swap) has exactly the effect that operation is defined to have on its operand registers and memory, and changes no other allocatable register. The emitted byte encodings are those instructions.",
  PR+["inputs"], "all back-end operations, all register operands the allocator can hand out, all immediate widths, all register and memory contents",
  "Compiler tests run a few dozen programs on fixed inputs; the operands that distinguish signed from unsigned or 32-bit from 64-bit operations are mostly not reached.",
  ["module/mescc/x86_64/as.scm", "lib/x86_64-mes/x86_64.M1"], [("instruction templates", "module/mescc/x86_64/as.scm"), ("mnemonic encodings", "lib/x86_64-mes/x86_64.M1")])

p("M02", "Each i386 code-generation step computes its defined operation",
  "For all register contents and memory, the machine code that MesCC emits on i386 for each back-end operation has exactly the effect that operation is defined to have on its operand registers and memory, and changes no other allocatable register. The emitted byte encodings are those instructions.",
  PR+["inputs"], "all back-end operations, register operands, immediates and contents",
  "The i386 back end is not run by this configuration's test suite at all.",
  ["module/mescc/i386/as.scm", "lib/x86-mes/x86.M1"], [("instruction templates", "module/mescc/i386/as.scm"), ("mnemonic encodings", "lib/x86-mes/x86.M1")])

p("M03", "MesCC-compiled programs behave as the C semantics of their source",
  "For every C program in the supported subset, the executable MesCC produces has the behaviour the C standard gives the source.",
  PR, "all programs of the supported subset, all inputs",
  "The suite compiles some hundred small programs.",
  ["module/mescc/compile.scm", "module/mescc/info.scm", "module/mescc/M1.scm"], [("expr->register, ast->info", "module/mescc/compile.scm")])

p("M04", "Integer constants are laid out little-endian at their exact width",
  "For every integer and each supported width, the byte sequence that the compiler and the Scheme bytevector routines produce is the value's little-endian two's-complement representation, and reading it back at that width yields the value modulo the width.",
  IN, "all integers at widths 1, 2, 4 and 8",
  "Tests encode a few small constants.",
  ["module/mescc/bytevectors.scm"], [("uint->bv setters", "module/mescc/bytevectors.scm")])

# ------------------------------------------------------------------ broad, outside the technique here
p("S20", "Procedure calls in tail position run in constant space",
  "A loop written as tail calls runs for any number of iterations without growing memory or stack.",
  PR+["histories"], "all tail-recursive programs", "Tests loop at most a few thousand times.",
  [C+"eval-apply.c"], [("push_cc/apply in the trampolined evaluator", C+"eval-apply.c")])
p("S21", "Continuations, exceptions and dynamic-wind unwind and resume exactly",
  "Invoking a captured continuation, throwing, or leaving and re-entering a dynamic extent resumes exactly the captured computation, running each exit and entry thunk once in order.",
  PR+["histories"], "all programs with non-local control flow", "A few control-flow patterns are tested.",
  [C+"eval-apply.c", "mes/module/mes/catch.mes"], [("call_with_current_continuation", C+"eval-apply.c")])
p("S22", "Macro expansion is hygienic",
  "Expanding syntax-rules macros never captures a user's binding and never lets a user's binding capture the macro's free identifiers.",
  PR, "all macro definitions and uses", "A handful of macros are tested.",
  ["mes/module/mes/psyntax.pp", "module/mes/psyntax.ss"], [("psyntax", "mes/module/mes/psyntax.mes")])
p("S23", "Evaluation follows the Scheme semantics for every program",
  "For every program in the supported language, evaluation yields the value and effects the Scheme report prescribes.",
  PR, "all programs", "The suite holds some hundred small expressions.",
  [C+"eval-apply.c", "mes/module/mes/boot-0.scm"], [("eval/apply machine", C+"eval-apply.c")])
p("M05", "Bootstrap compilation is deterministic and self-reproducing",
  "Compiling the same source twice, on any host interpreter, yields byte-identical output, and the interpreter compiled by MesCC running on itself reproduces itself.",
  ["configurations", "histories"], "all hosts and rebuild generations", "The suite compares no binaries.",
  ["module/mescc", "kaem.run"], [("MesCC pipeline", "module/mescc/mescc.scm")])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
