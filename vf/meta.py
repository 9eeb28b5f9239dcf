"""Writes properties.jsonl and MANIFEST.json from the definitions below (python3 vf/meta.py)."""
import json, os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

PROPS = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), technique="property-based testing", note="", hook=None, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state,
                      observe=list(observe), technique=technique, note=note, hook=hook, na=na))


RUN = "output and exit status of the potion command run on a generated program"

prop("C01", "Both back ends run a program the same way",
     "For every program inside the language both back ends implement, the native-code compiler and the bytecode interpreter print the same output, end with the same value and the same exit status.",
     ["programs"], "all programs of the common language, including ones no reference model describes",
     "The tests run a few hundred one-line expressions; the two back ends are separate code generators for about 60 instructions, and each differs by operand shape, register number and nesting that tests do not vary.",
     ["core/vm.c", "core/vm-x86.c", "core/compile.c"],
     [("one bytecode, two consumers", "core/vm.c potion_vm, potion_jit_proto"), ("native emitters", "core/vm-x86.c")], observe=[RUN],
     technique="property-based testing: differential between the two back ends over generated programs",
     note="random programs from all generators of this framework plus a token-level generator outside the reference model, bounded in size; both back ends must agree")
prop("C02", "Numbers compute exactly",
     "Every arithmetic, bitwise, shift and comparison operator yields the mathematically defined result for any two numbers: integers stay exact over their whole range and turn into doubles beyond it, doubles follow IEEE arithmetic, and results print as the number they are.",
     ["inputs"], "all pairs of operands, concentrated at the borders of the 63-bit integers, at zero, at powers of two and at operand kinds",
     "The tests use small operands and one operand order; overflow, sign, mixed kinds, constants versus variables and each back end's inline fast paths need the whole operand space.",
     ["core/number.c", "core/vm.c", "core/vm-x86.c", "core/potion.h"],
     [("inline integer paths with overflow checks", "core/vm.c PN_VM_MATH, core/vm-x86.c X86_MATH"), ("promotion to double", "core/number.c")], observe=[RUN],
     technique="property-based testing: reference number model, both back ends",
     note="operands as literals, variables, captured variables and call results; about 100 checks per case")
prop("C03", "Expressions group as the grammar says, whatever their layout",
     "An expression's value depends only on its operators' precedence and associativity: writing it with only the parentheses it needs, with all of them, with other spacing, line breaks, comments or separators gives the same value.",
     ["programs"], "all expression trees over all operators, in all layouts the grammar allows",
     "Tests fix a handful of two-operator expressions in one layout; precedence is a matter of every pair of operators at every position.",
     ["core/syntax.y", "core/compile.c"],
     [("one grammar rule per precedence level", "core/syntax.y"), ("assignment and operator AST", "core/ast.c")], observe=[RUN],
     technique="property-based testing: metamorphic printing of expression trees against a reference interpreter",
     note="trees of up to about 25 operators; the layouts include CR, CRLF, comments and continued lines")
prop("C04", "Control flow runs the statements it should, in order",
     "For every nesting of conditionals, loops, break, continue, return, exit and short-circuit operators, exactly the statements the program's meaning selects are executed, in order and as often as they should be.",
     ["programs"], "all programs of nested control structures with effects",
     "Tests contain single loops and conditionals; jump targets go wrong for nestings, empty branches and distances no test contains.",
     ["core/compile.c", "core/vm.c", "core/vm-x86.c"],
     [("jump patching", "core/compile.c potion_source_asmb"), ("jump tables of the JIT", "core/vm-x86.c")], observe=[RUN],
     technique="property-based testing: reference interpreter, both back ends", note="programs of up to about 60 statements, nesting up to 5")
prop("C05", "Closures share the variables they capture",
     "A function sees and changes the variables of the scopes it was written in, each call has its own fresh variables, and closures made in the same scope keep sharing them after it has returned.",
     ["programs", "histories"], "all programs of nested functions and all histories of calls to the closures they return",
     "Tests call one closure once or twice; sharing is a property of every interleaving of calls, over several levels of nesting and instances.",
     ["core/compile.c", "core/vm.c", "core/vm-x86.c"],
     [("weak references for captured variables", "core/compile.c, core/objmodel.c potion_ref"), ("upvalue loading", "core/vm.c OP_GETUPVAL, OP_CLOSURE")], observe=[RUN],
     technique="property-based testing: reference interpreter and call histories on shared variables", note="nesting up to 4, histories of up to 30 calls")
prop("C06", "Arguments reach their parameters",
     "Every call binds each argument to the parameter its position or name selects, evaluates the arguments once from left to right, gives omitted optional parameters their defaults, and refuses calls with too few or too many arguments before any of the body runs. A function says its parameters, how many it takes and how many it needs as they were declared.",
     ["programs"], "all signatures and all ways of calling them",
     "Tests use functions of one to three parameters; binding depends on the number of registers in use, on named arguments' order and on each kind of parameter.",
     ["core/vm.c", "core/vm-x86.c", "core/compile.c", "core/objmodel.c"],
     [("signatures", "core/objmodel.c potion_sig_arity and friends"), ("calls and named arguments", "core/vm.c OP_CALL, OP_NAMED")], observe=[RUN],
     technique="property-based testing: binding model", note="up to 12 parameters; defaults, names and arity errors in the VM, positional calls in both back ends")
prop("C07", "A compiled file runs like its source",
     "Compiling a source file to a bytecode file and running that file gives the same output and result as running the source, for every program.",
     ["programs"], "all programs and all constants they contain",
     "One test compiles one file of a few constants; encoding depends on each constant's type and length, on sizes and on the number of nested functions.",
     ["core/compile.c", "core/load.c", "bin/main.c"],
     [("dump and load of functions", "core/compile.c potion_proto_dumpbc and load"), ("constants", "core/compile.c")], observe=["output of the potion command with -c and then on the file it wrote"],
     technique="property-based testing: round trip", note="generated programs and drawn constants, strings of up to 70000 bytes")

prop("C08", "Classes, instances and methods behave by their latest definitions",
     "An object answers a message with the latest definition of that method in its class or else its nearest parent's, keeps instance variables of its own, and reports its kind, parents and abilities truthfully, however classes, objects, redefinitions and calls follow each other.",
     ["histories", "programs"], "all histories of class definitions, inheritance, method definitions, redefinitions, constructor calls, messages and writes to instance variables",
     "Tests define one class and call it once; lookup depends on the order of definitions and calls, on method caches and on how many classes and methods exist.",
     ["core/objmodel.c", "core/vm.c", "core/vm-x86.c", "core/compile.c"],
     [("method lookup and bind", "core/objmodel.c potion_bind, potion_lookup"), ("instance variables", "core/objmodel.c potion_obj_get, core/vm-x86.c potion_x86_ivars"), ("class creation", "core/objmodel.c potion_class, potion_object_new")], observe=[RUN],
     technique="property-based testing: model-based histories", note="histories of up to 40 steps with up to 12 classes and 120 methods in a class")
prop("C09", "Strings are values of text",
     "Strings behave as immutable sequences of code points: concatenation, slicing, indexing, comparison, ordering, length in code points and in bytes, conversion to numbers and printing agree with the text, whatever its length, its characters and the way it came about.",
     ["inputs", "histories"], "all strings and all histories of operations on them",
     "Tests use a handful of short strings; the outcome depends on the UTF-8 length of each character, on the borders of buffers and of collections, and on where the string was made.",
     ["core/string.c", "core/contrib.c", "core/syntax.y", "core/internal.c"],
     [("slicing and indexing", "core/string.c potion_str_slice, potion_str_at"), ("interning", "core/string.c potion_str2"), ("literals", "core/syntax.y str1, str2")], observe=[RUN],
     technique="property-based testing: model-based histories", note="histories of up to 40 operations; strings of up to a few thousand bytes")

prop("C11", "Tuples are growable sequences shared by reference",
     "Every history of tuple operations (growing and shrinking at both ends, reading and writing by index in all notations, slicing, cloning, reversing, removing, mapping, filtering, folding, joining, comparing) leaves in every tuple exactly the elements a plain list would hold, the same through all its names, while copies stay independent.",
     ["histories"], "all histories of operations on tuples of all sizes and aliases between them",
     "Tests apply each operation once to a tuple of three elements; growth, moves and sharing depend on the sequence of operations.",
     ["core/table.c", "core/compile.c", "core/vm.c", "core/vm-x86.c"],
     [("tuples", "core/table.c potion_tuple_*"), ("index notation", "core/compile.c AST_VALUE lick, OP_GETTUPLE")], observe=[RUN],
     technique="property-based testing: model-based histories against Python lists", note="histories of up to 34 steps over up to 8 names; up to about 2600 elements")
prop("C12", "Tables map each key to the value last put there",
     "After any history of insertions, overwrites and removals, of copying, filtering and turning tuples into tables, a table answers every key with the value last put under it or nil, counts its keys right, and visits each entry exactly once when it is iterated.",
     ["histories"], "all histories of operations on tables, all keys (integers, strings, booleans, nil, collections) and sizes",
     "Tests use tables of three entries; lookups go wrong for particular keys, collisions, sizes at which the table is rebuilt and orders of removal.",
     ["core/table.c", "core/khash.h", "core/table.h"],
     [("open addressing", "core/khash.h kh_put, kh_get, kh_resize"), ("methods", "core/table.c potion_table_*"), ("tuple to table", "core/table.c potion_table_cast")], observe=[RUN],
     technique="property-based testing: model-based histories against Python dicts", note="histories of up to 40 steps over up to 8 names; up to about 2000 keys")

prop("C13", "Sorting orders and keeps every element",
     "Sorting a tuple yields a permutation of its elements; for the orders it documents (ascending or descending numbers, and any order a comparison block defines) each element stands where that order puts it, whatever the length, the duplicates and the initial arrangement.",
     ["inputs"], "all tuples of comparable elements, all lengths and arrangements, all comparison functions",
     "Tests sort a few tuples of a few elements; partitioning goes wrong for particular lengths, runs, duplicates and comparators.",
     ["core/table.c", "core/number.c", "core/string.c"],
     [("quicksort and insertion sort", "core/table.c potion_tuple_sort, potion_tuple_ins_sort"), ("comparison", "core/objmodel.c potion_any_cmp, core/number.c, core/string.c")], observe=[RUN],
     technique="property-based testing: reference sort and permutation check", note="tuples of up to 400 elements; adversarial arrangements")
prop("C14", "Garbage collection cannot be observed",
     "Whenever collections happen, minor or full, every value a program can still reach keeps its contents, its identity and its sharing with other values, so the program's output does not depend on when the collector runs.",
     ["schedules", "programs", "histories"], "all programs and all allocations at which a collection may be due",
     "Tests allocate little and collect at a few fixed allocations; a missing root, write barrier or forwarding step shows only when a collection meets one particular moment of a program.",
     ["core/gc.c", "core/gc.h", "core/potion.h", "core/objmodel.c", "core/table.c", "core/string.c", "core/vm.c", "core/vm-x86.c", "core/ast.c"],
     [("copying collector with a conservative stack scan", "core/gc.c potion_mark_stack, potion_garbagecollect, potion_mark_minor, potion_mark_major"), ("write barrier", "PN_TOUCH, core/gc.c potion_gc_update"),
      ("forwarding of grown objects", "core/potion.h potion_fwd, potion_gc_realloc")],
     observe=["output of programs run under a generated schedule of collections (environment variable of the guarded hook), and with the collections which come by themselves"],
     technique="property-based testing: generated schedules of collections over generated programs, and model-based histories of object graphs", hook="POTION_GC_SCHEDULE",
     note="collections at any allocation, at least 64 KB of allocations apart; one fourth of the smallest distance without the hook; jitted programs are collected while they run, not while they are compiled, other than by themselves")


prop("C10", "Strings of equal text are one value",
     "Two strings of the same text compare equal and are the same table key, and two strings of different text do not and are not, however each was made, however many strings there are, and whatever collections ran between.",
     ["histories", "schedules"], "all ways to make strings, all numbers of strings, all collections between",
     "Tests compare a few literals; interning fails for strings of equal hash or length, when the table of strings grows, or when a collection moves or drops its entries.",
     ["core/string.c", "core/internal.h", "core/khash.h", "core/gc.c", "core/table.c"],
     [("intern table", "core/string.c potion_lookup_str, potion_add_str, core/internal.h potion_str_hash"), ("weak entries", "core/gc.c, core/string.c")],
     observe=[RUN], technique="property-based testing: model-based histories of strings under generated schedules of collections", hook="POTION_GC_SCHEDULE",
     note="strings of up to some hundred characters, up to some thousand strings")
prop("C15", "Any text is compiled or refused as a whole",
     "Whatever bytes it is given as a program, the compiler ends: it either accepts the text or refuses it with a syntax error and a failure status, without a crash, the same way from a file, to a compiled file and from the command line; no statement of a refused program runs.",
     ["inputs"], "all byte strings given as programs",
     "Tests contain valid programs only; a parser reads outside of its buffer or loops for inputs nobody wrote on purpose.",
     ["core/syntax.y", "tools/greg.c", "tools/compile.c", "core/potion.c", "core/compile.c"],
     [("PEG parser", "core/syntax.y, tools/greg.c"), ("error report", "core/syntax.y potion_parse, yyerror"), ("compiler", "core/compile.c potion_proto_compile")],
     observe=["exit status and error message of potion --check, -c and -e for generated texts"],
     technique="property-based testing: random, token-level and mutated programs against an accept-or-refuse oracle", note="texts of up to 6000 bytes; brackets at most 7 deep")


prop("C16", "Literals denote the values they spell",
     "An integer, fraction or string literal, in any of its notations and with any escape, denotes exactly the value it spells, whatever its length, wherever it stands in the source and however many other literals there are.",
     ["inputs"], "all literals, at all places of a source text",
     "Tests contain a few short literals; buffers of the reader have borders which only long or shifted literals cross.",
     ["core/syntax.y", "core/asm.c", "core/string.c", "core/number.c", "core/internal.h", "tools/compile.c"],
     [("literals", "core/syntax.y str1, str2, escu, escU, dec, hex"), ("growing buffer", "core/asm.c potion_asm_write"), ("refill of the parser", "core/syntax.y YY_INPUT, tools/compile.c yyrefill")], observe=[RUN],
     technique="property-based testing: round trip of generated values through generated notations", note="strings of up to about 6000 bytes, up to 600 constants")
prop("C17", "Data trees keep their structure",
     "A tree written in the data language gives back, by name, text, licks and attr and in its printed form, the names, texts, children and attributes it was written with, in their order, with the values expressions in it had when it was evaluated; each evaluation makes a tree of its own.",
     ["inputs", "programs"], "all trees of the data language with names",
     "Tests contain one tree of four nodes; the form of a node decides which registers it is built in.",
     ["core/lick.c", "core/compile.c", "core/syntax.y", "core/vm.c", "core/vm-x86.c"],
     [("construction", "core/compile.c AST_LICK, core/vm.c NEWLICK, core/vm-x86.c potion_x86_newlick"), ("members", "core/lick.c")], observe=[RUN],
     technique="property-based testing: generated trees against a model", note="up to 300 nodes")
prop("C18", "A continuation resumes where it was taken",
     "Calling a continuation resumes the program behind the place where it was taken, with all the calls and loops which were running there, any number of times, whether those calls are still running or have returned, and whether objects were collected in between; what was stored in objects stays.",
     ["histories", "programs", "schedules"], "all programs with continuations, all orders of taking and calling them",
     "Tests take two continuations and call each at once; a saved stack can lose words at its ends or go stale with a collection.",
     ["core/callcc.c", "core/gc.c", "core/vm.c", "core/vm-x86.c"],
     [("taking and calling", "core/callcc.c potion_callcc, potion_continuation_yield"), ("saved stacks in the collector", "core/gc.c PN_TCONT")], observe=[RUN],
     technique="property-based testing: random programs against an abstract machine with immutable frames, also under generated schedules of collections", hook="POTION_GC_SCHEDULE",
     note="up to about 200 resumptions; nesting of calls and loops up to about 12")

prop("C19", "Files keep what is written and give it back",
     "A file opened in any mode reads and writes exactly the bytes asked for at the position its handle has, values of each kind in their documented form; truncation, appending and creation follow the mode, what is not allowed or not there is an error and changes nothing, and lines read from standard input come in order and whole.",
     ["histories", "inputs"], "all histories of file operations, all contents and modes",
     "Tests write and read one short file; positions, modes and sizes matter in combination.",
     ["core/file.c"],
     [("modes and creation", "core/file.c potion_file_new"), ("reading and writing by kind of value", "core/file.c potion_file_read, potion_file_write"), ("lines", "core/file.c potion_lobby_read")], observe=[RUN, "the files afterwards"],
     technique="property-based testing: operation histories against a model of files and descriptors", note="up to about 40 operations on up to 5 handles")

prop("C20", "A buffered file is the file",
     "A stream opened by name, reopened, temporary or over bytes in memory reads and writes characters, lines and blocks exactly at its position, keeps its end-of-file state, and what was written is in the file once it is flushed or closed, for any interleaving of operations on several streams and of garbage collections; the file it names is the one it was last opened on.",
     ["histories", "inputs", "schedules"], "all histories of stream operations that C allows, all contents and modes",
     "Tests write a short file and read it back once; positions, modes, buffering and collections matter in combination.",
     ["lib/buffile.c"],
     [("stream objects", "lib/buffile.c potion_buffile_fopen, freopen, tmpfile, fmemopen"), ("reading and writing", "lib/buffile.c potion_buffile_fread, fwrite, fgets")], observe=[RUN, "the files afterwards"],
     technique="property-based testing: operation histories against a model of streams, also under generated schedules of collections", hook="POTION_GC_SCHEDULE", note="up to about 40 operations on up to 4 streams")
prop("C21", "The database gives the rows SQLite has",
     "Statements run through the database binding have the effect they have in SQLite, and every row of a query arrives once, in order, with each column's value as text or nil under its name, whether rows are collected or handed to a callback, whatever the callback allocates or queries; errors, closed and reopened databases are reported as such and change nothing.",
     ["histories", "inputs", "schedules"], "all histories of statements, rows and open or closed databases",
     "Tests fetch two rows; handles, callbacks and rows have to survive collections at any point and every kind of value.",
     ["lib/database.c"],
     [("rows by callback", "lib/database.c potion_sqlite_exec, potion_database_callback"), ("rows as tables", "lib/database.c potion_sqlite_gettable"), ("handles", "lib/database.c potion_sqlite_open, potion_sqlite_close")], observe=[RUN, "the database files afterwards"],
     technique="property-based testing: differential against Python's sqlite3 on generated statements, also under generated schedules of collections", hook="POTION_GC_SCHEDULE", note="up to 40 statements, 300 rows at a time")
prop("C23", "Loading finds the file the search path says",
     "load takes the first file along the search path, including directories added on the command line or at run time, which has the name as it is, with a known extension, or inside of a directory of that name; it runs it each time and gives its value, its definitions stay, what cannot be found is reported as nil, and the name given is left as it was.",
     ["configurations", "programs", "schedules"], "all trees of modules and search paths, all orders of loading",
     "Tests load one file by its path; the search has to be right for every tree.",
     ["core/load.c", "core/potion.c", "core/compile.c"],
     [("search", "core/load.c potion_find_file, find_extension"), ("running", "core/load.c potion_load_code, potion_load_dylib"), ("search path", "core/load.c potion_loader_init, potion_loader_add; core/potion.c -L")], observe=[RUN],
     technique="property-based testing: generated module trees against a model of the search, also under generated schedules of collections", hook="POTION_GC_SCHEDULE", note="up to 15 modules in 6 directories, up to 14 loads")

prop("C22", "Random numbers follow the seed and touch nothing else",
     "After seeding, the integers and fractions drawn are the published sequence of the generator for this seed, whatever else the program does in between, however many are drawn and however often it is seeded again. Seeding and drawing change nothing but this sequence: names, objects and tables made before and after stay different.",
     ["inputs", "histories"], "all seeds, all mixes of draws and other work",
     "Tests only call rand; a wrong twist or seed shows after hundreds of draws, a repeated identity only when names meet.",
     ["core/mt19937ar.c", "core/potion.h"],
     [("sequence", "core/mt19937ar.c init_genrand, next_state, potion_rand_int, potion_rand_double"), ("identities", "core/potion.h potion_gc_alloc")], observe=[RUN],
     technique="property-based testing: generated programs against an independent Mersenne Twister", note="up to about 10000 draws, 14 steps")
prop("C29", "Byte buffers are one object however they grow",
     "A byte buffer read, appended to, printed, compared, converted and passed around is the same sequence of bytes through every reference to it, of any length and content, however often it has grown and whenever a garbage collection moved it.",
     ["inputs", "histories", "schedules"], "all histories of operations on buffers shared between variables, collections and functions",
     "Tests append twice; growth moves the buffer at lengths and collections tests do not hit.",
     ["core/string.c"],
     [("growth", "core/string.c potion_bytes_append, pn_printf"), ("reading", "core/string.c potion_bytes_at, potion_bytes_string")], observe=[RUN],
     technique="property-based testing: operation histories against a model, also under generated schedules of collections", hook="POTION_GC_SCHEDULE", note="up to about 40 operations, buffers of some 10 KB")
prop("C34", "Numbers answer for themselves and loops count exactly",
     "A number, wherever it comes from, knows its kind, its absolute value, whole part, square root, text and order against other values exactly; times, to and step run their block once for each number of the range, in order, in either direction where allowed, nested in any way and at the ends of the integer range.",
     ["inputs", "programs"], "all numbers and all ranges, nested loops",
     "Tests count from 1 to 3; ends of the range, empty ranges and crossing zero are sampled by nothing.",
     ["core/number.c", "core/primitive.c"],
     [("conversions and tests", "core/number.c potion_num_integer, potion_num_abs, potion_num_is_integer"), ("order", "core/number.c potion_num_cmp"), ("loops", "core/number.c potion_int_times, potion_int_to, potion_int_step")], observe=[RUN],
     technique="property-based testing: generated numbers and loops against a model", note="up to 12 values, loops nested 3 deep")

prop("C35", "What a builtin cannot work with it refuses",
     "An operator, builtin or stream given a value of a kind it cannot work with, a stream that is closed or a size beyond its buffer answers with an error that names what it was given and what it wants (the few that take blocks or orders end the program with a message), whichever way the code runs. Nothing else happens: no value or file changes, a comparison ends its function there and then, and the program goes on.",
     ["inputs", "programs", "histories"], "every kind of value for every operand and argument of the listed operators and builtins",
     "Tests pass values of the right kind; every builtin has as many wrong arguments as there are kinds, and each back end its own way to look at them.",
     ["core/vm.c", "core/vm-x86.c", "core/table.c", "core/string.c", "core/number.c", "core/file.c", "lib/buffile.c"],
     [("operators", "core/vm.c PN_CHECK_NUM; core/vm-x86.c X86_MATH, X86_NUMCMP"), ("blocks", "core/table.c potion_tuple_map, potion_table_each; core/number.c potion_int_times"), ("streams", "lib/buffile.c CHECK_OPEN, CHECK_SIZES")], observe=[RUN],
     technique="property-based testing: generated uses of values of the wrong kind against a table of what each operator and builtin takes", note="up to 8 refusals in a program; 13 kinds of values, 27 builtins, 15 operators, 16 methods of streams")

prop("C33", "The code of a function can be shown, copied and called",
     "The code of every function shows the syntax tree of the text it was written as and a listing in which each jump, register, variable and constant lies within the function; copies of it, and the code read back from a compiled file, list the same. Calling the code or a copy with a tuple of arguments gives what the function gives for them, with defaults for what is missing and nil for captured variables, whatever was redefined or collected since.",
     ["programs", "histories"], "all functions, all tuples of arguments, all histories of copies, redefinitions and collections",
     "Tests show the trees of a few expressions and call no code; trees are as many as programs, and the registers and jumps of a listing depend on the size and nesting of what was compiled.",
     ["core/compile.c", "core/ast.c", "core/vm.c", "core/syntax.y"],
     [("code", "core/compile.c potion_proto_call, potion_proto_clone, potion_proto_string"), ("trees", "core/ast.c potion_source_string; core/syntax.y"), ("loading", "core/compile.c potion_proto_load, potion_proto_dump")], observe=[RUN],
     technique="property-based testing: generated functions against the trees they were written from, a binding model, and invariants of their listings", note="trees of depth 4, functions of up to 6 parameters, 10 calls")

prop("C24", "The command line does what its help says",
     "Each option acts as the help says wherever it stands before the program: the back end, what is printed, where modules are searched, which modules are loaded first and with which arguments, whether code, file or only a check or compilation is run, and the program gets exactly the words behind it as arguments, whatever they contain. What is missing, unknown or unreadable is reported, and only the compiled file is ever written.",
     ["configurations", "inputs"], "all command lines of these options, all arguments",
     "Tests use one option at a time; their order, repetition and arguments which look like options are not tried.",
     ["core/potion.c"],
     [("options", "core/potion.c main, addmodule"), ("running, checking, compiling", "core/potion.c potion_cmd_exec")], observe=["output and messages of the tool, its exit status", "files written"],
     technique="property-based testing: generated command lines against a model of the options", note="up to about 15 words; debugger, prompt and C output excepted")

prop("C25", "Evaluated code runs as a program of its own",
     "Code evaluated from a string at run time, wherever and however often, does and prints what the same program does by itself, gives the value of its last expression, shares no variables with the code around it, and the functions and values it gives remain usable, whatever is evaluated or collected afterwards.",
     ["programs", "histories", "schedules"], "all programs as strings, nested in each other, in functions, loops and blocks",
     "Tests evaluate a sum; the parser, the compiler and the running code are entered again while they are in use.",
     ["core/compile.c", "core/string.c", "core/syntax.y"],
     [("evaluation", "core/compile.c potion_eval, potion_run"), ("the parser within itself", "core/syntax.y potion_parse")], observe=[RUN],
     technique="property-based testing: generated programs within programs against the interpreter model, also under generated schedules of collections", hook="POTION_GC_SCHEDULE", note="up to 4 programs, nested 3 deep")


prop("C26", "A generated parser matches what its grammar says",
     "For every grammar (without left recursion), the parser that greg generates from it accepts exactly the inputs the grammar's rules describe, consumes as much of them as ordered choice and greedy repetition prescribe, and runs the actions of the accepted path only, in order, with the text captured for them and the values of their variables. That does not depend on how the grammar is laid out and escaped, how large its buffers start or how the input arrives.",
     ["inputs", "programs", "configurations"], "all grammars over rules, literals, classes, predicates, captures, variables, actions and error actions; all inputs",
     "Potion's own grammar is the only one the tests ever generate; a wrong class, repetition or restored position shows only in another one.",
     ["tools/greg.y", "tools/compile.c", "tools/tree.c", "tools/greg.c"],
     [("code generation", "tools/compile.c Node_compile_c_ko, Rule_compile_c2"), ("character classes and literals", "tools/compile.c makeCharClass, makeCString"), ("the parser's run time", "tools/compile.c preamble, footer")],
     observe=["output of the generated parsers"],
     technique="property-based testing: random grammars and inputs, generated parsers against a PEG interpreter", note="up to 8 rules, inputs of up to 3000 bytes, 6 parses in a row")

prop("C28", "Interpreters in one process are independent",
     "Any number of interpreters created in one process, alternating on one thread or each on a thread of its own, run their programs as if each were alone: none sees the globals, methods or classes of another, and starting, collecting or shutting one down never affects the rest.",
     ["histories", "schedules", "programs"], "all histories of creating, running and destroying interpreters, on one thread and on several at once",
     "The README promises a thread-safe and reentrant interpreter, and every test runs a single one in a process of its own.",
     ["core/internal.c", "core/potion.h", "core/gc.c", "core/load.c", "core/vm.c"],
     [("creation and destruction", "core/internal.c potion_create, potion_destroy"), ("a heap per interpreter", "core/gc.c potion_gc_boot, potion_gc_release"), ("per-interpreter names", "core/potion.h struct PNNames")],
     observe=["output of a process that embeds the interpreter"],
     technique="stateful property-based testing: histories over interpreters, alternating and in parallel threads, against the interpreter model", note="up to 6 interpreters or 8 threads, random thread schedules of the operating system")


prop("C30", "Memory follows what a program holds, not how long it has run",
     "A program whose live values stay bounded can run any number of turns in bounded memory: whatever kinds of values it makes and drops, and however it keeps, replaces and removes the others, the memory it needs after many turns is that of a few.",
     ["programs", "histories"], "all loops over generated statements that make, keep, replace and drop values of every kind; all numbers of turns",
     "A leak or a table that only grows passes every test: the tests' programs end long before it matters.",
     ["core/gc.c", "core/khash.h", "core/table.c", "core/string.c", "core/file.c"],
     [("collection", "core/gc.c potion_gc_major, potion_gc_minor"), ("rebuilding of tables", "core/khash.h kh_resize_"), ("dead strings leave the string table", "core/gc.c, core/string.c")],
     observe=["peak resident memory of the process"],
     technique="property-based testing: generated loops, metamorphic relation between the peak memory of a short and of a long run", note="up to 600000 turns; leaks of fewer than about 15 bytes a turn are not seen")


prop("C36", "A host program in C and the language share their values",
     "A program which embeds the interpreter can build texts, numbers, tuples, tables, byte buffers, classes, objects and functions through the C interface, read them back, hand them to code it evaluates on either back end and call what that code defines. Each value, read on either side, is the one last stored there, the functions given in C get exactly the arguments of their calls (with the defaults their signatures state), and signatures say what was declared; whatever was collected, minor or full, at any point between.",
     ["histories", "programs", "schedules"], "all histories of calls of the C interface and evaluated code, all schedules of collections",
     "The C tests make a handful of values in fresh interpreters; mixtures, ageing of values over collections and values crossing between C and the language are not tried.",
     ["core/potion.h", "core/internal.c", "core/objmodel.c", "core/table.c", "core/string.c", "core/gc.c", "core/vm.c"],
     [("values", "core/string.c potion_str2, potion_str_format, potion_bytes_append; core/table.c potion_tuple_push, potion_tuple_put, potion_table_set"), ("classes and functions", "core/objmodel.c potion_class, potion_object_new, potion_closure_new; core/internal.c potion_sig, potion_define_global"),
      ("calls both ways", "core/vm.c potion_call, potion_vm; core/compile.c potion_eval"), ("write barrier and collections", "core/gc.c, core/gc.h PN_TOUCH")],
     observe=["output of a host program linked with the library and driven by a script"],
     technique="property-based testing: generated histories of the C interface against a model of the values, also under generated schedules of collections", hook="POTION_GC_SCHEDULE", note="up to 120 operations on 20 values; functions called with all their arguments from C")

prop("C32", "The prompt reads the line that was edited and answers it",
     "At a terminal, each line read is the one which the keys typed so far make of it, typed, moved, deleted, swapped, or recalled and changed from the history, and the terminal shows this line and its cursor. "
     "The history holds the latest hundred lines of this and earlier sessions, each once, in order. The interactive prompt evaluates every line in turn as a program of its own which sees the globals of the lines before, and prints its value or its error.",
     ["inputs", "histories"], "all sequences of keys, lines and sessions, all widths of the terminal",
     "There is no test of the line editor or the prompt at all: both need a terminal.",
     ["lib/readline/readline.c", "lib/readline/linenoise.c", "core/potion.c"],
     [("keys", "lib/readline/linenoise.c linenoisePrompt"), ("display", "lib/readline/linenoise.c refreshLine, getColumns"), ("history", "lib/readline/linenoise.c linenoiseHistoryAdd, linenoiseHistoryLoad, linenoiseHistorySave; lib/readline/readline.c pn_readline"),
      ("prompt", "core/potion.c main, the loop of the prompt")],
     observe=["lines returned, contents of the terminal, history.txt, output of the prompt"],
     technique="property-based testing: generated sessions on a pseudo terminal against a model of the editor, its display and its history, and of the values each line has", note="lines edited by keys are ASCII; sessions of up to 110 lines, lines up to the editor's limit of 4095 bytes")

def manifest():
    checks, na = [], []
    for p in sorted(PROPS, key=lambda p: p["id"]):
        i = p["id"]
        if p["na"] or not os.path.exists(os.path.join(VERIF, "vf/checks/%s.py" % i.lower())):
            na.append({"property": i, "reason": p["na"] or "no check has been built for it yet"})
            continue
        checks.append({"property": i, "quick_cmd": "python3 vf/check.py %s quick" % i, "thorough_cmd": "python3 vf/check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": p["technique"], "level": "exploration",
                       "level_note": p["note"] or "generated cases, bounded in size; see DESIGN.md"})
    return {"version": 1, "hooks": {"guard": "POTION_GC_SCHEDULE", "enable": "vf/build.py compiles a second build of the tree with -DPOTION_GC_SCHEDULE; its collections are set by the environment variable of that name",
                                    "source_commits": ["c1ab14e4ac88a00444868bbb2661b25a376c4ae4"]},
            "setup_cmd": "python3 vf/build.py", "checks": checks, "not_applicable": na}


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in sorted(PROPS, key=lambda p: p["id"]):
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
            if p["state"]:
                a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
            a["observe_at"] = p["observe"]
            a["hook_needed"] = p["hook"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
            assert len(p["title"]) <= 80, p["title"]
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(manifest(), f, indent=1)
        f.write("\n")
    import jsonschema
    for l in open(os.path.join(VERIF, "properties.jsonl")):
        jsonschema.validate(json.loads(l), json.load(open("/root/.vp/PROPERTIES.schema.json")))
    jsonschema.validate(json.load(open(os.path.join(VERIF, "MANIFEST.json"))), json.load(open("/root/.vp/MANIFEST.schema.json")))


if __name__ == "__main__":
    main()
