"""What each check builds and runs. See DESIGN.md for what each decides."""
import os
import subprocess


def _lib(n):
    return os.path.realpath(subprocess.run(["g++", "-print-file-name=" + n], stdout=subprocess.PIPE, text=True).stdout.strip())


PRELOAD = _lib("libasan.so") + " " + _lib("libubsan.so")

PROPS = {
    "C01": {
        "bins": [{"name": "tq", "src": "tq.cpp"}],
        "technique": "model-based property testing (histories against std::deque), coverage-guided, shrinking",
        "note": "random and coverage-guided histories; the element type is a plain pointer",
        "rule": "random histories (push, emplace, pop, writes through front/back, copy/move "
                "construction and assignment incl. self, swap, the six comparisons, draining a "
                "copy; in another property chosen allocations fail) over three queues against std::deque; a case is non-trivial when a queue "
                "held more than one element and content was copied, moved or swapped between queues",
        "assumptions": ["elements are opaque pointers; comparisons use the pointers' order"],
    },
    "C02": {
        "bins": [{"name": "json_rt", "src": "json_rt.cpp"}],
        "technique": "property-based round-trip testing with white-space metamorphic relation, coverage-guided, shrinking",
        "note": "values of 45 types; floating point compared to the six decimals that are written",
        "rule": 'values of 45 types are generated, written, checked with an independent reader of the text, parsed back, compared, and parsed again after white space is changed; in another property chosen allocations fail; non-trivial: the text has more than 4 characters / the container more than one element',
        "assumptions": ['floating point values are finite and of a magnitude whose six decimals are exact to compare', 'the quoted text "null" in an optional string is a recorded finding'],
    },
    "C03": {
        "bins": [{"name": "json_str", "src": "json_str.cpp"}],
        "technique": 'property-based round-trip and reference-unescape testing of byte strings in every position, coverage-guided, shrinking', "note": 'byte strings of up to some dozens of bytes, seldom 400', "rule": 'byte strings are put, raw or escaped, as elements, keys, fields and dispatch texts among other tokens, and compared with a reference unescaper; non-trivial: the string contains a character that needs an escape',
    },
    "C04": {
        "bins": [{"name": "json_any", "src": "json_any.cpp"}],
        "technique": 'differential fuzzing against a reference decoder (structure- and mutation-based generators, coverage-guided), sanitizers, leak oracle, shrinking', "note": 'reference decoder written from the documented grammar; texts the documentation leaves open only need to terminate cleanly', "rule": 'texts made of random bytes, random tokens, valid texts and mutations of valid texts are parsed into 40 target types and compared with a reference decoder (must accept with this value / must reject with an error / unspecified); in other properties chosen allocations fail and the result is compared with the one without failures; non-trivial: the text has more than two bytes',
        "assumptions": ['numeric prefixes such as 12abc or 1.5 for an integer, a minus sign for unsigned, unknown object fields and duplicate fields are unspecified'],
    },
    "C06": {
        "bins": [{"name": "json_arr", "src": "json_arr.cpp"}],
        "technique": 'metamorphic property-based testing (list against index map), defect injection, coverage-guided, shrinking', "note": 'sequences of up to some dozens of elements, seldom thousands', "rule": 'random sequences written as a list and as an index map in random order must read equal; a hole, repeated, bad or huge index at a random place must be rejected; non-trivial: indices are permuted / a defect is present',
    },
    "C05": {
        "bins": [{"name": "json_obj", "src": "json_obj.cpp"}],
        "technique": 'property-based testing of record texts against a field model, round trips, coverage-guided, shrinking', "note": 'five declared record shapes (C25 generates declarations)', "rule": 'records are written with the fields in random order, subsets, unknown fields, names at any place and random white space, parsed and compared with the model; non-trivial: fields are permuted, or a name is dispatched',
    },
    "C07": {
        "bins": [{"name": "diag", "src": "diag.cpp"}],
        "technique": 'model-based property testing of insertion histories and JSON round trips, coverage-guided, shrinking', "note": 'formats %s, %d and plain texts, plus formats vsnprintf refuses', "rule": 'random insert/clear/swap histories are compared with a list of expected messages, and collections are written and read as JSON; in another property chosen allocations fail; non-trivial: more than two insertions and a swap, or a JSON round trip of a non-empty collection',
    },
    "C08": {
        "bins": [{"name": "eq_solve", "src": "eq_solve.cpp"}],
        "technique": "differential property-based testing against an independent exact solver (rational propagation and congruences), coverage-guided, shrinking",
        "note": "up to 7 variables and 6 equations (seldom a sparse system of dozens) whose elimination stays far from overflow",
        "rule": "random systems (trees, forests, cycles, repeated variables, zero coefficients, planted and arbitrary constants) are solved; the returned description is checked symbolically for soundness and, with the reference's lattice of solutions, for completeness; non-trivial: at least two equations, or an inconsistency after the first one",
        "assumptions": ["no overflow: systems whose elimination exceeds 2^50 (2^22 for int) are cut"],
    },
    "C09": {
        "bins": [{"name": "eq_inst", "src": "eq_inst.cpp"}],
        "technique": "model-based property testing of instantiation, coverage-guided, shrinking",
        "note": "from 1 to 80 rows; shapes with 0 to 3 guards, 0 to 2 inverse guards and 0 to 3 computed monomials",
        "rule": "random systems with guards and computed monomials are instantiated with random values and compared with a reference filter, then solved and compared with the reference solver; for some equations chosen allocations fail; non-trivial: some equation is discarded and two are kept",
    },
    "C10": {
        "bins": [{"name": "eq_gcd", "src": "eq_gcd.cpp"}],
        "technique": "property-based testing against the definition in 128-bit arithmetic, coverage-guided, shrinking",
        "note": "boundary-biased pairs of signed integers of 8 to 64 bits",
        "rule": "boundary-biased, common-factor, Fibonacci and multiple pairs; gcd compared with an independent gcd and the Bezout identity evaluated in 128 bits; non-trivial: both are non-zero and neither divides the other",
    },
    "C15": {
        "bins": [{"name": "chain", "src": "chain.cpp"}],
        "technique": "model-based property testing (histories against lists), coverage-guided, shrinking",
        "note": "up to 10 nodes and 40 operations (seldom 60 and 150), one or two chains through a node",
        "rule": "random splice, merge and cut operations (through traits and iterators, next to each other and across chains, null included) against lists of identifiers, all links and random walks compared after every step; non-trivial: more than two operations on already linked nodes",
        "assumptions": ["merging that would close a ring is not done"],
    },
    "C14": {
        "bins": [{"name": "redirect", "src": "redirect.cpp",
                  "libs": ["-Wl," + ",".join("--wrap=" + x for x in "fopen dup2 fgetc fflush fseek ftell fread fclose".split())]}],
        "technique": "model-based property testing (histories against a model of the files), coverage-guided, shrinking",
        "note": "real files in a scratch directory, two objects, up to 25 operations",
        "rule": "random histories of writes (any bytes, sizes around buffer boundaries), diff(), isDiff(), position changes, redirection and re-redirection (append, rewrite, failing), moves and destruction against a model of the files; open descriptors and heap compared afterwards; input redirected from existing and missing files is read in pieces; histories in which chosen file operations fail; chosen allocations fail; non-trivial: at least two writes and two diff() calls, or two reads",
        "assumptions": ["what diff() returns for redirected input is not specified", "one writer at a time; a file is not redirected to twice at once"],
    },
    "C16": {
        "bins": [{"name": "trait_desc", "gen": "gen_trait.py", "parts": 8}],
        "technique": "model-based property testing of operation histories over generated declarations, coverage-guided, shrinking",
        "note": "8 fixed and 4 (thorough 10) generated shapes of up to 9 traits, and one of 61 to 64 traits",
        "rule": "histories of set, unset, unset_group, copy, trait::set/unset/update over several descriptors of generated shapes against a set of traits whose conflicts are computed from the declaration; non-trivial: a conflicting trait was displaced in a descriptor that holds other traits / several traits were transferred",
        "assumptions": ["setting several traits that conflict with each other only has to leave a conflict-free descriptor and the unrelated traits alone"],
    },
    "C17": {
        "bins": [{"name": "trait_set", "gen": "gen_trait.py", "parts": 8, "genargs": ["--what", "set"]}],
        "technique": "model-based property testing of ownership histories over generated declarations with a registry of live values, coverage-guided, shrinking",
        "note": "4 fixed and 3 (thorough 9) generated shapes, std::map and std::unordered_map as storage",
        "rule": "histories of set, unset, release, assignment and moves over three trait sets, with a registry of live values; after every step the live values are exactly those owned; non-trivial: at least two owned values were destroyed by operations",
        "assumptions": ["a set that was moved from is only destroyed or assigned", "a value is handed to a set once"],
    },
    "C18": {
        "bins": [{"name": "cell", "gen": "gen_cell.py", "parts": 8}],
        "technique": "model-based property testing of operation histories over generated map declarations, coverage-guided, shrinking",
        "note": "fixed and generated key lists of up to 10 keys; values of arithmetic, string, vector, move-only and move-tracking types",
        "rule": "histories of stores, visits, copies, moves and transfers over maps of generated shapes against one integer per key; non-trivial: a map of several keys was copied or moved at least twice, or maps with several common keys exchange them",
        "assumptions": ["a map that is default constructed holds unspecified values until they are stored"],
    },
    "C19": {
        "bins": [{"name": "list", "gen": "gen_list.py", "parts": 8, "opt": "-O0"}],
        "technique": "property-based testing over generated programs (lists of types) against the same operations on vectors",
        "note": "28 (thorough 60) lists over 7 types and all (thorough 1500) pairs of them",
        "rule": "a program with generated lists of types is compiled, the results of the compile-time operations are turned into numbers and compared with the operations on vectors of numbers; non-trivial: a list with repetitions, a pair whose intersection is neither empty nor everything",
        "assumptions": ["which of repeated types RemoveDuplicate keeps is not specified"],
    },
    "C20": {
        "bins": [{"name": "tag", "gen": "gen_tag.py", "parts": 8}],
        "technique": "model-based property testing of access histories over generated declarations, coverage-guided, shrinking",
        "note": "fixed and generated declarations of up to 8 elements with up to 3 tags",
        "rule": "histories of accesses by tag, visits, copies, moves and assignments from plain tuples over generated tagged tuples and pairs against one integer per element; non-trivial: several elements, with a write by tag and a copy or a move",
    },
    "C21": {
        "bins": [{"name": "marray", "src": "marray.cpp"}],
        "technique": "model-based property testing (histories against a flat vector per array), coverage-guided, shrinking",
        "note": "ranks 1 to 6 (subscripts: 2 to 6), up to five arrays, up to 25 operations, elements int, char, string and a counted type",
        "rule": "random sizes (zero and one long dimension included) and histories of creation, stores, moves, self-moves and destruction; after every step the address and the value of every element of every array and the number of live elements are compared; non-trivial: several stores and a move",
        "assumptions": ["an array that was moved from is only assigned or destroyed", "indices are within the sizes"],
    },
    "C22": {
        "bins": [{"name": "pair", "src": "pair.cpp", "parts": 8}],
        "technique": "property-based testing (round trip over all combinations of integer types) with memory checking, coverage-guided, shrinking",
        "note": "8 types of each part by 8 types of the word (16 to 128 bits, pointers)",
        "rule": "boundary-biased pairs for 512 combinations of types in exactly sized heap objects; success is compared with 'both fit the half', restored values with the originals; non-trivial: packed, not both zero, and the two values differ",
        "assumptions": ["a part narrower than the half is restored into an unsigned type as wide as the half (narrower targets are rejected at compile time)"],
    },
    "C23": {
        "bins": [{"name": "util", "src": "util.cpp"}, {"name": "util_ct", "gen": "gen_util.py", "opt": "-O0"}],
        "technique": "property-based testing against definitions evaluated in 128-bit arithmetic and on byte strings, and over generated programs for compile-time helpers, coverage-guided, shrinking",
        "note": "all integer types, bases up to the maximum of the type, texts up to 2000 bytes, objects of 1 to 300 bytes; 69 (thorough 409) literals, 182 (1202) lists of types",
        "rule": "boundary-biased arguments and structured ones (powers of the base, multiples of powers, their neighbours) compared with digits written out; non-trivial: more than one digit with low zeros, texts with quotes, different regions, lists of several types",
        "assumptions": ["bases are at least 2; digits of a negative number are those of its magnitude; the single digit of 0 counts as a low-order zero"],
    },
    "C24": {
        "bins": [{"name": "valueptr", "src": "valueptr.cpp"}],
        "technique": "model-based property testing (histories of container operations), coverage-guided, shrinking",
        "note": "vector, deque and list of up to 40 wrappers of int, string, unique_ptr and a self-checking type, up to 40 operations",
        "rule": "histories of insertions, erasures, swaps, moves out and back, replacement, sorting, reversal and growth; after every step each outer pointer must lead into the wrapper of its own value; non-trivial: at least two relocating operations and two live values",
        "assumptions": ["wrappers are movable only; a wrapper that was moved from is only assigned or destroyed"],
    },
    "C28": {
        "bins": [{"name": "adapt", "src": "adapt.cpp"}],
        "technique": "model-based property testing (positions and data; element lists; plain pairs), coverage-guided, shrinking",
        "note": "adaptors over vector, list and map with integer and string data; tuples of 0 to 9 elements; convertible pairs of 5 pairs of types",
        "rule": "histories of steps, copies and changes of up to six adaptors over a container against (position, data); visits and argument forwarding of tuples against the list of elements; conversions and assignments of pairs against the plain pair; non-trivial: several adaptors that moved, tuples of several elements, pairs that differ in both elements",
    },
    "C27": {
        "bins": [{"name": "text", "src": "text.cpp"}],
        "technique": "property-based testing against the standard library with memory checking, coverage-guided, shrinking",
        "note": "all kinds of int values, texts of up to 60 narrow or wide characters, buffer sizes around the length",
        "rule": "boundary-biased integers and neighbours of powers of ten; texts copied from and to exactly sized heap buffers; non-trivial: several digits, a buffer that is just enough or one too small",
        "assumptions": [],
    },
    "C11": {
        "bins": [{"name": "conn", "src": "conn.cpp", "plain": ["pbt_sched.cpp"]},
                 {"name": "conn_tsan", "src": "conn.cpp", "plain": ["pbt_free.cpp"], "san": "tsan", "nocov": True}],
        "technique": "property-based testing of thread schedules (deterministic scheduler that replaces the pthread functions, schedule on the choice tape) against a queue of requests, coverage-guided, shrinking",
        "note": "one to three connections, up to 8 deliveries of up to 4 requests each",
        "rule": "random deliveries (requests cut or joined arbitrarily), delimiters, answers and applications under random, priority-based and preempting schedules; requests seen and bytes sent are compared with the model; a state where no thread can go on is a deadlock; the same inputs also run freely under the thread sanitizer; non-trivial: several requests and at least one preemption",
        "assumptions": ["each delivered message is split on its own; with the NUL delimiter requests hold no NUL and a NUL after an answer is not specified"],
    },
    "C12": {
        "bins": [{"name": "conn_end", "src": "conn_end.cpp", "plain": ["pbt_sched.cpp"]},
                 {"name": "conn_end_tsan", "src": "conn_end.cpp", "plain": ["pbt_free.cpp"], "san": "tsan", "nocov": True}],
        "technique": "property-based testing of thread schedules (deterministic scheduler that replaces the pthread functions, schedule on the choice tape) with memory checking, coverage-guided, shrinking",
        "note": "one to three connections, abandonment after any number of answers in four ways, close at any point",
        "rule": "as C11 with applications that abandon the connection (return, destroy a moved object, assignment) and with two connections assigned to each other; use after release is reported also inside of the synchronisation functions; non-trivial: requests are rejected, or the end is reported, with at least one preemption",
        "assumptions": ["the close callback is called once, after the last delivery"],
    },
    "C13": {
        "bins": [{"name": "sock", "src": "sock.cpp", "plain": ["pbt_sched.cpp", "pbt_net.cpp"], "extra": ["$REPO/lib/Socket/CSocket/CSocket.cpp"]},
                 {"name": "sock_real", "src": "sock_real.cpp", "san": "tsan", "nocov": True, "extra": ["$REPO/lib/Socket/CSocket/CSocket.cpp"]}],
        "technique": "property-based testing of the server on a simulated network with fault injection under a deterministic scheduler, coverage-guided, shrinking",
        "note": "one to five clients",
        "rule": "one to five clients (concurrent or one after another) with random writes and waits, that end, close or reset their connections; the socket calls of the server work on a simulated network that chooses what recv() returns, whether send() takes a part, and which call fails (start, accept, getsockname, recv, send, close); five applications, one with IntrusiveConnection; data, answers, events, limit, descriptors and threads are compared with what the network has recorded, a state where nobody can go on is a deadlock; in addition, clients on the loopback interface against the server under the thread sanitizer; starting a thread fails, listeners throw; non-trivial: several clients, one with several pieces of data (loopback: several clients)",
        "assumptions": ["IPv4; buffer of at least one byte; valid ports", "calls are not interrupted by signals, but send() may take a part of the data", "listeners are registered by createServer()", "how the end is reported after a failed send outside of a receive listener is not specified"],
    },
    "C25": {
        "bins": [{"name": "macro", "gen": "gen_macro.py", "parts": 8, "opt": "-O0"},
                 {"name": "macro_script", "gen": "gen_macro.py", "genargs": ["--script"], "parts": 8, "opt": "-O0", "inc": ["gen/macros"]}],
        "technique": "property-based testing of generated programs (random declarations of every arity) against the declaration",
        "note": "every arity from 1 to 30, sub-objects and top-level objects",
        "rule": "a program is generated with a record of every number of fields (1 to 30, declared as a whole or in parts, inside or outside namespaces, as sub-object and as top-level object, types with and without commas, other records as types, names that are prefixes of each other); per case values are generated and every field is checked for its type, position, storage, initialiser, copy, written text and reading of the fields in any order and with one field replaced by one of a resembling but undeclared name; non-trivial: at least three fields",
        "assumptions": ["field names other than name, Base, ValueType and the members of bcl::StaticMap", "values are set before they are read or copied"],
    },
    "C26": {
        "bins": [{"name": "node", "src": "node.cpp", "nocov": True,
                  "flags": ["-DNODE_JS=\"$HERE/harness/node_run.js\"", "-DNODE_PRELOAD=\"" + PRELOAD + "\""],
                  "so": [{"name": "bclSocket.node", "flags": ["-std=gnu++20", "-I/usr/include/node"],
                          "srcs": ["$HERE/harness/node_srv.cpp", "$REPO/lib/Socket/NodeJSSocket/NodeJSSocket.cpp"]}]}],
        "technique": "model-based property testing (histories of connections in a real Node.js process under AddressSanitizer), shrinking",
        "note": "the add-on is loaded by the installed Node.js; up to 4 connections at once, up to 28 operations; garbage collections at chosen points; connections of the loop-back interface",
        "rule": "histories of connecting (also with wrong arguments), starting servers that register listeners and answer, data of any bytes in all kinds of byte arrays, wrong data, closing, dropping the connection object and collecting garbage (also between two listeners of a close) against a sequential model; pieces of data over real connections; growth of memory; non-trivial: at least two data events with listeners, two bytes over a real connection",
        "assumptions": ["sent messages are well-formed UTF-8 (a JavaScript string cannot hold other bytes)", "startServer is called once per connection", "close is the last event of a connection", "the JavaScript send function does not throw"],
    },
    "C29": {
        "bins": [{"name": "legacy", "gen": "gen_legacy.py", "parts": 8}],
        "technique": "model-based property testing of operation histories over generated collections, trees and logical expressions, coverage-guided, shrinking",
        "note": "5 fixed and 3 (thorough 10) generated collections and 7 (thorough 20) trees of up to 12 keys, 5 (thorough 14) lengths of the macros including 100",
        "rule": "a program with generated declarations is compiled; histories of stores, visits, copies and transfers are compared with one number per key; compile-time answers are compared with the generator's; non-trivial: something with several keys was copied, a transfer has common and different keys, an object was deleted through a cell",
        "assumptions": ["keys of one collection or tree are different; Utility::IObject cannot be instantiated and is not covered"],
    },
    "C30": {
        "bins": [{"name": "errors", "gen": "gen_errors.py", "opt": "-O0"}],
        "technique": "property-based testing over generated declarations of applications and errors against a numbering computed by the generator, shrinking",
        "note": "12 (thorough 28) applications with up to 5 trees of errors of depth 4, used by each other",
        "rule": "a program with generated applications is compiled; errors are thrown, caught and described, and compared with the numbering and the texts the generator computed; non-trivial: a suberror, or an error seen by an application that uses the one it belongs to",
        "assumptions": ["an application is used at most once within another one; siblings are different"],
    },
    "C31": {
        "bins": [{"name": "value", "src": "value.cpp"}],
        "technique": "model-based property testing of histories against std::optional, coverage-guided, shrinking",
        "note": "values of integer, floating point, boolean, text, vector and pointer types; up to 20 operations",
        "rule": "random histories of assignments, copies, conversions and comparisons over three weak and two strong values; non-trivial: a value was made undefined, copied, and refused by a strong one (pointers: made undefined and copied)",
        "assumptions": ["ordering comparisons with an undefined value are false, as the code says; a strong value is given a value before it is read"],
    },
    "C32": {
        "bins": [{"name": "lexer", "src": "lexer.cpp"}],
        "technique": "model-based property testing of lexer histories against a reference tokenizer, differential testing of a custom type against a reference reader, coverage-guided, shrinking",
        "note": "texts of up to some hundred bytes, histories of up to 30 operations",
        "rule": "random histories of moves, jumps, nested store and restore, checks, skips and counting of keys over well-formed, damaged and arbitrary texts are compared with a model after every operation; a custom type that holds any text is parsed and compared with a reference reader; non-trivial: more than two tokens were visited / the text is a compound one",
        "assumptions": ["where skipping or counting meets an ill-formed inner value, only an error or the matching bracket is demanded"],
    },
    "C33": {
        "bins": [{"name": "headers", "src": "headers.cpp", "nocov": True}],
        "technique": "property-based testing over generated programs (selections and orders of headers in several translation units, two compilers), shrinking",
        "note": "up to fourteen headers in a unit, up to four units; gcc 13 and clang 18 with libstdc++, C++17 and C++20",
        "rule": "random programs whose translation units include two or three of the 27 headers alone and together with others in a random order, and use each of them, are compiled, linked and run; non-trivial: more than two headers meet in one unit",
        "assumptions": ["GCC 13 or clang 18, libstdc++, C++17 and C++20"],
    },
    "C34": {
        "bins": [{"name": "pkg", "src": "pkg.cpp", "nocov": True}],
        "technique": "stateful property-based testing of histories of configuration steps and consumers against a model of the options, shrinking",
        "note": "up to three configuration steps, Linux, CMake 3.28 with Ninja and Makefiles; CMake code itself is the unit under test, no coverage feedback",
        "rule": "random options (each default, ON or OFF) in up to three configuration steps, both generators; the package is found in an installation, a moved installation, the build tree or as a subdirectory (also twice), and a consumer is configured, built and run; non-trivial: more than one step or not simply installed",
        "assumptions": ["CMake 3.28, GCC 13, Linux"],
    },
    "C35": {
        "bins": [{"name": "cmod", "src": "cmod.cpp", "nocov": True}],
        "technique": "model-based property testing of histories of calls (lists of options, apply/reverse round trips of patches), shrinking",
        "note": "CMake 3.28, GNU patch and git, Linux; CMake code itself is the unit under test, no coverage feedback",
        "rule": "random lists of options (also with characters that regular expressions give a meaning) and histories of bcl_append and bcl_replace against a model; random files and patches, histories of bcl_patch that apply and reverse them, also where they do not fit; non-trivial: something is replaced, or a patch does not fit or is not the first",
        "assumptions": ["CMake 3.28, GNU patch 2.7, git, Linux"],
    },
}

NOT_APPLICABLE = {}
