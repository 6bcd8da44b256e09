#!/usr/bin/env python3
"""Source of properties.jsonl: python3 tools/properties.py > properties.jsonl"""
import json
T = "the only tests in the tree (test/tq) compare a few one- to three-element transparent queues; "
P = []
def p(i, title, st, over, q, why, files, mech, state=None, obs=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if obs: a["observe_at"] = obs
    a["hook_needed"] = None
    assert len(title) <= 80, (i, len(title))
    P.append({"id": i, "title": title, "statement": st, "quantifier": {"over": over, "text": q},
              "why_tests_cant": why, "anchors": a})

p("C01", "Single-element-optimised queue behaves as a FIFO of pointers",
  "For every history of operations, a transparent queue holds exactly the pointers that an ordinary FIFO queue would hold, in the same order: size, emptiness, first and last element, what each pop returns (null when empty), and the six lexicographical comparisons all agree with it, whatever its internal representation. Copying leaves the source unchanged and independent, moving empties the source, swapping exchanges the contents, and self-assignment changes nothing. An operation that runs out of memory throws and leaves every queue as it was. No storage is leaked or freed twice.",
  ["histories", "inputs"], "every sequence of construction, push, emplace, pop, element access, copy, move, swap and comparison over several queues, crossing the one-element/many-element representations in both directions",
  "the five tests only compare freshly built queues of at most three elements and never assign, move, swap, emplace or drain a queue, nor mix representations",
  ["include/bcl/transparent_queue.h"], [("representation switch in push/emplace", "TransparentQueue::push, emplace"), ("special members and swap", "TransparentQueue copy/move/assignment/swap"), ("mixed-representation comparisons", "operator==, operator<")],
  [("mIsSingle/mIsEmpty", "which union member is live and whether it holds an element", "TransparentQueue")], ["pop(), front(), back(), size()"])

p("C02", "A value written as JSON text reads back as the same value",
  "For every supported value type (integers, floating point, booleans, characters, strings, pointers to them, sequences, sets, maps, multimaps, optionals, fixed records and any nesting of these) and every value of it, writing the value as JSON and parsing that text succeeds without errors and yields an equal value (floating point to the six decimals that are written). Inserting or removing white space between tokens, before the first and after the last one does not change what is read. If memory runs out, writing or reading fails, never with another value, and nothing is leaked.",
  ["inputs"], "every value of every supported type, in particular strings with any bytes (quotes, backslashes, slashes, control characters, NUL), extreme numbers, empty containers, nested containers",
  T + "none of them touches JSON", ["include/bcl/Json.h", "include/bcl/utility.h", "include/bcl/cell.h"],
  [("per-type conversions", "json::Traits<...>::parse/unparse"), ("string escaping", "Traits<std::string>::escape/unescape"), ("tokeniser", "Lexer::goToNext"), ("container traversal", "Parser<>::traverse, numberOfKeys")], None, ["Parser<>::unparse(), Parser<>::parse(), errors()"])

p("C03", "JSON strings keep their exact bytes and their boundaries",
  "A quoted string ends at the first quote that is not escaped, where a backslash escapes the next character (also another backslash); the escapes n, t, v, f, r, quote and backslash denote their characters, and every other byte denotes itself. Escaping an arbitrary byte string, embedding it as a value or as a key at any place of a text and reading it back gives the same bytes and leaves the neighbouring tokens intact.",
  ["inputs"], "every byte string, in every position of an object or array, next to every kind of neighbour token",
  T + "no string is ever tokenised", ["include/bcl/Json.h"],
  [("quote/escape recognition", "Lexer::goToNext, isEscape"), ("unescape/escape", "Traits<std::string>")], None, ["Parser<>::parse()"])

p("C04", "Arbitrary text is parsed or cleanly rejected, never mis-accepted",
  "For every byte string and every target type, parsing terminates without memory errors, leaks or escaping exceptions and either succeeds or fails with at least one recorded error. A text is accepted only if it is structurally well formed as a whole (balanced brackets and braces, terminated strings, separated elements, quoted keys, nothing after the value) and its values fit the target type; an accepted value, written and parsed again, is the same value. If memory runs out, the text is rejected or the shortage is thrown; nothing is accepted that would be rejected or read as another value otherwise, and the same parser can parse on.",
  ["inputs"], "every byte string (random, mutated from valid texts, or built from JSON tokens in any order) and every supported target type",
  T + "malformed texts are not tried at all", ["include/bcl/Json.h", "include/bcl/Diagnostic.h"],
  [("token checks", "Lexer::checkSpecial, checkIdentifier, checkValue"), ("error recording", "Lexer::errors, Diagnostic::insert"), ("garbage collection on errors", "Traits<Ty *>::parse, Traits<char *>::parse")], None, ["Parser<>::parse(), errors(), hasErrors()"])

p("C05", "JSON objects: every field by its name, dispatch by object name",
  "A record parsed from text gets in each field exactly the value written under that field's name, whatever the order of the fields and the white space; absent fields keep their value, unknown fields with scalar values are ignored, and a record survives writing and reading. For texts that carry an object name, wherever the name stands among the fields, the parser builds exactly the declared object type of that name, or none when no declared type has it; an object without a name is reported as such; and writing an object together with its name and parsing it back selects the same type with equal fields.",
  ["inputs", "configurations"], "every permutation and subset of fields, every placement of the name, every set of declared object types (including names that are prefixes of each other), every field content",
  T + "no JSON object is ever declared", ["include/bcl/Json.h", "include/bcl/cell.h", "include/bcl/JsonObjectMacros.h"],
  [("field lookup by name", "detail::ParseCellFunctor"), ("dispatch", "Parser::parseName, ParseFunctor, UnparseFunctor")], None, ["Parser<...>::parse(), unparseAsObject()"])

p("C06", "List and index-map notations of a JSON array are equivalent",
  "An array given as a list and the same array given as a map from indices to elements, in any order of the indices, read as the same sequence, for sequences and for dynamically allocated arrays and at any nesting depth. An index map with a missing index, a repeated index or a key that is not an index is rejected with an error and nothing is leaked.",
  ["inputs"], "every sequence length, element value, permutation of indices, and every defect (hole, duplicate, bad or huge index) at every position",
  T + "no array is ever parsed", ["include/bcl/Json.h"],
  [("index scan", "Parser<>::numberOfKeys"), ("element placement", "Traits<vector>::parse, Traits<Ty *>::parse")], None, ["Parser<>::parse()"])

p("C07", "Diagnostics are kept verbatim and in order, and survive JSON",
  "A collection of diagnostics holds exactly the inserted messages in insertion order, each rendered as the kind, the code, the position and the formatted text, for texts of any length; forward and backward iteration, size, emptiness, clearing and swapping agree with that list, swapping exchanges the messages, and an insertion that cannot be formatted is counted and leaves the rest unchanged, one that runs out of memory throws and changes nothing. Written as JSON and parsed into a collection of the same kind, a collection comes back with the same messages, and messages of another kind are rejected.",
  ["histories", "inputs"], "every sequence of insertions, clears and swaps with any code, position, format and argument text (also containing spaces, quotes, percent signs, parentheses), including formats the C library refuses",
  T + "no diagnostic is ever created", ["include/bcl/Diagnostic.h", "include/bcl/Json.h"],
  [("formatting", "Diagnostic::insert"), ("iteration", "Diagnostic::iterator_wrapper"), ("JSON form", "Traits<bcl::Diagnostic>")], None, ["begin()/end()/rbegin(), size(), internal_size()"])

p("C08", "Affine equations: solutions are exactly the integer solutions",
  "For every instantiated system of two-variable affine equations with integer coefficients (zero coefficients, repeated variables and cycles of variables included) whose numbers do not overflow, the solver, unless it may assume solvability, reports a system as unsolvable exactly when it has no integer solution, returning the number of leading equations that are consistent; otherwise it returns a description of variables by parameters such that every choice of the parameters gives integer solutions of all equations and every integer solution is given by some choice of them (a variable that is not described is unrestricted). Shifting a solution to non-negative constants subtracts one common value from all constants, and reversing it expresses one common positive multiple of each parameter through every variable.",
  ["inputs"], "every system (in any order of equations, with any signs, zeros, common factors, shared and repeated variables, consistent or not), every assignment of the parameters",
  T + "the solver is not executed", ["include/bcl/Equation.h"],
  [("two-variable elimination", "BinomialSystem::solve"), ("other forms of the solution", "reverseSolution, solutioWithPositiveConstant"), ("extended gcd", "euclidGCD")], None, ["solve() result and getSolution()"])

p("C09", "Parametric equations instantiate to what their guards and values say",
  "Instantiating a system with values for its columns keeps exactly the equations all of whose guards hold and none of whose inverse guards holds, each with its coefficients unchanged and its constant increased by the sum of its computed monomials evaluated at those values, and discards the others unchanged. Exactly the kept equations are counted and visited as instantiated and are what is solved afterwards; guards, inverse guards and computed monomials of an equation are reported as they were added, and the printed instance lists the kept and the discarded equations, one line each, with their guards and monomials. An equation that cannot be added because memory runs out is not in the system.",
  ["histories", "inputs"], "every sequence of pushed equations with any attached guards, inverse guards and computed monomials, every valuation of the guards and computed columns",
  T + "no system is ever built", ["include/bcl/Equation.h"],
  [("guards and parametric constants", "Row::addGuard, addInverseGuard, addComputedMonom, BinomialSystem::instantiate"), ("iteration over the instance", "BinomialSystem::instantiated_begin/end/size")], None, ["instantiated rows, sizes"])

p("C10", "Extended Euclid returns the gcd with a Bezout identity",
  "For all integers L and R whose magnitudes are representable, the extended greatest common divisor is non-negative, divides both, is divisible by every common divisor (and is the other number's magnitude when one is zero), and the returned coefficients combine L and R into it, without overflow.",
  ["inputs"], "every pair of integers of every supported width, including zeros, equal, negative, coprime and extreme values",
  T + "the function is never called", ["include/bcl/Equation.h"],
  [("extended Euclid", "milp::euclidGCD")], None, ["returned triple"])

p("C11", "Every request of a connection is answered once, in order",
  "However the threads interleave, the application of a connection sees exactly the requests of the delivered messages in the order they arrived, and every answer is sent back exactly once, in the order of the requests, followed by the delimiter. The requests of a message are the pieces that end with the delimiter, empty pieces included, and the rest after the last delimiter if it is not empty. No data are shared between the threads without synchronisation.",
  ["schedules", "inputs"], "every request content, every split of the stream into deliveries, every delimiter, every interleaving of the network thread and the application thread",
  T + "no connection is ever created, and timing-dependent interleavings cannot be chosen by a test", ["include/bcl/IntrusiveConnection.h", "include/bcl/Socket.h"],
  [("hand-over of requests", "IntrusiveConnection answer/receive callbacks"), ("splitting at the delimiter", "receive callback")],
  [("request queue and status", "buffered requests and whether the connection is active, closed or rejected", "IntrusiveConnection")], ["socket send(), answer() callback"])

p("C12", "Closing or abandoning a connection wakes everybody and frees nothing twice",
  "Whenever the peer closes the connection or the application abandons it, at any moment of any exchange, no thread waits for ever, nothing is used after it was released, leaked or released twice, and an application waiting for a request is told that there will be none. After the application has abandoned the connection (destroyed or overwritten its object), each request that is not answered yet or still arrives gets exactly one rejection. Moving the object keeps the connection; an object that was moved from serves nothing.",
  ["schedules", "fault_sequences"], "every interleaving of requests, answers, close and abandonment between the network thread and the application thread, at every point of an exchange",
  T + "shutdown races need chosen schedules", ["include/bcl/IntrusiveConnection.h"],
  [("status under the mutex, condition variable", "IntrusiveConnection::answer, destructor, callbacks")], None, ["answer() result, REJECT responses"])

p("C13", "Socket server delivers every client's bytes and reports its lifecycle",
  "The socket server hands to the connection of each client exactly the bytes that client sent, in order and without loss, duplication or mixing between clients, whatever the bytes and however they are split, and sends to each client exactly what its connection sends. For every client it reports acceptance, data, and end in that order, releases the connection once, tells the listeners in the order of their registration, keeps serving other and later clients up to the given number of simultaneous connections, and survives clients that disconnect abruptly. Each event names the addresses and ports of the server and, once it is known, of the client, and its connection is active exactly if it has both. A call of the system that fails is reported and ends at most the connection it belongs to, a client for which no thread can be started and one whose listener throws an exception are disconnected, the listeners of the end are called, and the other clients are served on; if the server cannot be started, the reason is reported and its socket is closed.",
  ["schedules", "inputs", "fault_sequences"], "every number of concurrent and successive clients, every byte content and chunking, abrupt and orderly disconnection at any point",
  T + "the socket library is only built, never run", ["lib/Socket/CSocket/CSocket.cpp", "include/bcl/CSocket.h", "include/bcl/Socket.h"],
  [("accept loop and per-client workers", "bcl::net::startServer"), ("callbacks", "CSocket receive/closed/send")], None, ["client side of a loopback connection, status callback"])

p("C14", "Redirected output is returned completely and in order",
  "While an output stream is redirected to a file, reading the difference returns exactly the bytes written to that stream since the last position was set, whatever the bytes and sizes, and marks whether there is anything new; the position can be advanced or reset at any moment, appending keeps what the file held and rewriting drops it, a redirection that cannot be made and each other failure of a file operation is reported as an error with its reason and changes neither the position nor the file, an object that redirects nothing reports no difference, a descriptor redirected for reading delivers the bytes of the file from its start and leaves the file unchanged, running out of memory while the difference is read loses nothing of what is written before or later, and moving or replacing an object leaves no descriptor open.",
  ["histories", "inputs"], "every sequence of writes (any bytes, any length, including empty and larger than internal buffers), difference queries, position changes, and re-redirections, every content and sequence of reads",
  T + "redirection is never exercised", ["include/bcl/RedirectIO.h"],
  [("difference since a position", "RedirectIO::diff, isDiff, setDiffPos, resetDiffPos"), ("file modes", "RedirectIO constructor")], None, ["diff(), isDiff(), errors"])

p("C15", "Doubly linked chains stay consistent under splicing and merging",
  "After every sequence of linking, splicing, cutting and merging operations on intrusive chain elements that does not close a ring, the two directions agree (b follows a exactly when a precedes b), every element is in exactly one acyclic chain, an element that is spliced is taken out alone (leaving what preceded and what followed it as separate chains) and put directly after or before its new neighbour, merging attaches the whole rest of a chain, the order of elements inside each part that was not cut is kept, and walking a chain forwards or backwards visits its elements exactly once in opposite orders.",
  ["histories"], "every sequence of splice (before and after), merge and cut operations over any set of elements and chains, at any position including both ends",
  T + "no chain is built", ["include/bcl/Chain.h"],
  [("link maintenance", "ChainTraits / Chain spliceNext, splicePrev, mergeNext, mergePrev"), ("iteration", "ChainIterator")], None, ["getNext(), getPrev(), iteration"])

p("C16", "Trait descriptors never hold conflicting traits",
  "After every sequence of set and unset operations a trait descriptor holds exactly the traits a reference set holds, where setting a trait removes precisely the traits that conflict with it in a declared conflict group and unsetting removes precisely the named traits; no two traits of a conflict group are ever present together. Queries, iteration over present traits, iteration over conflicts and conversion between descriptors agree with that set.",
  ["histories", "configurations"], "every sequence of single and multiple set/unset operations over descriptors with every shape of conflict groups (overlapping, nested, singletons) and ungrouped traits",
  T + "no descriptor is ever created", ["include/bcl/trait.h"],
  [("conflict masks", "TraitDescriptor set/unset, trait::conflict masks"), ("queries and iteration", "is, is_any, for_each, for_each_conflict, in_group")], None, ["is(), for_each()"])

p("C17", "Trait sets own each attached value exactly once",
  "A set of traits with attached values keeps, for every trait present, exactly the value last attached to it, and agrees with its trait descriptor after every operation; every value it owned is destroyed exactly once (when it is replaced, when its trait is removed directly or by a conflict, or with the set), released values are handed to the caller and not destroyed, and releasing or removing something absent does nothing.",
  ["histories"], "every sequence of set, unset, release, move and destruction over several trait sets with conflicting traits",
  T + "no trait set is ever created", ["include/bcl/trait.h"],
  [("ownership of descriptions", "TraitSet set/unset/release/destructor/move")], None, ["instance counters of attached values"])

p("C18", "Static maps keep one value per key through copies and transfers",
  "A static map, type map or trait map holds under each key exactly the value last stored there: initialising it from a list of values assigns them to the keys in order, visiting passes every cell exactly once in declaration order, copying and assignment preserve all values, and copying or moving cells between different maps transfers exactly the cells that both maps have. Reversing and merging collections of keys gives the reversed and concatenated key order.",
  ["histories", "configurations"], "every map shape (key lists of any length and order), every value and every sequence of stores, copies, transfers and visits",
  T + "only one example program uses a map and nothing checks its output", ["include/bcl/cell.h", "include/bcl/trait.h"],
  [("access by key", "StaticMap::value, operator[]"), ("visiting", "for_each, for_each_key"), ("cell transfer functors", "CopyTo/CopyFrom/MoveTo/MoveFromCellFunctor")], None, ["value<Key>()"])

p("C19", "Compile-time type lists obey list algebra",
  "For every list of types, the compile-time operations give what the list operations of the same name give: length, position and membership of a type, concatenation, intersection in the order of the left operand, removal of a type, removal of duplicates (each type once), visiting every type in order, reversing and searching key collections, and forwarding a list to a template.",
  ["programs", "configurations"], "every list of types (empty, with repetitions, disjoint or overlapping pairs) appearing in a program",
  "a test program fixes a handful of lists at compile time; the property is about every program that can be written", ["include/bcl/cell.h", "include/bcl/utility.h", "include/bcl/tagged.h"],
  [("recursive templates", "TypeList, MergeTypeLists, IntersectTypeLists, RemoveDuplicate, RemoveFromTypeList, IsTypeExist, ReverseCell, MergeCell, IsCellExist, index_of, size_of, is_contained")], None, ["typeid of the results"])

p("C20", "Tagged tuples and pairs give each tag its own element",
  "For every tuple or pair whose elements are tagged, also with several tags per element, accessing a tag reads and writes exactly the element that carries the tag, in the declared order, through values, references and conversions; the index, type and membership queries agree with the declaration, visiting passes every element once in order, and building a tagged tuple from a list keeps the order.",
  ["programs", "configurations", "inputs"], "every list of element types and tags (aliases, repeated element types) that can be declared, and every stored value",
  "a test program fixes a handful of declarations; nothing in the tree tests them", ["include/bcl/tagged.h", "include/bcl/tuple_utils.h", "include/bcl/convertible_pair.h"],
  [("tag lookup", "tagged, tagged_tuple, tagged_pair, get<Tag>")], None, ["get<Tag>()"])

p("C21", "Multidimensional arrays give each index its own element",
  "For every rank and every sizes, the element at each valid multi-index is a distinct element of one contiguous row-major block of exactly the product of the sizes, so a value stored at one index is read back there and nowhere else, whether the indices are given by subscripts or as call arguments of any integer type. Moving an array (by construction or by assignment, which releases the elements of the target and returns it) transfers all elements; assigning an array to itself changes nothing; every element is created and destroyed exactly once.",
  ["inputs", "histories"], "every rank up to six (from two on for subscripts), every combination of sizes, zero included, every sequence of stores, reads, moves and destruction",
  T + "no array is ever created", ["include/bcl/marray.h", "include/bcl/marray_f.h"],
  [("index linearisation", "marray::operator[], msubarray::operator[], marray_f::operator(), allocate()"), ("ownership", "move operations, destructor")], None, ["operator()", "operator[]"])

p("C22", "Compressed pairs of integers restore exactly",
  "Packing two values into one word and unpacking it gives back the two values whenever they fit the halves they are packed into, for every supported combination of widths; a pair which does not fit is refused and leaves the word as it was; no memory outside the given objects is read or written.",
  ["inputs", "configurations"], "every pair of values and every combination of integer types for the parts and the packed word",
  T + "the functions are never called", ["include/bcl/utility.h"],
  [("bit packing", "shrinkPair, restoreShrinkedPair")], None, ["returned values"])

p("C23", "Numeric and text utilities agree with their definitions",
  "Digit counts, low-order zero counts, bit masks, binary literals (up to 64 digits), bit printing, quoting, in-place memory exchange, inserters, object construction helpers, attribute identifiers, non-copyable and non-assignable bases and compile-time index and loop helpers give what their definition gives for every argument: counts equal those of the positional notation in the given base (at least 2; the one digit of zero is a low-order zero), masks have exactly the asked number of low bits, quoting adds quotes exactly once and only where they are missing, exchanged objects hold each other's old bytes, the constructors get exactly the given arguments.",
  ["inputs", "programs"], "every integer of every width, every base, every text, every size of exchanged objects, every list of types",
  T + "none of the helpers is called", ["include/bcl/utility.h"],
  [("helpers", "numberOfDigits, numberOfLessZeros, unitMask, bitPrint, quote, isWhitespace, swapMemory, make_unique, make_unique_piecewise, index_of, size_of, is_contained, staticForeach, SimpleInserter, PushBackInserter, CountInserter, operator\"\" _b, BASE_ATTR_DEF, Uncopyable, Unassignable")], None, ["returned values"])

p("C24", "A pointer paired with its own value always points to it",
  "A value wrapped together with an outer pointer to it keeps that pointer aimed at the place where the value is now, after every move construction, move assignment and relocation inside containers (growth, insertion, erasure, exchange, sorting), and the wrapper gives access to exactly that value in all its forms of access. The wrapper cannot be copied.",
  ["histories"], "every sequence of container operations that relocate, replace or reorder wrapped values",
  T + "the wrapper is never used", ["include/bcl/ValuePtrWrapper.h"],
  [("re-aiming the pointer", "ValuePtrWrapper special members")], None, ["pointer dereference"])

p("C25", "Object-declaration macros bind every name to its own field",
  "For every number of fields the declaration macros support and every assignment of types to names, the declared record has exactly the listed fields in the listed order, each with its own type and storage, initialisers reach the fields in order, and JSON reading and writing use exactly the declared names.",
  ["programs", "configurations"], "every arity from one to the maximum, for sub-objects and top-level objects, every assignment of field types (including types with commas)",
  "the macros are generated text of some hundred definitions and no program in the tree uses them", ["include/bcl/JsonObjectMacros.h", "include/bcl/Json.h", "include/bcl/utility.h", "scripts/json_object_macro_gen.pl"],
  [("generated macros", "JSON_OBJECT_PAIR_*, JSON_OBJECT_ROOT_PAIR_*, JSON_VALUE_*, JSON_ACCESS_*")], None, ["generated programs"])

p("C26", "Node.js connector passes every message intact in both directions",
  "The connector for Node.js hands the bytes of every message written by the script to every registered listener of the native server unchanged and in order, passes every text (well-formed UTF-8, of any characters including zero) sent by the native side to the script unchanged and in order, and reports the end of the connection with its flag once to every listener registered for it. Data or arguments of a wrong kind are answered with a TypeError and change nothing. A connection works until it is closed, whatever the script still refers to and whenever garbage is collected, and releases everything it held afterwards.",
  ["inputs", "schedules", "histories"], "every message content and length, every number and interleaving of messages in both directions over several connections, every moment of a garbage collection",
  "the connector is only checked for syntax by the build", ["lib/Socket/NodeJSSocket/NodeJSSocket.cpp", "include/bcl/Socket.h"],
  [("emit/receive bridge", "NodeJSSocket")], None, ["messages seen by the script and by the native side"])

p("C27", "Legacy text helpers convert and copy exactly",
  "Converting any integer (int) to narrow or wide text gives its decimal notation, and copying a text into a buffer either copies it completely with its terminator, within the buffer, or reports an error and writes nothing outside the buffer.",
  ["inputs"], "every integer including the extremes, every text and every buffer size",
  T + "legacy code is disabled by default and never run", ["include/bcl/legacy/text.h", "include/bcl/legacy/exception.h"],
  [("conversion and bounded copy", "ToText, ToTextAnsi, ToTextUnicode, CopyAnsi, CopyUnicode")], None, ["returned text, buffer content"])

p("C28", "Adaptors present the adapted things faithfully",
  "An iterator with attached data visits the same positions in the same order as the underlying iterator, dereferences to an object made of the current element and the data, and equals another one exactly when both the position and the data are equal. A convertible pair converts to references to its own first or second element and otherwise behaves as the plain pair. Visiting a tuple calls the function once per element in order, and unpacking a tuple passes references to its elements, in order, and returns what the function returns.",
  ["inputs", "histories"], "every container and position, every sequence of increments, copies and changes of the data; every list of element types and values",
  T + "the adaptors are never used", ["include/bcl/IteratorDataAdaptor.h", "include/bcl/convertible_pair.h", "include/bcl/tuple_utils.h"],
  [("iterator with data", "IteratorDataAdaptor"), ("conversion to element references", "convertible_pair"), ("tuple traversal", "for_each, forward_as_args")], None, ["operator*, operator==, getData()", "conversion operators", "calls of the function"])

p("C29", "Legacy cells and static trees keep one value per identifier",
  "A legacy collection of cells holds under each identifier exactly the value last stored there, visits every cell once in the order of the declaration, and copies, assigns, initialises, clears and transfers cells like the collections of the library do: a transfer stores exactly the values of the identifiers that both collections have. A static binary tree of identifiers behaves the same way, reaches every node once (left subtree, right subtree, node), and can be made of a value and two subtrees or of a tree of the same shape. Compile-time logic over types (and, or, not, conditions, comparison of types) gives what logic gives, and the cell macros list their arguments in order.",
  ["histories", "configurations"], "every declaration of a collection or tree (any length and shape, missing subtrees anywhere), every sequence of stores, visits, copies and transfers, every logical expression",
  T + "legacy code is disabled by default and never compiled", ["include/bcl/legacy/cell_legacy.h", "include/bcl/legacy/tree.h", "include/bcl/legacy/cell_macros.h", "include/bcl/legacy/declaration.h", "include/bcl/utility.h"],
  [("access and visiting", "Base::Cell, CellHead, Foreach, ForeachDefinition"), ("transfer functors", "CopyToCellFunctor, CopyFromCellFunctor, InitCellFunctor, ClearCellFunctor"), ("trees", "Base::Node, Visit, LeftNode, RightNode")], None, ["Value<Id>(), operator[], Foreach, Visit"])

p("C30", "Legacy errors have unique codes and complete descriptions",
  "For every application that declares a forest of errors and uses other applications, the errors of the application and of all applications it uses have pairwise different codes: errors of one application are numbered from one with every error in front of its suberrors, used applications follow in order. Each error is described by its whole path in the tree, has the most important of the types of its path by the priorities of its application, and is caught as an error of its own application and of no other one; a thrown error tells its code, type, description and message, and the text of an error in an application that uses another one names the using application and the code in it.",
  ["programs", "configurations", "inputs"], "every forest of errors of any depth, every priority list, every tree of applications, every text of a type cast error",
  T + "legacy code is disabled by default and never compiled", ["include/bcl/legacy/exception.h", "include/bcl/legacy/cell_legacy.h", "include/bcl/legacy/declaration.h"],
  [("numbering", "CodeOfError, CountOfErrors"), ("types and descriptions", "TypeOfError, BriefOfError, ErrorToText"), ("exceptions", "Exception<App>::Error, TypeCastError, IException")], None, ["Code(), RelativeCode(), Type(), Brief(), Message(), ToText()"])

p("C31", "Legacy nullable values behave as optional values",
  "A weak value is either undefined or holds exactly the value last assigned, also after copies, assignments between weak and strong values and conversions; a strong value always holds the value last assigned and refuses an undefined one with an error that leaves it unchanged. Comparisons with undefined tell whether a value is undefined; two undefined values are equal, an undefined and a defined one are not, ordering comparisons with an undefined value are false, and defined values compare as what they hold. A pointer is undefined exactly when it is null. An undefined value is printed as undef, a defined one as what it holds.",
  ["histories", "inputs"], "every type of values, every sequence of assignments, copies, conversions and comparisons between weak, strong and plain values",
  T + "legacy code is disabled by default and never compiled", ["include/bcl/legacy/value.h"],
  [("definedness", "Utility::Value<Type, True>"), ("refusal", "Utility::Value<Type, False>::operator=( const Weak &)"), ("comparisons", "operators of Value, Null")], None, ["comparisons, conversion to the value, exceptions, printing"])

p("C32", "The JSON lexer and its traversal serve user-defined conversions exactly",
  "For every text and every sequence of operations of the JSON lexer: moving on visits the tokens of the text one after another (kind, first and last character, following position, integral or fractional numbers, keywords, unquoted part), a jump continues at its target, resetting starts again, stored positions come back exactly and in the reverse order, skipping a well-formed compound value ends at its own closing bracket, counting the elements of an array tells their number and the largest index and leaves the lexer where it was, every failed check records one error with its position, and nothing else records any. A user-defined type read with the traversal gets every key and every value of a well-formed text once, in order; other texts are rejected with errors whose positions lie in the text, and the same parser gives the same result again.",
  ["inputs", "histories"], "every text, well-formed or not, and every sequence of moves, jumps, nested stores and restores, checks, skips and counts on it; every user-defined type that reads itself with the lexer",
  T + "no lexer is ever created", ["include/bcl/Json.h", "include/bcl/Diagnostic.h"],
  [("tokens", "Lexer::goToNext, setPosition, atEnd, discardQuote"), ("stack of positions", "Lexer::storePosition, restorePosition"), ("traversal", "Parser<>::traverse, numberOfKeys, Lexer::skipInternal")], None, ["goToNext(), start(), end(), next(), is...(), errors(), Parser<>::parse() of a user-defined type"])

p("C33", "Public headers work alone, in any order and in any number of units",
  "For every selection and order of the public headers (include/bcl and include/bcl/legacy, with repetitions) in every number of translation units of one program: the program compiles and links with the conforming compilers (C++17 and C++20), a header needs no other header to be included before it and does not depend on which ones were, and what it provides works the same way - the same results, the same sizes of its types - in each unit.",
  ["inputs", "configurations"], "every program that includes public headers in some of its translation units",
  T + "a header stops including what it uses, or defines a function in each unit, or changes with what was included before it", ["include/bcl", "include/bcl/legacy"],
  [("includes", "#include lists and include guards of each header"), ("definitions", "inline functions, specializations and static members of each header")], None, ["#include <bcl/...>"])

p("C34", "Every configuration of the package builds, installs and serves its users",
  "For every combination of the options (legacy code, tests, examples, installation, C socket, Node.js socket, shared libraries), every history of configuration steps that changes them, each generator, and each way to use the result (find_package in an installation, in a moved installation or in the build tree, add_subdirectory followed by find_package; once or repeatedly): configuration, build, installation and the user's own configuration and build succeed; BCL::Core exists, BCL::CSocket and BCL::NodeJSSocket exist exactly if they are enabled and can be linked or compiled; the variables of the package and the macros of bcl-config.h tell the last value of each option and the version; legacy headers are installed exactly if they are enabled.",
  ["configurations", "histories"], "every combination of options, every sequence of configurations, every way to use the package",
  "the tests are built in one fixed configuration and use the build tree directly; the package is never found or installed", ["CMakeLists.txt", "cmake/BCLConfig.cmake.in", "include/bcl/bcl-config.h.in", "lib/Socket/CSocket/CMakeLists.txt", "lib/Socket/NodeJSSocket/CMakeLists.txt"],
  [("package", "BCLConfig.cmake, BCLExports.cmake"), ("configuration", "bcl-config.h"), ("installation", "install() rules")], None, ["find_package(BCL), add_subdirectory(), BCL::Core, BCL::CSocket, BCL::NodeJSSocket, #include <bcl/bcl-config.h>"])

p("C35", "The CMake modules edit lists of options and apply patches exactly",
  "For every list of compiler options, whatever characters they consist of, and every sequence of calls: bcl_append adds its value at the end of each named list and changes nothing else; bcl_replace leaves all other options as they are and in their order, leaves no old option and at least one new one, puts a new option where the old one was (at the end if there was none) and does not add one that is already there. For every patch and every sequence of calls of bcl_patch: a patch that fits is applied exactly, its reversal gives the original files back, and one that does not fit changes nothing and ends the configuration with an error, or with a warning if it is to be ignored; a missing patch is no error.",
  ["inputs", "histories"], "every list of options and every sequence of append and replace; every patch and every sequence of applications and reversals",
  "the modules are never called by the tests", ["cmake/BCLUtils.cmake", "cmake/BCLPatch.cmake"],
  [("bcl_replace", "comparison of options, removal, insertion"), ("bcl_append", "PARENT_SCOPE assignment"), ("bcl_patch", "choice of the tool, result of the tool")], None, ["bcl_append(), bcl_replace(), bcl_patch()"])

for x in P: print(json.dumps(x))
