"""Writes DESIGN.md from the text below, props.py, known-findings.json, seeded/ and tools/detected.json."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from props import PROPS
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
kf = json.load(open(H + '/known-findings.json'))['findings']

HEAD = '''# Deciding bcl's properties by property-based testing and fuzzing

This file is written by `tools/design.py`; edit that.

## Layout

| path | what it is |
| --- | --- |
| `properties.jsonl` | the {N} properties (written by `tools/properties.py`) |
| `MANIFEST.json` | the registered checks (written by `tools/manifest.py` from `props.py`) |
| `check` | the driver: `./check ID quick|thorough`, `./check ID --replay FILE` |
| `props.py` | what each check builds, its technique, rule of non-triviality and assumptions |
| `lib/pbt.*` | the engine: choice tapes, search, coverage guidance, shrinking, replay |
| `lib/pbt_sched.*`, `lib/pbt_free.cpp` | a deterministic scheduler in place of the pthread functions; its free-running twin for ThreadSanitizer |
| `lib/pbt_net.*` | a simulated network with fault injection in place of the socket calls |
| `harness/` | generators, models and oracles per property; `gen_*.py` write C++ programs |
| `known-findings.json` | genuine defects: one known, the others repaired |
| `seeded/` | planted bugs with demonstrations (no check reads them) |

## How a check decides

bcl is a header library plus two socket back ends. Its repository has five
tests, all of them comparisons of one- to three-element queues, so nothing but
the code itself speaks for the other twenty headers. Every property is decided
by generated-input search against an explicit oracle:

1. `./check ID tier` compiles the harness of the property together with the
   sources of `/repo`'s working tree (AddressSanitizer and
   UndefinedBehaviorSanitizer, `-fsanitize-coverage` for guidance; some
   binaries with ThreadSanitizer) in a temporary directory outside of both
   repositories. For properties about programs (types, macros, declarations) a
   generator seeded by `VERIF_SEED` writes the program first. A harness that
   does not compile any more is a violation too (the generated program is a
   legal use of the interface): its replay file holds the build.
2. A case is a *choice tape*: every random decision of a generator is one
   number on the tape. Tapes come from the seeded generator, and from mutating
   tapes which reached new code (edge coverage with hit-count buckets). Each
   of 8 worker processes keeps a corpus of its own. A worker that crashes, trips a sanitizer,
   leaks, exceeds the CPU time of a case or fails a `CHECK` reports the tape.
3. The failing tape is confirmed in a fresh process, shrunk (deleting blocks,
   zeroing, lowering numbers, with the same class of failure required), and
   written as `replay/ID/<target>.json`; `./check ID --replay FILE` runs it
   again and prints the trace of the case. A failure that cannot be reproduced
   in a fresh process is not reported but counted in the evidence as
   "unreproduced" (none has been seen on the unchanged tree).
4. `evidence/ID.json` reports, per target, the cases, the distinct non-trivial
   ones by the rule of the harness, labels, and samples.

Levels are all "exploration": a search over generated cases with the bounds
named below; nothing is proved. Quick runs a fixed number of cases per target
(about 10 to 45 s of wall time including the build); thorough runs some 20 to
30 times as many and larger generated programs. Both stop early, and say so in
the evidence, if they run against their time limit.

### Schedules (C11, C12, C13)

`pbt_sched` replaces mutexes, condition variables, thread creation, joining,
sleeping and yielding, and lets exactly one thread run at a time; whom to run
next is read from the tape. Strategies: uniformly random, priorities with a few
change points (PCT), and non-preemptive with single preemptions. Preemption
points are all synchronisation calls and (through the coverage callbacks
compiled into the code under test) all basic blocks of bcl's code.
No runnable thread = deadlock; a timed wait or a sleep ends when the tape
says so, and spurious wake-ups are generated. Mutexes and condition
variables are tracked by address, and touching one whose memory has been
released is an AddressSanitizer report. The same inputs run unscheduled under
ThreadSanitizer, which sees races that do not change the outcome.

### The network (C13)

`pbt_net` answers socket(), bind(), listen(), accept(), recv(), send(),
getsockname(), setsockopt(), gethostbyname() and close() inside of the process.
The tape decides how a stream is cut, how much send() takes, which call fails
and with which error, and when a client resets. Descriptors are recycled as
lowest-free-first, so reuse of a descriptor is exercised. SIGPIPE is a failure
unless MSG_NOSIGNAL is given. `sock_real` runs the same server over the
loop-back interface under ThreadSanitizer.

'''
DET = {
'C01': '''Three queues and three `std::deque` models. Every operation of the interface is generated: push, emplace, pop (also from an empty queue), front/back for reading and writing, size, empty, copy and move construction and assignment (self included), member and free swap, six comparisons in both directions, draining a copy. After each step size, ends and a drained copy are compared. The interesting states (empty, single, container, drained container, moved-from; null pointers as elements) and all their pairs for swap and comparison are reached within a few thousand cases. Cost: some seconds after the build.''',
'C02': '''Values of 45 types (integers of all widths with their extremes, floating point, characters, booleans, strings, pointers, optionals, vectors, arrays, lists, sets, multisets, maps and multimaps with several kinds of keys, pairs, tuples, records, nested in one another) are written; the text is first read by an independent reader (so that writer and parser cannot be wrong in the same way), then by bcl, compared, then re-read with white space inserted at every place where the documentation allows it. `nullables`: containers of pointers with nulls anywhere. A round trip through an already filled target must not keep anything old.''',
'C03': '''Byte strings over all 256 values with a bias to quotes, backslashes, escapes, brackets, separators and zero bytes, as elements, keys, fields, names, in every position among other tokens. Oracles: round trip, and a reference unescaper for raw text in which the generator itself chose where each string ends.''',
'C04': '''Differential: a reference decoder, written from the documented grammar, classifies each (text, target type) as must-accept-with-value, must-reject or unspecified. Texts: random bytes, random tokens, valid texts for the type, mutations of valid texts (deleting, duplicating, swapping, cutting tokens and bytes), nesting. 40 target types. Whatever the verdict, the parser must end, must not touch memory outside of the text (exactly sized heap copies without terminator), must not leak, must give either a value or an error in the log. Coverage guidance matters most here.''',
'C05': '''Records of five declared shapes (nested compounds included) are written by the generator with fields in any order, subsets, undeclared fields with arbitrary (nested) values, `name` anywhere, and random white space; the result is compared with the model; dispatch by `name` must find it wherever it stands, and in front of or behind nested objects that also have a `name`. `undeclared`: well-formed text whose name is declared by nobody gives no object and no error.''',
'C06': '''Metamorphic: the same sequence as a list and as an index map with permuted indices, leading zeros, for vectors, lists, arrays, sets of nested values; injected defects (hole, repetition, index out of range, text as an index, mixture of both notations) at a random place must be rejected.''',
'C07': '''Histories of insert (with plain texts, %s, %d; messages longer than the internal buffer; formats that vsnprintf refuses), clear, swap against lists of strings, all iterators in both directions, internal counters; then the JSON image of the collection is read back.''',
'C08': '''Systems A = B (affine combinations of up to 7 variables, up to 6 equations) with planted solutions, arbitrary constants, repeated variables, zero coefficients, chains, trees, forests and cycles of bounds, for `int`, `long`, `long long`. The reference solver works differently (rational elimination and congruences in 128 bit). Soundness: substituting the returned parametric lines back satisfies each equation identically. Completeness: every solution of the reference lattice is produced by some parameter. Inconsistent systems must be reported, consistent must not. ''',
'C09': '''As C08 with equations that carry guards, inverse guards and monomials computed from parameter values: instantiating with random values must keep exactly the equations whose guards hold, with the right constants, and solving the instantiated system agrees with the reference.''',
'C10': '''Pairs of signed integers of 8 to 64 bits; the gcd is compared with an independent one, and a*x + b*y = g evaluated in 128 bit; signs, zero, extremes.''',
'C11': '''IntrusiveConnection under the scheduler: a socket stand-in delivers messages cut and joined arbitrarily, an application answers; what it sees and what the socket sends must be the queue model: each request once, in order, its own answer, the delimiter as promised. Several connections at once.''',
'C12': '''Additionally the application abandons the connection after any number of answers (returning, destroying, moving, assigning) and the client closes at any point; everybody must end (deadlock oracle), rejected requests are answered with REJECT, later ones too, an answer already given is delivered, nothing is touched after release, nothing leaks.''',
'C13': '''Up to five clients with random writes, waits, ends and resets against `startServer` with five applications. Model: bytes of each client arrive complete, in order and at its own listeners; answers reach their client; the sequence of status events is one of the legal ones (Listen, Accept, Receive*, Send*, Close with the right flag, each failure exactly once with its own code); the limit of simultaneous connections is kept; every descriptor is closed once; faults do not stop the server unless documented. Connections are described and active as they should be; without a limit all clients are served at the same time (each waits for the others).''',
'C14': '''Real files in a scratch directory of the check. Histories over two objects: writing any bytes (NULs, long lines, sizes around 100 and 4096), diff(), isDiff(), setDiffPos(), resetDiffPos(), append and rewrite, failing opens, moves, destruction, against a model of the content. A second history lets any file operation (fopen, dup2, fgetc, ftell, fflush, fseek, fread, fclose; wrapped by the linker) fail with a chosen error: it must be described exactly once, nothing but the result of the call may be lost. Afterwards no descriptor and no memory is left.''',
'C15': '''Up to 10 nodes in up to several chains; splice, merge, cut through both the trait and the iterator interface, both tags; after each step every link in both directions and random walks (pre/post, forward/backward, from any node, constant and mutable) are compared with lists of identifiers.''',
'C16': '''A generator writes programs with fixed and random declarations (groups, alternatives, unions that share traits, up to 64 bits); the conflict relation is computed from the declaration in Python. Histories over several descriptors: set/unset/unset_group/unset_all of one to several traits, copies, comparison, is/is_any, for_each*, trait::set/unset/update across descriptors of different types.''',
'C17': '''As C16 with values attached; a registry of live values is compared with the model after each step (leaks and double destruction are immediate failures), std::map and std::unordered_map as storage, tagged descriptions.''',
'C18': '''Generated key lists; maps of any shape against one integer per key; transfers between maps with partially common keys by the four functors, both directions; move-only and move-tracking values; pointers (Init/ClearCellFunctor); type maps and trait maps; merge, reverse and search at compile time.''',
'C19': '''A program with generated lists is compiled; results of merging, intersecting, removing, de-duplicating, searching, forwarding are printed as numbers and compared with vectors.''',
'C20': '''Generated tuples and pairs with aliases; access by every tag and alias through constant and mutable references, visits, copies, moves, assignment from plain tuples, indices, element types.''',
'C21': '''`marray`, `marray_f`: address of every element computed from the definition (distinct, contiguous, row-major), values after every step, moves, self moves, destruction counts, zero extents.''',
'C22': '''512 combinations of types; pack succeeds exactly if both values fit (otherwise the word stays as it was), restoring gives them back; exactly sized heap objects so that any out-of-range access is a report.''',
'C23': '''Digits, masks, bits, literals, quoting, white space, containment and index in type packs, `make_unique`, `make_unique_piecewise`, `swapMemory`, `staticForeach`, inserters against definitions; compile-time parts in generated programs.''',
'C24': '''Containers of wrappers, any relocating operation; each outer pointer must be in its own wrapper with its value. Pointers may have been reset by their owner before a move.''',
'C25': '''A program with a record of every arity (1..30) is generated with random types and names; every field is checked for type, position, storage, initialiser, written text and reading. A second binary does the same with macros freshly produced by `scripts/json_object_macro_gen.pl`.''',
'C26': '''The add-on is compiled with AddressSanitizer and loaded into a real Node.js process that runs scripts of operations against a sequential model; garbage collections are forced at chosen points.''',
'C27': '''`legacy/text.h`: boundary-biased int values against std::to_string, bounded copies to exactly sized buffers; failures are the real errors of `legacy/exception.h`.''',
'C29': '''A generator writes collections of cells (with the macros and with plain declarations), trees of any shape with missing subtrees, and logical expressions together with their values. Collections are compared with one number per identifier after every step; transfers are checked for pairs with common and different identifiers; nodes of trees are reached in two ways (Visit, LeftNode/RightNode); objects behind pointers are counted.''',
'C30': '''A generator writes forests of errors, priority lists and trees of applications, numbers the errors itself and writes down every type, description and text. Each generated error is thrown in a random case, also as a type cast error with random texts, caught, and looked at from every application that knows it; all codes of an application are checked to differ.''',
'C31': '''Three weak and two strong values against `std::optional` and plain values; every assignment, construction, conversion and comparison in both orders, values of six kinds of types; refusal must leave the strong value as it was. Reading the value of an undefined object is not checked beyond memory safety.''',
'C32': '''A reference tokenizer keeps the place, kind and flags of the current token, the stack of places and the number, code and position of errors; after every operation of a random history all questions to the lexer are compared with it. Texts are well-formed (also index maps), damaged, or arbitrary pieces and bytes. A user-defined type (a document tree whose keys are read with store/jump/restore) is parsed and compared with the reference reader that C04 uses: accepted exactly if the text is well formed, same content, and again with the same parser.''',
'C33': '''Random programs: two or three of the 27 headers each alone in its own translation unit, and the same ones with up to eleven more (and repetitions) in a random order in another unit. Each unit uses every header it includes through a short piece of its interface whose answer is known; gcc 13 or clang 18 compiles each unit (with or without BCL_LEGACY in bcl-config.h, C++17 or C++20), the units are linked into one program, and its run has to confirm each answer and equal sizes in each unit. A refusal of the compiler or linker is a violation; a compiler that crashes or is killed decides nothing.''',
'C34': '''A history of one to three configuration steps with random options is run on the real CMake project with Ninja or Makefiles, then built and (if enabled) installed, the installation possibly moved; a generated consumer project finds the package (in the installation, the build tree or as a subdirectory, possibly twice or in an older version), writes down the package's variables and targets, and builds a program with the headers and the C socket library that prints the macros of bcl-config.h. Everything is compared with a model of the cached options. Planted bugs cannot be kept for most of it, because build configuration is not theirs to change; the three defects repaired here were found by the check and are reported when the repairs are reverted.''',
'C35': '''Scripts that cmake -P runs. Lists of options (common ones, prefixes of each other, and ones with characters that mean something to regular expressions, empty and repeated options, several spaces) go through one to five calls; the value after each call is compared with the value before it by the rules of the statement (the number of new options that replace repeated old ones is left open). Patches with one hunk per file are generated with the files; histories of applications and reversals with patch and git, in the right and in the wrong state, ignored or not, are compared with the contents known, the exit code and the message.''',
'C28': '''IteratorDataAdaptor, tuple_utils, convertible_pair against (position, data), element lists and plain pairs.''',
}
TAIL = '''
## Limits of what is specified (domain decisions)

A property is only claimed where the documentation, or else the evident
intention of the code, settles the answer. Left open on purpose:

* JSON: numeric prefixes (`12abc`, `1.5` into an integer), a minus sign into an
  unsigned target, duplicate fields, map/multimap in list notation unless empty;
  scalars and keywords are texts for string targets; unknown scalar fields are
  ignored, unknown compound fields rejected; names of objects are compared as
  written; floating point is written with six decimals, finite; raw pointers of
  one level; `parse()` of a well-formed text with an undeclared name returns no
  object and no error; vectors with null pointers are sparse maps; null entries
  of maps and sets are left out. `Diagnostic::swap` exchanges messages and
  internal counters; the kind is not claimed. The example
  `for (auto &Err : P.errors())` of the documentation does not compile; this is
  documentation only.
* Equations: systems that overflow in elimination are cut; the order of
  instantiated equations is not specified; a variable that is not mentioned is
  unrestricted.
* RedirectIO: input redirection is not covered; two redirections into the same
  file at the same time are excluded.
* Chains: splicing splits the owner chain; merges that close a ring are excluded.
* Traits: setting several traits that conflict with one another at once only
  has to leave a conflict-free result and untouched unrelated traits; the order
  of visits is not claimed; giving a set the pointer it already owns is
  excluded; a moved-from set is only destroyed or assigned.
* Cells and macros: values of default constructed maps are unspecified; which
  of several equal types RemoveDuplicate keeps is not specified; a field cannot
  be called `name`, `Base`, `ValueType` or like a member of `StaticMap`.
* Arrays: subscripts need rank at least 2. Utilities: bases at least 2, binary
  literals up to 64 digits; a shrunk part narrower than the half is restored to
  an unsigned type as wide as the half.
* Connections: each delivered message is split on its own; with NUL as
  delimiter a NUL behind an answer is unspecified; the close callback comes
  once, after the last delivery.
* Sockets: IPv4, a buffer of at least one byte, valid ports; calls are not
  interrupted by signals; listeners are registered in `createServer()`; how the
  end is reported after a failed send outside of a receive listener is not
  specified.
* Node.js: sent text is well-formed UTF-8; `startServer` once per connection;
  close is the last event; the send function of the script does not throw; a
  socket without a data listener is never read.
* Legacy: the headers are not part of the default build. `exception.h` and
  `value.h` did not compile and some templates of `tree.h` and `cell_legacy.h`
  could not be instantiated; this was repaired (C29, C30, C31). `IObject` cannot
  be instantiated and needs parts that are no longer in the tree; it is left
  out.
* Some headers do not include everything they use; the driver pre-includes the
  standard headers, which is not counted as a defect.

## False alarms met and corrected

* C17: the first harness shadowed a type called `Id` and compared the wrong
  values.
* C11/C12: the scheduler preempted itself inside inline library code that is
  shared with the code under test (fixed with a guard), and the CPU-time handler
  raced with the scheduler under ThreadSanitizer.
* C25: harness records read booleans that had never been stored.
* C26: a model without a data listener expected data of a socket that is never
  read (hang).
* C16: an order of visits was compared although nothing promises one.
* C04: several texts classified as must-reject (a number prefix, a scalar for a
  text target) turned out to be deliberately tolerated; they are unspecified now.

## Hooks

None: no instrumentation was needed in `/repo`. All commits there are `fix:`
commits.

'''
o = [HEAD.replace('{N}', str(len(props))), '## Per property\n\n']
for p in props:
    d = PROPS[p['id']]
    o.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n*Decided by* {d['technique']}. {DET[p['id']].strip()}\n\n")
    o.append(f"*Bounds.* {d['note']}. *Case rule.* {d['rule']}.")
    if d.get('assumptions'): o.append(' *Assumptions.* ' + '; '.join(d['assumptions']) + '.')
    o.append(f"\n\n*Beyond the tests.* {p['why_tests_cant']}.\n\n")
o.append(TAIL)
o.append('## Genuine defects\n\nKnown, not repaired:\n\n')
o += [f"* `{f['id']}` ({f['property']}): {f['what']}. A repair would change the written format of every optional text, so it is recorded.\n" for f in kf if f['status'] == 'known']
o.append('\nRepaired (one `fix:` commit each; the check that found it reports it again if it returns):\n\n')
o += [f"* {f['property']} `{f['commit']}` " + f['what'].split(' ', 3)[3].replace('repaired so that: ', '') + '\n' for f in kf if f['status'] == 'fixed']
o.append('\n## Planted bugs\n\nEach is written from the text of a property and the code; "first" says whether the check caught it before it was strengthened. Verified with the quick tier.\n\n| bug | property | needs | caught | first |\n| --- | --- | --- | --- | --- |\n')
det = json.load(open(H + '/tools/detected.json'))
for b in sorted(os.listdir(H + '/seeded')):
    m = json.load(open(f'{H}/seeded/{b}/meta.json'))
    r = det.get(b, {})
    o.append(f"| {b} | {m['property']} | {m['needs']} | {r.get('caught', 'not run')} | {r.get('first', 'yes')} |\n")
o.append('''
Where a check missed a bug at first:

* C02-map-trailing-comma: nothing wrote maps whose last entry is left out; the
  target `nullables` was added (maps, sets and vectors of pointers with nulls).
* C05-name-after-nested: undeclared fields were scalars only; nested ones and
  deeper records were added.
* C30-sibling-app, C30-type-first: the generated applications were too few and too
  simple; the first ones now have a fixed shape, and there are more of them.
* C24-self: the owner never changed the outer pointer; it may do so now.
''' + (open(H + '/tools/design_more.md').read() if os.path.exists(H + '/tools/design_more.md') else ''))
open(H + '/DESIGN.md', 'w').write(''.join(o))
