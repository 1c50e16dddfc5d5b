"""Text of DESIGN.md that is not derived from the checks"""
INTRO = '''# Static verification of podio

`properties.jsonl` states the properties; this file says how each of them is decided. The text is put together by
`tool/design.py` from `tool/design_text.py`, the rules that the checks declare, `known_findings.json` and the planted bugs
in `seeded/`, so that it stays in step with them.

## The approach

Everything is decided from the source of /repo, without running it. There are two analysers:

**C++ (most of the checks).** `tool/podioir.cpp` (clang 18 LibTooling, built by `setup_cmd`) dumps the control flow graph
of every function, including all template instantiations, implicit members, destructors and default member initialisers,
as an intermediate representation. What is analysed in every run:

* `core`: all of `src/*.cc` that can be compiled without ROOT, SIO and Arrow, all headers in `include/podio`, and
  `models/core_use.h`, which instantiates the templates of the library (frames over a reader's and an empty frame data,
  user data collections of all types, parameters of all types, links).
* `cover`: the code that the *current* generator of /repo writes for `models/cover.yaml`, a data model with every construct
  that podio has (all kinds of members, array and component members and their initial values, vector members, both kinds of
  relations to datatypes and interfaces, to the own type, inside and outside of name spaces, interfaces, links between all
  kinds of ends, extra code). The templates and the generator are thus verified through what they generate.
* `ext` (thorough tier, and P11 in both): a second model with an upstream model (`models/ext.yaml`) and other options
  (`getSyntax`, no sub folder, ...).

`vp/interp.py` is an abstract interpreter over these control flow graphs: it enumerates abstract paths (trace
partitioning), with calls inlined, memory as a store from symbolic locations to symbolic terms, a model of the standard
library (containers, smart pointers, optionals, strings, locks, atomics, iterators, algorithms) and loops that are
summarised by one symbolic iteration (no bound on the number of elements is assumed). No solver is used: branch conditions
are decided by term rewriting and a small theory of equality and order; a path is dropped only if its conditions contradict
each other syntactically. What a path did (effects, calls, locks held, results) is what the rules talk about.

On top of that there are layers that find the *roles* of things through the public interface, not through their names:
`vp/sem.py` (the effects of a path, which field a getter reads), `vp/edm.py` (generated classes: where a collection keeps
its elements, where an object keeps its ID, what "every element" means), `vp/io.py` (buffers: which slot belongs to which
relation), `vp/frame.py`, `vp/reg.py` (static registration objects). So a renamed field, an extracted helper or a rewritten
loop changes nothing for a rule.

`vp/witness.py` adds type-level witnesses: small programs that have to compile, or must not compile, against the current
headers (P01, P11, P21). They are only compiled (`-fsyntax-only`), never run.

**Python (P15, P16, P23).** `vp/py.py` interprets the syntax trees of the generator modules in the same way: abstract paths,
calls inlined, symbolic values. P15 and P16 state for each kind of input what is known about it (a *scenario*: facts about
terms such as "the type of this member is not in the datatypes of the model", and which containers have a generic element);
everything that is not stated stays open, so that a rule holds only if the code reaches the verdict whatever the rest of the
model is. Loops that can end early are also entered with another element before the one that matters.
P23 adds a taint analysis for orders (`vp/order.py`).

**Verdicts.** A rule is an obligation for a construct (function, path, call site, record); it fails only with positive
evidence on some abstract path, and then the violation names function, source line and the conditions of the path. When
the analysis cannot be done (code it does not understand, a role that cannot be found) the check does *not* report a
violation: it ends with status 3, unless other obligations failed already. Each rule also has a minimum number of instances
(`need`), so that a check cannot become empty unnoticed.

**Cost.** A quick check takes 10-30 s (one compilation of everything to the IR, about 8 s, and the analysis); the thorough
tier adds the extension model. Loops have no bound; recursion is cut with an unknown result; the number of paths of a
function is limited (the analysis gives up with status 3 beyond, this does not happen on the current tree).

**Why this reaches what tests cannot.** The rules quantify over all abstract paths of a function, i.e. over all numbers of
elements, all states of the objects, all data models made of the constructs of the cover model and, for P03, all schedules.

**Soundness limits.** The cover model has every construct but not every combination; exceptions of the standard library
(`bad_alloc`) are not modelled; memory reached through different symbolic locations is assumed not to alias unless a rule
says otherwise; the models of the standard library are trusted; code that needs ROOT, SIO or Arrow is only analysed where a
rule is syntactic, since these libraries are not here.
'''

NOTES = {
"P01": "A closure over the public interface: starting from what a user gets from a `const Frame&`, a collection that is `const` or an immutable handle, every type reachable by calling accessible const member functions (or free functions and operators) is computed; no call in the closure may have an effect on memory that belongs to stored data (lazy unpacking and caches are told apart by their lock or by being equal before and after), and none may give out a mutable handle, a non-const reference or pointer to stored data. Compile-fail witnesses show that the obvious ways around (assigning through an immutable handle, converting immutable to mutable) do not compile.",
"P02": "The comparison operators are evaluated on all abstract cases of the identity of both operands (no object / object 1 / object 2), so that equality, a strict order and the agreement of the hash become finite tables which are compared with the specification.",
"P03": "For every pair of accesses to the same memory from operations that the class promises to be usable concurrently (const operations, and all of the self-synchronised classes) at least one common lock must be held unless both only read; plus check-then-act (a decision about a container and the action on it have to be under one lock). Fixed races are in the list of findings. Schedules that failed: (1) thread A in `get(id)` inserts into the set of retrieved IDs while B does: data race on `std::set`; (2) A stores a collection in the map and releases the lock before `prepareAfterRead/setReferences`, B gets it and reads empty relations; (3) A has taken the raw data out and has not stored the collection yet, B asks for the same name and gets a null pointer.",
"P04": "`Frame::get` is decided over all its abstract paths per frame data type: which lock is held from the lookup to the insertion, what happens to the buffers, in what order.",
"P05": "Effects on the map of collections are collected over all member functions of the frame model.",
"P06": "Both vectors are symbolic, lookups are `position of the key in one vector` -> `entry at this position of the other`.",
"P07": "Each modifying operation is evaluated for subset and normal collections and all states of the object that is added (untracked, element of another collection).",
"P08": "All writes to object IDs in all functions of the generated code and library are collected and have to be one of the known legitimate ones, with the value that the position in the collection implies.",
"P10": "Slots of the reference and vector-member buffers are symbolic integers derived from both sides (prepareForWrite / registration and prepareAfterRead / setReferences / buffer factory) and compared.",
"P11": "Each accessor of each handle (and of collections, component accessors, interfaces, links) is matched by its name to the member of the definition, which is read from the yaml file, and its storage is compared between getter, setter, constructor and column accessors.",
"P12": "`begin`/`end`/`size`/index accessors are terms over the container and the extent of the object.",
"P13": "prepareForWrite is evaluated over all states of the prepared flag and of the elements; what ends up in the buffers has to be one entry for each element and the concatenation of the relations with matching ranges.",
"P14": "The version dispatch is evaluated for all abstract versions; static registration objects are found in the initialisers of globals. The defects fixed here were shown by: `createBuffers(\"ExampleHitCollection\", 0, false)` and `evolveBuffers(..., 0, ...)` ended with a segmentation fault; a user defined converter followed by the registration of a generated one used the generated one.",
"P17": "Registration, lookup, writing and reading of definitions are evaluated symbolically; the demonstration of the fixed defect: a datatype called TrackCollection with relations has no relation names, `getRelationNames(\"TrackCollection\")` was empty.",
"P18": "For all value types the maps of the parameters are symbolic; set and get have to use the same map and key, in all overloads.",
"P19": "Links: typed and templated accessors resolve to the same ends in both directions.",
"P20": "The navigator: both maps are filled with the same records; lookups yield exactly the records for the key.",
"P21": "Interfaces: the virtual calls of the model classes are evaluated for every declared type.",
"P24": "User data collections of all basic types: the vector is symbolic.",
"P26": "The number of owners is counted along each path of each special member function and compared with the change of pointers; deletion has to depend on the result of the very operation that decremented.",
"P29": "Iterators: position arithmetic as terms.",
"P30": "Clones: every member and relation of the clone is compared as a term with that of the original, for tracked and untracked originals.",
"P33": "clear() against the state of a new collection.",
"P34": "Constants that a collection reports are compared with the spelling of its own type and with the registration objects.",
"P15": "`DataModelComparator.compare` and `SchemaEvolutionJudge.judge` are interpreted over symbolic data models: for each kind of difference the list of changes is exactly the expected one, for each kind of change the judge has errors or warnings (or none) on every path, and the program and the generator fail on them.",
"P16": "`ClassDefinitionValidator.validate` is interpreted over a symbolic model: for each kind of defect no path accepts, for each valid form not every path rejects; and reading passes everything on to the validation and stops at its errors.",
"P23": "`vp/order.py` is a taint analysis of the whole generator (context-sensitive per function, field-based for attributes and keys): unordered (a set), in an order taken from one, varying between runs, path of the output folder, file handle; sorting removes the taint unless the key can tie. What is written, rendered, used by a template (the templates are parsed) or embedded must be clean. Files: `write_file_if_changed`, `_write_file`, the list for the build system and `process` are interpreted (`vp/py.py`) with a stand-in for the file that is there (missing, same, other content, other line ends, not text). Defects fixed here were shown by generating the Julia and C++ code of one model with PYTHONHASHSEED 0..8, by a folder with files with CRLF or latin-1 text, and by `-d` on a folder with generated code.",
"P31": "What an output operator puts into the stream on a path is a list of terms, in which the fields of the data model definition have to appear once each behind their own name, whole (the loops around them run from the first to the last element) and, where required, by ID; the objects that `to_json` builds are collected as sets of key and term. Titles and values of tables are compared column by column. Stream flags are simulated (`std::hex`, `flags`, `setf`, ...). Defects fixed here were shown by `std::cout << link` (does not compile), `nlohmann::json(MutableLink)` (does not compile), the JSON of a subset collection of links and the table of a type with an array member.",
"P32": "For each public modifying operation each path that throws must not have changed anything that belongs to the object before.",
}

NOT_DONE = '''## Planted bugs that are not in `seeded/`

Bugs in templates (`.jinja2`) do not count for vcheck, since these files are not of a known source language. They are kept as
definitions in `selftest/seeds/` and (about 600 more, with behaviour-preserving edits next to them) as mutants in
`selftest/mutants.py`: `python3 selftest/run.py -k <text> -p <properties> -j 6` applies each to a copy of /repo's sources and
runs the check; mutants must be reported and benign edits must not.

## What was tried and dropped

* A per-file front end that parses only changed files: the whole front end takes 8 s, so it was not worth it.
* P31 first required that one-to-many relations are always printed by ID, for fear of endless recursion. Types with mutual
  one-to-many relations do not compile (their headers include each other), so recursion cannot happen and the rule was
  restricted to one-to-one relations and relations within one type.
* Deciding P22 (the names that the storage backends use) needs ROOT, SIO and Arrow headers to resolve the program.
'''
