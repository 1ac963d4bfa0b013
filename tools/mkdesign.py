import json,sys
sys.path.insert(0,'/verif')
from checks import BOUNDS
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
HEAD='''# Model checking argonne-lcf/CCS

CCS (C-Configuration-Space) is a sequential C library: reference-counted objects describing search spaces
(parameters, distributions, expressions, configuration/features/objective/tree spaces), values bound in them,
evaluations, tuners, and a binary serialization of all of it. There is no daemon, no file format with crash
semantics and almost no shared state. What a user relies on is therefore a statement over *every input and every
operation history*, over *every answer of the environment* (random draws, allocations, system calls, user
callbacks), and, for the per-thread error state and the absence of hidden shared state, over *every interleaving*.
All of these are decided here by one technique: bounded exhaustive (stateless) model checking of the real code.

## The engine

`run.py PROPERTY [--tier quick|thorough] [--suite S] [--replay FILE]`

1. builds `/repo/src/*.c` of the current working tree with clang AddressSanitizer and UndefinedBehaviorSanitizer
   (content-addressed under `/verif/build`), links the property's harness (`harness/pNN_*.cpp`) against it;
2. runs the harness in 8 worker processes. A harness is a set of *suites*; a suite is a C++ function that calls
   `mc::choose(n, label)` wherever something is open: which operation comes next, which argument, which value the
   generator returns, whether this allocation, system call or callback fails, which thread runs next.
   `harness/mc.cpp` enumerates **every** sequence of answers depth-first (choices beyond the bound do not exist,
   nothing is sampled, nothing is cut by time), one execution on the real code per sequence; workers split the
   choice tree by prefix. A replayed prefix that meets another number of alternatives than before is a hard error
   (nondeterminism the harness does not own).
3. In every execution the harness compares each observation with a *reference model* written in C++ beside it (a
   dictionary, a list, a set of numbers, a naive evaluator, an explicit tree, a Pareto filter over the whole
   history...). The end of every execution checks that no library object and no allocation is left (allocator
   wrapped at link time: `--wrap=malloc,calloc,realloc,strdup`), the sanitizers watch memory, and the driver watches
   for hangs (no progress for 60 s) and memory growth.
4. A candidate violation is replayed alone from its recorded choice sequence before it is reported; the file under
   `/verif/replays` holds the sequence, the labels of the choices and the report.
5. The evidence file lists executions, choice-tree states, library calls, and distinct outcomes per suite, so that
   a vacuous exploration is visible.

Sources of nondeterminism and who owns them: random numbers (a `gsl_rng` type registered by the harness, the
*tape*, whose raw draws are choices; uniform draws are `raw / 2^32`), memory (allocator wrapper: the n-th
allocation fails), I/O (`read write open close fstat mmap munmap ftruncate msync` wrapped), user callbacks (the
harness's), threads (a cooperative scheduler, `harness/threads.hpp`, that owns the hand-over at every
`-fsanitize-coverage=trace-pc` point, i.e. every basic block of the library, or between operations), handles
(addresses appear in serialized data; they are normalised before comparing).

There is no abstract model apart from the reference models, which are run in lock step with the implementation in
every execution; hence `traces_validated_against_impl` equals the number of executions: each explored trace *is* a
run of the implementation. The harnesses use the public headers only, so internal refactoring does not disturb them.

Shared parts: `ccsx.hpp` (RAII, tape, expectations), `expr_ref.hpp` (parameters, expressions and their semantics),
`cspace_ref.hpp` (configuration spaces), `dist_ref.hpp` (distributions), `eval_kinds.hpp`/`tuner_ref.hpp`
(evaluations, tuners), `tree_ref.hpp`, `describe.hpp` (a complete textual description of everything reachable from
an object through public queries), `catalog.hpp` (31 kinds of objects in all their variants), `calls.hpp` (348 calls
covering the public interface, each with the state it needs and the arguments that can be made invalid).

`quick` is meant for every change (3-80 s each on 8 cores); `thorough` uses the larger bounds given below.

## Properties
'''
M={}
M["P01"]="Every object of the catalogue is described (all public queries, samples drawn from a copy of the generator state, reference structure), serialized, restored, described again: equal. The identity structure of the restored graph must match for the kinds that are shared; bytes of the second serialization equal the first with handles numbered. Suites: every_kind, user_data (each object of the graph with or without user data through the callbacks)."
M["P02"]="For every object: size query, exact buffer, larger ones, and *every* shorter length on a heap block of exactly that length (ASan guards both ends); the object's description must not change."
M["P03"]="Every prefix must be refused; every single-byte substitution, removal or doubling must be refused or give an object all of whose queries work and that releases without leak. ASan/UBSan, leak check, hang watch and a memory ceiling decide `safe`."
M["P04"]="The descriptor is a model: each read or write asks the explorer for its answer. Oracle: bytes and object of the memory operations; the restart protocol (would-block gives `AGAIN`, state kept by the caller) is driven to its end; after an error nothing is left and no object is given."
M["P05"]="Pairs (object, dependency): the dependency is transferred first with the map, then the object; references must resolve to the mapped object; missing or wrong entries must be refused with nothing left."
M["P06"]="Reference: reachability. A destroy callback on every object of the graph records its death; after each release, the dead objects must be exactly those no longer reachable from a held reference, each callback once per registration. Counts are compared around every query and every refused call."
M["P07"]="For each call the number of allocations n is measured, then the call is run with allocation 1..n failing: it must return an error (out of memory), give nothing, leave all descriptions as they were, leak nothing; then it must succeed."
M["P08"]="All expressions of the bounded grammar are evaluated by the library and by the reference evaluator (40 lines per operator family); the value and its type, or the fact of an error, must agree."
M["P09"]="All queries of every expression of the grammar against the structure it was built from; construction refusals must leave reference counts and memory unchanged."
M["P10"]="Default and sampled configurations of every condition graph against the fixpoint defined by the reference (a parameter is active iff its condition evaluates to true in that very configuration)."
M["P11"]="Verdict of the reference (domains, activity, clauses) against every entry point that judges the same values; descriptions unchanged by checks."
M["P12"]="The reference decides acceptance (names, membership, graph cycle by DFS, default configuration against clauses); after every step all queries must match, also after refusals."
M["P13"]="Model: for each parameter the assignment that covers it. Distributions have disjoint ranges, so each sampled value identifies the distribution and component it came from."
M["P14"]="All draws of the tape; every configuration given is judged by the reference of P11, number and order of configurations by the call's contract, failure by the retry bound; which draw decides which parameter is learnt on the unconstrained space, so that the first valid assignment on the tape is predicted and must be the one returned."
M["P15"]="Model: the ordered list. Every key by every query, arrays of every size placed on exact heap blocks."
M["P16"]="Model: explicit domain predicate (in long double for bounds). Samples and conversions must satisfy it for all draws."
M["P17"]="Model: inverse-transform formulas and bounds in long double; the three layouts are run from the same draws on guarded arrays and compared bytewise; untouched cells must be untouched."
M["P18"]="Shares as exact rationals; draws at each boundary and neighbours decide half-openness; composition compared component by component."
M["P19"]="Sets of numbers enumerated explicitly (integers around the bounds; half-integer grid for floats)."
M["P20"]="std::map-like reference keyed by (type, value); enumeration compared as sets; storage of transient strings overwritten after each call; object counts compared."
M["P21"]="Pareto dominance on computed objective vectors, plus reflexivity/antisymmetry/transitivity on all triples."
M["P22"]="Model: the list told; optima recomputed from scratch by a quadratic filter after every step; suggestions must equal the optimum picked by the draw."
M["P23"]="As P22 per features value; queries with no features give all."
M["P24"]="As P22; dynamic spaces grow while sampling."
M["P25"]="Callbacks log what they receive and answer as the explorer decides (success or one of several error codes). The log must be exactly one entry per request with identical arguments; answers and codes must reach the caller."
M["P26"]="Model: explicit tree with recomputed cumulated weights (exact dyadic numbers)."
M["P27"]="Model: explicit tree; the choice at each node recomputed from the draw and the shares; positions judged by walking the model."
M["P28"]="Book of calls with every argument invalid in turn: error returned, error stack present with that code, all descriptions, outputs and counts as before. Threads: every interleaving of operations, and one preemption at every branch of a failing call."
M["P29"]="Reference: contents; all pairs and triples in all ways of building."
M["P30"]="The GSL's own generators as the reference sequence; model of which generator each space holds; all interleavings."
M["P32"]="The expression is read back from the library through raw C calls (not through the classes that print it); the oracle parser is an independent precedence-climbing parser of the documented grammar; both the printed text and every enumerated token sequence go through the real parser. The Python harness uses the same enumeration, replay and worker protocol as the C++ ones (harness/py/pymc.py)."
M["P33"]="The oracle is the library itself, called through a second, independent set of raw C calls (harness/py/pymirror.py declares its own datum, interval and enumeration layouts); every accessor of the object and of everything it refers to is compared after every operation of every enumerated sequence."
M["P34"]="All orders of making, looking at and dropping are enumerated on the real bindings; after each the blocks the library holds (counted by an interposed allocator), the bindings' store of attached data, weak references to everything handed over and the calls of callbacks are compared with what the history says. BaseExceptions that are no Exceptions (KeyboardInterrupt) in callbacks are not covered; the expression parser keeps its last sentence until the next one (flushed by the harness)."
M["P35"]="Each combination runs on the real bindings; the error raised is compared with the exception the callback raised (code, message, places), nothing may stay pending or be reported lost by the interpreter, and the object is used again afterwards; threads are run one call at a time in every order. The suite `every_call_refused` stands between the bindings and the library and refuses, one after another, each call made while an object is made or queried: the error raised must be that refusal."
M["P36"]="Oracles: the bytes the library gives without the bindings, and a description of the object made of all its accessors (checked against the library by P33), recursively and without addresses, before and after."
M["P37"]="The connector is compiled into the harness, which plays Kokkos: it declares variables, opens, nests and ends contexts, runs kernels, and owns the clock, the fence and the random generator. Declarations and values are only lent and overwritten afterwards. Oracles: the set of candidates computed from the declaration, the list of measures kept by the harness, and the stack of contexts. Contexts end in the reverse order of their requests, each asks once; bounds at the ends of the integers or infinite are left out; the connector reports misuse by assert, so it is built without NDEBUG."
M["P38"]="The bindings run on the installed Ruby against the sanitized library; the gems ffi-value and whittle, absent here, are replaced by harness/rb/shim (a datum type for Ruby values, and a parser that is never called: text expressions are left out). Suites draw every decision from the enumerator in harness/rb/rbmc.rb. Oracles: the values given, computed results, raw calls of the library, and two objects on one handle or a restored copy. Finalizers run at the end of each execution; then the library's count of live blocks must be what it was."
M["P31"]="A call is stopped at each branch it takes; another thread runs a whole call on its own objects; both outcomes and all object descriptions must equal those of undisturbed runs."
out=HEAD
for p in props:
    i=p['id']
    out+='\n### %s %s\n\n%s\n\n*Decided by:* %s\n\n*Bounds:* %s.\n\n*Why tests cannot:* %s\n'%(i,p['title'],p['statement'],M.get(i,'TODO'),BOUNDS.get(i,'TODO'),p['why_tests_cant'])
out+=open('/verif/tools/design_tail.md').read()
open('/verif/DESIGN.md','w').write(out)
