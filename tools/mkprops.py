import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=state
    if observe: a["observe_at"]=[observe]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("P01","Binary serialization round-trips every object graph",
"Serializing any library object (parameters, distributions, expressions, spaces, configurations, features, evaluations, maps, trees, random generators, tuners) and deserializing the bytes yields an object that is observably equivalent through every query of the public interface, including generator state (both then sample the same values), tuner history and optima, tree weights, attached user data and the values of every kind and size. Parameters, spaces, tree nodes and evaluations that several parts of the graph share are still one object after restoring, while distributions, generators, expressions, configurations and features may come back as equal copies. Serializing the restored object again yields the same bytes but for the object handles recorded in them.",
["inputs","histories"],"every object graph in a bounded catalogue of constructors and parameters of all object types, including objects whose state was changed by operations before being serialized, and all boundary value encodings",
"The tests serialize a few hand-picked instances per type; a field, size class, optional part or generator state that is dropped or reordered only shows on the combinations that were not picked.",
["src/cconfigspace.c","src/cconfigspace_deserialize.h","src/cconfigspace_internal.h","src/parameter_deserialize.h","src/distribution_deserialize.h","src/expression_deserialize.h","src/configuration_space_deserialize.h","src/tuner_deserialize.h","src/tree_deserialize.h","src/tree_space_deserialize.h","src/map_deserialize.h","src/rng_deserialize.h"],
[("binary encoders/decoders per object","src/*_deserialize.h and the serialize_object operations in src/*.c"),("LEB128 integers, datum, string, blob primitives","src/cconfigspace_internal.h")],
observe="ccs_object_serialize / ccs_object_deserialize and all getters")

p("P02","Serialized size is exact and short buffers are refused without overrun",
"For every object, the size query reports exactly the number of bytes that serialization to memory then produces, and serializing to a buffer of at least that size succeeds and writes those same bytes every time. Serializing to any shorter buffer fails with a not-enough-data error and never writes outside the buffer or changes the object.",
["inputs","histories"],"every object in the catalogue, and every buffer length from zero to one past the exact size",
"A size that is off by a byte for one encoding of one object kind needs exactly that object and exactly that buffer length to show.",
["src/cconfigspace.c","src/cconfigspace_internal.h"],
[("size/memory operations of ccs_object_serialize","src/cconfigspace.c"),("per object _ccs_serialize_bin_size_*","src/*.c")])

p("P03","Damaged serialized data is rejected or read safely",
"Deserializing any truncated or corrupted byte string never reads or writes out of bounds, hangs, or terminates the process: it either reports an error, leaving nothing allocated and producing no object, or yields an object that can be queried and released safely. A strict prefix of a valid serialized object is always reported as an error.",
["inputs","fault_sequences"],"for every object in the catalogue: every proper prefix, and every single-byte substitution (all positions, a set of replacement values) of its serialized form",
"Tests never feed damaged data; each decoder checks its own lengths and one missing check is only reachable by damaging the one byte that holds that length.",
["src/cconfigspace_deserialize.h","src/cconfigspace_internal.h","src/cconfigspace.c"],
[("bounds checks in decoding primitives","src/cconfigspace_internal.h"),("per object decoders and their error paths","src/*_deserialize.h")])

p("P04","File and descriptor transfer equals memory transfer under any I/O schedule",
"Serializing to or deserializing from a file or a file descriptor (blocking or restartable non-blocking) produces the same bytes and an equivalent object as the memory operations, no matter how the system splits the transfer into short reads and writes, interruptions or would-block answers between restarts. A premature end of data or an I/O error is reported as an error, with all resources released and no object produced.",
["schedules","fault_sequences"],"every sequence of per-call answers (full, partial, would-block, interrupted, error, end of file) from the descriptor up to a bounded number of deviations",
"Local files and pipes in tests always transfer everything at once; the restart and partial paths are only taken for particular answer sequences.",
["src/cconfigspace.c"],
[("file descriptor state machine","src/cconfigspace.c _ccs_object_serialize_file_descriptor/_ccs_object_deserialize_file_descriptor"),("file paths","src/cconfigspace.c _ccs_object_serialize_file")])

p("P05","Handle maps preserve object identity across separate transfers",
"When deserializing with a handle map, the restored object is recorded in the map under its original handle when requested, and every reference to an object serialized earlier resolves to the very object recorded in the map, so that objects sent separately link up exactly as the originals did. A reference that is neither in the stream nor in the map, or a handle that is already taken, is reported as an error and nothing is left allocated.",
["histories","inputs"],"every pair (object, separately transferred dependency) of the object catalogue with mapping on, off, supplied or missing",
"Whether identity is preserved depends on which of the many referencing object kinds is transferred, in which order and with which options; tests take one combination.",
["src/cconfigspace_deserialize.h","src/cconfigspace.c","src/cconfigspace_internal.h"],
[("handle lookup and registration","src/cconfigspace_deserialize.h"),("options","src/cconfigspace.c _ccs_object_deserialize_options")])

p("P06","Objects live exactly as long as something references them",
"An object stays valid while the user or any other object holds a reference to it, and is destroyed exactly once, at the moment its last holder lets go, in whatever order holders are released; destruction then releases everything it held. Destruction callbacks each run exactly once per registration, and failing calls neither leak memory nor change any reference count.",
["histories"],"every interleaving of retain and release operations over every object kind that holds other objects, in every release order, including constructors that fail",
"A reference that is taken once too often or too rarely only shows for a particular release order of a particular pair of object kinds, and usually as silent leak or use after free.",
["src/cconfigspace_internal.h","src/cconfigspace.c"],
[("reference counts and callbacks","src/cconfigspace.c ccs_retain_object/ccs_release_object, src/cconfigspace_internal.h _ccs_object_init"),("per-type destructors","src/*.c _ccs_*_del")])

p("P07","Allocation failure at any point is reported cleanly",
"If memory allocation fails at any single point inside a public call, the call returns an error, leaks nothing, produces no object, and leaves every object involved as it was and usable; bulk additions and bulk samplings may have done their first parts, and draws of a generator may have been consumed. The same call made again with memory available succeeds normally.",
["fault_sequences"],"every public constructor and mutator in the catalogue, and every allocation it makes failing in turn",
"Tests cannot make the n-th allocation fail; the error paths that undo partial work are executed only then.",
["src/*.c"],[("goto based error unwinding","src/*.c"),("CCS_VALIDATE_ERR_GOTO / CCS_REFUTE_ERR_GOTO","src/cconfigspace_internal.h")])

p("P08","Expression evaluation follows the documented semantics",
"Evaluating any expression tree against any set of values gives the result defined by the operators: comparison, membership, logical, arithmetic on integers, floats, booleans, strings and none, with integer/float promotion and ordinal and categorical value handling. An inactive operand makes the result inactive, except for an or whose other operand is true and a membership that another list element satisfies, and ill-typed operands, division by zero and unbound variables give an error, never a value; evaluation never crashes.",
["inputs","programs"],"all expression trees up to a bounded depth over all operators and a set of boundary leaf values and variables, in every context binding",
"The number of operator and operand type combinations is far beyond the sampled cases, and mistakes sit in single cells of that table.",
["src/expression.c"],[("per operator evaluation","src/expression.c _ccs_expr_*_eval"),("datum comparison","src/expression.c _ccs_datum_cmp*")],observe="ccs_expression_eval")

p("P09","Expression introspection reports exactly the tree that was built",
"For any expression, the type, number of nodes, nodes in order, literal value and variable parameter reported are those it was built with, and the set of parameters it depends on is exactly the distinct parameters occurring in it. An expression is accepted as valid for a context exactly when every parameter it uses belongs to that context, and construction fails for wrong arity or invalid operands without side effects.",
["programs","inputs"],"all expression trees up to a bounded depth over a set of shared parameters, all operators and all arities, all subsets of parameters as context",
"Dependency sets are computed recursively with deduplication, so errors need a particular nesting of repeated variables.",
["src/expression.c"],[("parameter collection","src/expression.c ccs_expression_get_parameters"),("context check","src/expression.c ccs_expression_check_context")])

p("P10","Parameter activity follows the conditions",
"In every configuration the space itself produces (default or sampled), a parameter is inactive exactly when it has a condition that does not evaluate to true on that configuration, be it because it is false or because it depends on an inactive parameter, directly or through any chain of conditions; every other parameter carries a value of its domain. This holds for any shape of condition graph and does not depend on the order in which parameters or conditions were declared.",
["configurations","inputs"],"all condition graphs over a small number of parameters (every acyclic assignment of conditions from a fixed family), all insertion orders and all sampled value combinations",
"The propagation depends on a topological order computed from the declared graph; tests use one or two small graphs declared in natural order.",
["src/configuration_space.c","src/configuration_space_internal.h"],[("topological sort","src/configuration_space.c _generate_topological_sort"),("condition application","src/configuration_space.c _set_actives")])

p("P11","A configuration is judged valid exactly when it satisfies the space",
"Checking a configuration reports valid if and only if every active parameter has a value of its domain, every parameter whose condition does not hold is marked inactive and no other is, and no forbidden clause evaluates to true; features and evaluation values are valid exactly when each value is in its parameter's domain. The different ways of checking the same values agree, and no check modifies what it checks or the space.",
["inputs","configurations"],"all assignments of values (including inactive, out-of-domain, wrong type) to the parameters of all small spaces in a family of conditions and forbidden clauses",
"The verdict is a function of the whole assignment and of all constraints; tests check a handful of assignments.",
["src/configuration_space.c","src/configuration.c"],[("validity check","src/configuration_space.c _check_configuration/_test_forbidden"),("condition check","src/configuration_space.c")])

p("P12","Constraint declaration accepts only sound spaces and fails without effect",
"A configuration space accepts parameters, conditions and forbidden clauses exactly when all refer to parameters of the space, no name or parameter is declared twice, no parameter is conditioned twice, no cyclic dependency results and no clause forbids the default configuration or fails to evaluate on it; otherwise it reports an error and is left exactly as it was, but for the elements of a bulk addition that precede the refused one. Accepted constraints are reported back as declared, one by one and in bulk.",
["histories","configurations"],"all sequences of constraint declarations up to a bounded length over all dependency graphs on a few parameters, including those that must be refused",
"Detecting a cycle or undoing a refused addition depends on the history of earlier additions; tests only add valid ones or a single bad one.",
["src/configuration_space.c"],[("set_condition/add_forbidden_clause(s)","src/configuration_space.c"),("cycle detection","src/configuration_space.c")])

p("P13","Each parameter is sampled from the distribution last assigned to it",
"A configuration space always assigns each parameter exactly one distribution and position: the last one successfully set for it, or its default. Replacing a multi-parameter distribution returns all the parameters it covered and that are not reassigned to their default, refused assignments change nothing, and sampling draws each parameter from exactly the reported source.",
["histories"],"all sequences of assignment operations (single and multi-dimensional distributions, valid and invalid index lists) up to a bounded length",
"The bookkeeping partitions parameters among overlapping assignments; only particular overlap sequences lose or duplicate a parameter.",
["src/configuration_space.c","src/configuration_space_internal.h"],[("distribution wrappers","src/configuration_space.c ccs_configuration_space_set_distribution")])

p("P14","Every sampled configuration is valid",
"Whatever values the random generator returns, each configuration sampled from a configuration space is valid for that space, or sampling reports that it could not succeed. A drawn assignment that is valid once its inactive parameters are set aside is the one returned: only invalid ones are drawn again. Sampling several configurations at once gives only valid configurations, in the number requested; when it fails it gives those found first and nothing after them, and leaks nothing.",
["inputs","configurations"],"all random outcomes on a grid (including extreme draws) for all small spaces in a family of conditions, forbidden clauses and distributions",
"A seeded test sees one sequence of draws; an invalid sample appears only for draws that hit a boundary or a forbidden corner.",
["src/configuration_space.c","src/parameter_numerical.c"],[("rejection sampling","src/configuration_space.c ccs_configuration_space_sample(s)")])

p("P15","Values and parameters are found consistently by position, name and handle",
"In every context and every set of bound values, looking up a parameter or value by position, by name or by parameter handle gives the same answer, bulk queries give all of them in declaration order, and absent names, foreign parameters, out-of-range positions and undersized output arrays are refused without writing past the array. Declaring a parameter twice, or two parameters with the same name, is refused, and the same object declared in several contexts is found at its own position in each.",
["inputs","configurations"],"all small ordered parameter lists over a pool with colliding names, all lookups by every key, all array sizes around the exact one, for every context and binding kind",
"The same lookups are implemented through several index structures and macros for each object kind; an error shows for one kind, key and size only.",
["src/context.c","src/binding.c","src/context_internal.h","src/binding_internal.h","src/objective_space.c","src/features_space.c","src/configuration_space.c"],[("name and handle hashes","src/context_internal.h"),("binding values","src/binding_internal.h")])

p("P16","Parameter domains are decided exactly and sampling stays inside them",
"For every parameter kind, a value is accepted exactly when it belongs to the declared domain (type, lower bound included and upper bound excluded, enumerated values), single and bulk checks and validations agree, the default value belongs to the domain, and construction is refused for an empty domain or an inconsistent default. Values sampled from any compatible distribution, or converted from raw distribution samples, always belong to the domain, whatever the generator returns.",
["inputs"],"all small parameter definitions of all kinds with all bound inclusion patterns, all candidate values around the bounds and of other types, and all random draws on a grid",
"Bounds, quantization and inclusion combine with type conversion; an error needs one bound pattern with a value exactly on it.",
["src/parameter.c","src/parameter_numerical.c","src/parameter_categorical.c","src/parameter_ordinal.c","src/parameter_discrete.c","src/parameter_string.c"],[("check_values/samples/convert_samples","src/parameter_*.c")])

p("P17","Distribution samples respect the declared bounds and layout",
"Every value drawn from a distribution of finite range lies within the bounds it reports (and on its quantization grid when it has one), whatever the generator returns, and the oversampling verdict for an interval is exactly whether the reported bounds can fall outside that interval. The plain, strided and structure-of-arrays forms write exactly the requested positions with the values the plain form would produce from the same draws; columns given as null are skipped.",
["inputs"],"all distribution kinds with small parameter grids (scale, quantization, types), all random draws on a grid including extremes, all counts, strides and skipped columns up to small bounds",
"Boundary draws occur with probability near zero in seeded tests, and the strided variants duplicate the code.",
["src/distribution_uniform.c","src/distribution_normal.c","src/distribution_roulette.c","src/distribution_mixture.c","src/distribution_multivariate.c","src/distribution.c"],[("sampling kernels","src/distribution_*.c"),("bounds and oversampling","src/distribution.c ccs_distribution_check_oversampling")])

p("P18","Discrete and composite distributions select by their declared weights",
"A roulette or mixture distribution picks, for each uniform draw, exactly the entry whose half-open share of the normalized cumulated weights contains the draw, never an entry of zero weight or beyond the last; a multivariate distribution concatenates its components in order with each component's own types, scales and bounds. Reported areas, weights, components and dimensions are those declared, normalized, and invalid weights or incompatible components are refused.",
["inputs"],"all small weight vectors (including zeros and negative values) and component lists with all draws on a fine grid and at every share boundary",
"Selection errors at share boundaries are statistically invisible and depend on the weight vector.",
["src/distribution_roulette.c","src/distribution_mixture.c","src/distribution_multivariate.c","src/distribution_internal.h"],[("dichotomic search over areas","src/cconfigspace_internal.h/_ccs_dichotomic_search"),("mixture/multivariate composition","src/distribution_mixture.c")])

p("P19","Interval operations are exact set operations",
"For every pair of integer or float intervals with any combination of included and excluded bounds, emptiness, membership, intersection and equality agree with the sets of numbers they denote; the union of non-empty intervals is the smallest interval containing both. Mixing types is refused.",
["inputs"],"all pairs of intervals with bounds from a small grid and every inclusion pattern, all member candidates between and on the bounds",
"Sixteen inclusion patterns times bound orders per pair; tests sample a few.",
["src/interval.c"],[("interval algebra","src/interval.c")])

p("P20","Maps behave as dictionaries keyed by value",
"A map behaves as a dictionary from values to values under any sequence of set, get, exists, delete and clear operations: lookups return the last value set, size, keys, values and pairs enumerate exactly the present entries, keys of different types never alias while equal keys of the same type do (strings by content), and the map keeps its own copy or reference of what it stores. Missing keys give an error or none as documented, and no sequence leaks or corrupts memory.",
["histories"],"all operation sequences up to a bounded length over keys of every type, including colliding and transient keys, against a reference dictionary",
"State depends on the whole operation history; tests run one straight-line scenario.",
["src/map.c","src/datum_hash.h","src/datum_uthash.h"],[("datum keyed hash table","src/map.c"),("datum hashing and equality","src/datum_hash.h")])

p("P21","Evaluation comparison is Pareto dominance",
"Comparing two evaluations of the same objectives says better, worse, equivalent or not comparable exactly according to Pareto dominance with each objective's own direction, and is therefore antisymmetric, transitive and reflexive. Objective values are exactly the objective expressions evaluated on the evaluation's values, with their directions; evaluations that failed, or belong to different objectives or features, and objective values that cannot be computed, are of different types or are not numbers, are never ordered against others.",
["inputs","configurations"],"all pairs and triples of evaluations over value grids for one to three objectives of every direction combination, for plain, feature and tree evaluations",
"Dominance is a joint function of all objectives and directions of both operands; tests check a few pairs.",
["src/evaluation.c","src/features_evaluation.c","src/tree_evaluation.c","src/objective_space.c"],[("compare","src/evaluation.c ccs_evaluation_compare"),("objective values","src/evaluation.c ccs_evaluation_get_objective_values")])

p("P22","Tuner history and optima are exact for every ask/tell history",
"After any sequence of ask, tell and suggest, the default tuner reports exactly the successful evaluations told to it, in order, and its optima are exactly those not dominated by any other, each non-dominated outcome being represented (an outcome equivalent to an earlier one needs not be kept, one that cannot be compared is); a suggestion is an optimum's configuration, or a valid sample if nothing was told. Asked configurations are always valid, and queries with undersized arrays are refused without effect.",
["histories","inputs"],"all sequences of tells over all value vectors from a small grid, with asks, suggests and failed evaluations interleaved, and all generator draws for suggestions",
"The optimum set is maintained incrementally, so a wrong eviction needs a particular order of dominated and non-dominated results.",
["src/tuner_random.c","src/tuner.c"],[("incremental Pareto front","src/tuner_random.c _ccs_tuner_random_tell"),("suggest","src/tuner_random.c")])

p("P23","Feature-aware tuning keeps feature values apart",
"After any sequence of tells under any features, the feature tuner reports, for given features, exactly the history and optima told under those features, and for no features given, those of all of them; results under different features never dominate or evict each other. Asks and suggestions for given features give valid configurations, drawn from that features' optima when there are any.",
["histories","inputs"],"all interleavings of tells and queries over several feature values and objective vectors up to a bounded length",
"Errors need results of different features interleaved in a particular order; tests use random data with one pattern.",
["src/features_tuner_random.c","src/features_tuner.c","src/features_evaluation.c"],[("per features optima","src/features_tuner_random.c")])

p("P24","Tree tuning history and optima are exact",
"After any sequence of tells, the tree tuner reports exactly the successful evaluations told, in order, and its optima are exactly the non-dominated ones; asks give configurations whose positions exist in the tree, and a suggestion is one of the optima or a sample if there are none. This holds for static and lazily grown tree spaces alike.",
["histories","inputs"],"all sequences of tells over small value grids and tree positions, all generator draws for asks and suggests",
"Same incremental bookkeeping as flat tuning, on separate code that tests exercise once.",
["src/tree_tuner_random.c","src/tree_tuner.c","src/tree_evaluation.c"],[("incremental Pareto front","src/tree_tuner_random.c")])

p("P25","User-defined components receive and propagate exactly what is exchanged",
"User-defined tuners, tree tuners, feature tuners, dynamic tree spaces and user data callbacks receive each request exactly once with the caller's arguments, their results and errors reach the caller unchanged, and their state is serialized, restored and deleted through their own callbacks exactly once. When a callback fails, the operation fails with its error and nothing is leaked or half-recorded; requests that are invalid in themselves never reach a callback.",
["histories","fault_sequences"],"all sequences of operations up to a bounded length with each callback invocation succeeding or failing, for every user-defined component kind",
"The number of (operation, failing callback) combinations is beyond the tests, which only use succeeding callbacks.",
["src/tuner_user_defined.c","src/tree_tuner_user_defined.c","src/features_tuner_user_defined.c","src/tree_space_dynamic.c","src/cconfigspace.c"],[("vector dispatch","src/tuner_user_defined.c"),("dynamic child creation","src/tree_space_dynamic.c")])

p("P26","Trees keep a consistent shape, parentage and weights",
"Under any sequence of node creations, child attachments, weight and bias changes, every tree reports exactly the children, parents, depths, indices, positions, values and weights of the structure built; attaching an already attached, out-of-range or cycle-forming child, and weights or biases that are negative or not finite, are refused without effect. The cumulated weight of every node is always its own weight plus its children's contributions scaled by their bias.",
["histories"],"all sequences of tree operations up to a bounded length over a few nodes and arities, against a reference tree",
"Cumulated weights are updated incrementally up the ancestors, so errors depend on the order of attachments and changes.",
["src/tree.c","src/tree_internal.h"],[("weights propagation","src/tree.c _ccs_tree_update_weight"),("positions","src/tree.c ccs_tree_get_position/get_node_at_position")])

p("P27","Tree space positions and samples always denote real choices",
"Positions sampled from a tree or tree space, whatever the generator returns, follow the roulette of weights and biases node by node, never descend into a zero-weight choice, stop at a choice that has no node, and are accepted as valid by the space; looking up values and nodes along a position, checking positions and checking configurations agree with the tree for every possible position. Dynamic spaces create each missing node exactly once, on demand, then behave as a static space over the resulting tree, and keep nothing of an expansion that failed.",
["inputs","histories"],"all small weighted trees, all positions up to depth plus one with out-of-range entries, all random draws on a grid, all sequences of dynamic expansions",
"Tests sample with one seed from one tree; boundary draws and invalid positions are not covered.",
["src/tree.c","src/tree_space.c","src/tree_space_static.c","src/tree_space_dynamic.c","src/tree_configuration.c"],[("sampling","src/tree.c _ccs_tree_samples"),("dynamic expansion","src/tree_space_dynamic.c")])

p("P28","Failures are reported per thread and leave state untouched",
"Every failing call returns an error code and leaves a retrievable error description for that thread only; errors of one thread are never seen, overwritten or released by another, under any interleaving, until taken or cleared. A call given invalid handles, null pointers, wrong object types or bad sizes fails with an error and changes no object, but for the first parts of a bulk addition and generator draws consumed.",
["schedules","inputs"],"all interleavings of failing calls, error retrievals and clears of two threads; all public functions with each argument invalid in turn",
"The tests are single-threaded and check few invalid argument combinations.",
["src/error_stack.c","src/cconfigspace_internal.h"],[("thread local error stack","src/error_stack.c"),("argument checks","src/cconfigspace_internal.h CCS_CHECK_*")])

p("P29","Hashing and ordering of values and bound objects are coherent",
"Comparing bound objects (configurations, features, evaluations, tree configurations) is a total order, reported as -1, 0 or 1, in which two compare equal exactly when they have the same context and the same values (for evaluations also the same result and the same configuration), and equal objects always have equal hashes. Neither depends on string storage or on how the object was produced (built, copied, changed, sampled, deserialized), and comparing plain values is a total order too.",
["inputs"],"all pairs and triples of bound objects over small value grids of every value type, built in every available way",
"Consistency is a relation over pairs and triples of values of mixed types, which tests check on one pair.",
["src/binding.c","src/binding_internal.h","src/datum_hash.h","src/tree_configuration.c","src/evaluation.c"],[("hash and cmp","src/binding_internal.h _ccs_binding_hash/_ccs_binding_cmp"),("datum cmp","src/datum_hash.h")])

p("P30","Random generators are reproducible and exclusively owned",
"A generator seeded with the same seed and type always produces the same sequence, that of the underlying generator of that type, through every interface; drawing through one object never affects another unless they were given the same generator, and setting a new generator on a space takes effect for all later samples. Uniform draws stay in the half-open unit interval and raw draws within the reported minimum and maximum.",
["histories","inputs"],"all generator types, a set of seeds, and all interleavings of draws, reseeds, serializations and generator replacements over two spaces up to a bounded length",
"Hidden sharing or a dropped reseed shows only for particular interleavings of two users.",
["src/rng.c","src/configuration_space.c","src/tree_space.c"],[("rng object","src/rng.c"),("space generators","src/configuration_space.c ccs_configuration_space_set_rng")])

p("P31","Threads with separate objects do not disturb each other",
"A call gives the same results and leaves the same objects behind when another thread, working on objects of its own, runs calls of the library in the middle of it, wherever that happens. The library keeps no state shared by objects that have nothing in common.",
["schedules"],"every call of the public interface interrupted at every branch of the library's code by the same call, and by calls of every other part, of another thread",
"The tests are single-threaded; a scratch buffer or a cache that became shared shows only when two calls overlap at the wrong place.",
["src"],[("per-thread error state","src/error_stack.c"),("per-object state","src/*.c")])

p("P32","Expressions print as text that parses back to the same expression",
"In the Python bindings the text of any expression over parameters with identifier-like names (other than the words none, true and false), finite numbers, strings, booleans, none and lists, parsed in the context of those parameters, gives an expression with the same operators, operands and shape, but that a minus sign before a number may be read as part of the number; printing that expression again gives the same text. The parser accepts exactly the sentences of the documented grammar (operators, parentheses, lists, literals with their escapes, names), gives them the shape that the documented precedences and left-to-right grouping require, and refuses every other sequence of tokens and every name that is not a parameter of the context.",
["inputs"],"all expressions up to a depth over all operators and literal kinds, all token sequences up to a length, and chains and nests of tens of operands",
"The tests parse and print a dozen sentences; a missing pair of parentheses or a wrong precedence shows only for one nesting of two particular operators, and a wrong escape only for one character.",
["bindings/python/cconfigspace/expression.py","bindings/python/cconfigspace/expression_parser.py","src/expression.c"],[("printer","bindings/python/cconfigspace/expression.py __str__"),("grammar","bindings/python/cconfigspace/expression_parser.py"),("symbols, precedences, associativities and token patterns","src/expression.c ccs_expression_precedence, ccs_terminal_regexp")])

p("P33","The Python bindings report and pass on exactly what the library holds",
"In the Python bindings every accessor of every class (names, values, bounds, distributions, conditions, clauses, objectives, histories, hashes, orders, comparisons, checks, validations, sizes) answers with what the C library answers for the same object at the same moment, however the object was obtained and whatever was changed since; an object obtained from its handle is of the class of that object; every Python value (integers, floats, booleans, strings, none, objects, long and non-ASCII ones) handed to the bindings arrives unchanged in the library and comes back as an equal value of the same type; a value that the library cannot hold (an integer outside 64 bits, a thing that is no value) is refused and nothing changes; a call that the library refuses raises the corresponding error; sampling through the bindings draws what the library draws from the same generator; enumerations name exactly the constants of the library.",
["inputs","histories"],"all classes and their variants, all accessors, all value kinds at all entries, and all operation sequences up to a depth on objects that change",
"The tests read back a few attributes of freshly made objects; a wrong conversion or a stale answer shows only for one accessor, one value kind, or after one particular change of the object.",
["bindings/python/cconfigspace/base.py","bindings/python/cconfigspace/binding.py","bindings/python/cconfigspace/context.py","bindings/python/cconfigspace/configuration_space.py"],[("accessors of the classes","bindings/python/cconfigspace/*.py"),("values in and out","bindings/python/cconfigspace/base.py Datum"),("classes from handles","bindings/python/cconfigspace/base.py Object.from_handle")])

p("P34","Python objects and what users attach live exactly as long as needed",
"In the Python bindings every object, however it was obtained and in whatever order it and what it refers to are dropped, holds exactly one reference to the library's object and gives it back, so that nothing is used after it is freed and nothing stays allocated once everything is dropped, refused creations included. User data, destruction callbacks, and the callbacks and data of user-defined tuners and dynamic tree spaces stay alive as long as the library may use them, are called once with the right object, and are dropped with the object, even when a callback raises; an object at the address of an earlier one has nothing of it.",
["histories","inputs"],"all classes, all accessors, all orders of dropping, all kinds of attached data and callbacks, raising ones included",
"The tests keep everything alive until the end of the process and never count what the library holds; a missing or an extra reference, or a callback collected too early, shows only in one order of dropping one kind of object.",
["bindings/python/cconfigspace/base.py","bindings/python/cconfigspace/tuner.py","bindings/python/cconfigspace/tree_space.py"],[("references","bindings/python/cconfigspace/base.py Object"),("attached data","bindings/python/cconfigspace/base.py _data_store"),("user-defined objects","bindings/python/cconfigspace/tuner.py, features_tuner.py, tree_tuner.py, tree_space.py")])

p("P35","Errors cross the Python bindings whole, in both directions",
"Whatever exception a Python callback raises (of user-defined tuners, of dynamic tree spaces, of user data written or read), at whatever call, the call of the library that ran it raises an error of the same code (external for Python's own exceptions), whose message is the exception's and whose places name the callback, and afterwards the object works on; a callback that answers with something unusable makes the call fail, not crash. Every call refused by the library raises an error with its code, message and places, which are then no longer pending; each thread has its own pending error, and error stacks made by users keep their code, message and places however long the strings they were made from live.",
["inputs","histories","schedules"],"all callbacks x all kinds of exceptions and answers x first and later calls, all refused calls of a list, all interleavings of error operations of two threads",
"The tests raise one exception in one callback; lost exceptions show only for particular messages (empty, percent signs, not encodable), callbacks and threads.",
["bindings/python/cconfigspace/base.py","bindings/python/cconfigspace/error_stack.py","bindings/python/cconfigspace/tuner.py"],[("exceptions to errors","bindings/python/cconfigspace/base.py Error"),("error stacks","bindings/python/cconfigspace/error_stack.py"),("callbacks","bindings/python/cconfigspace/tuner.py, features_tuner.py, tree_tuner.py, tree_space.py")])

p("P36","What the Python bindings serialize comes back equal by every way",
"In the Python bindings every object written to memory, to a file or to a descriptor (also descriptor 0, a pipe, several objects one after another) yields the library's own bytes and is read back as an object of the same class that describes itself equally down to the last part, with the user data attached to it and to its parts (JSON by default, or by the callbacks and callback data given); a handle map given, even an empty one, is used and filled, and an object that refers to others is refused without them. User-defined tuners and dynamic tree spaces come back with the data given, their state, history, optima and user data, and work on; exactly one source must be named; damaged input is refused or read without leaving anything behind.",
["inputs","histories"],"all classes x all ways of writing and reading x all kinds of handle maps, all kinds of user data, state and tuner data, all prefixes and single damaged bytes of small objects",
"The tests write and read a few objects through memory with truthy arguments only; values that count as false in Python, other channels, callbacks and states go unread.",
["bindings/python/cconfigspace/base.py","bindings/python/cconfigspace/tuner.py","bindings/python/cconfigspace/tree_space.py"],[("writing and reading","bindings/python/cconfigspace/base.py Object.serialize, Object.deserialize"),("user data","bindings/python/cconfigspace/base.py _get_serialize_callback_wrapper, _get_deserialize_callback_wrapper"),("user-defined objects","bindings/python/cconfigspace/tuner.py, features_tuner.py, tree_tuner.py, tree_space.py")])

p("P37","Kokkos regions get declared candidates, are timed, and end with the best",
"For tuning variables of every declared shape (sets of any category and type, ranges open or closed, with or without step) the Kokkos connector gives a region only declared candidates, in the slots asked for whatever their order, and every candidate can be given. Each context that ends is measured once, for its own features and configuration, as the time since its values were given; kernels are fenced before and after on their device exactly while a context that is not converged is open, however contexts nest; a region stops measuring eventually and then gives, for features measured before, a configuration of the smallest time measured with exactly these features.",
["inputs","histories"],"all declared variables and values of context variables, all histories of nested contexts and kernels, all times and draws",
"The repository's test suite does not run the connector; its examples need Kokkos and show one region.",
["connectors/kokkos/ccs-kokkos-connector.cpp"],[("candidates","connectors/kokkos/ccs-kokkos-connector.cpp variable_info_to_parameter, set_value"),("measuring","connectors/kokkos/ccs-kokkos-connector.cpp kokkosp_request_values, kokkosp_end_context"),("fences","connectors/kokkos/ccs-kokkos-connector.cpp invoke_fence")])

p("P38","The Ruby bindings pass on and report exactly what the library holds",
"Every Ruby value of every kind that a call accepts reaches the library unchanged and is read back as an equal value of the same kind, however the object is reached: the object itself, another object on its handle, or a restored copy; what the library reports is what Ruby reports, and what it refuses raises CCSError with its code. Ruby callbacks get what they were called for, and what they return or raise reaches the caller. Each Ruby object holds exactly one reference: once all are collected the library holds no memory for them; expressions written as text are left out.",
["inputs","histories"],"all kinds of objects and values, all ways of naming and of reaching an object, all sequences of calls, all outcomes of callbacks",
"The repository's Ruby tests need gems that are rarely installed and call each method with one or two values.",
["bindings/ruby/lib/cconfigspace/base.rb","bindings/ruby/lib/cconfigspace/binding.rb","bindings/ruby/lib/cconfigspace/distribution.rb","bindings/ruby/lib/cconfigspace/tuner.rb"],[("values","bindings/ruby/lib/cconfigspace/base.rb Datum"),("ownership and errors","bindings/ruby/lib/cconfigspace/base.rb Object, CCS.error_check, CCS.set_error"),("objects","bindings/ruby/lib/cconfigspace/parameter.rb, distribution.rb, expression.rb, configuration_space.rb, binding.rb, map.rb"),("callbacks","bindings/ruby/lib/cconfigspace/tuner.rb, features_tuner.rb, tree_tuner.rb, tree_space.rb")])

open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,x['id']
    n=x['statement'].count('. ')+1
    assert n<=3,(x['id'],n)
