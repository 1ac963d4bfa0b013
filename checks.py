"""Per property: harness sources and what they enumerate."""
CHECKS = {}


def check(pid, src, **k):
    CHECKS[pid] = dict(src=src if isinstance(src, list) else [src], **k)


check("P19", "p19_interval.cpp")
check("P20", "p20_map.cpp")
check("P08", "p08_expression.cpp")
check("P09", "p09_expr_info.cpp")
check("P10", "p10_conditions.cpp")
check("P11", "p11_validity.cpp")
check("P12", "p12_declaration.cpp")
check("P17", "p17_sampling.cpp")
check("P18", "p18_composite.cpp")
check("P16", "p16_domain.cpp")
check("P13", "p13_distributions.cpp")
check("P14", "p14_sampling.cpp")
check("P15", "p15_lookup.cpp")
check("P21", "p21_dominance.cpp")
check("P22", "p22_tuner.cpp")
check("P23", "p23_features_tuner.cpp")
check("P24", "p24_tree_tuner.cpp")
check("P25", ["p25_user.cpp", "p25_userdata.cpp"])
check("P26", "p26_tree.cpp")
check("P27", "p27_tree_space.cpp")
check("P01", "p01_roundtrip.cpp")
check("P02", "p02_size.cpp")
check("P03", "p03_damaged.cpp")
check("P04", "p04_io.cpp", wraps=["read", "write", "open", "close", "fstat", "mmap", "munmap", "ftruncate", "msync"])
check("P05", "p05_handles.cpp")
check("P06", "p06_lifetime.cpp")
check("P07", "p07_oom.cpp")
check("P28", "p28_errors.cpp", defines=["-fsanitize-coverage=trace-pc"], ldflags=["-pthread"])
check("P29", "p29_order.cpp")
check("P30", "p30_rng.cpp")
check("P31", "p31_threads.cpp", defines=["-fsanitize-coverage=trace-pc"], ldflags=["-pthread"])
check("P32", [], python="p32_text.py", pymalloc="pymalloc")
check("P33", [], python="p33_mirror.py", pymalloc="pymalloc")
check("P34", [], python="p34_lifetimes.py", pymalloc="malloc")
check("P35", [], python="p35_errors.py", pymalloc="malloc")
check("P36", [], python="p36_serialize.py", pymalloc="malloc")
check("P37", ["p37_kokkos.cpp", "kokkos_connector.cpp"], repo_includes=["connectors/kokkos/include"], repo_files=["connectors/kokkos"])
check("P38", [], ruby="p38_main.rb")

BOUNDS = {
    "P01": '31 kinds of objects x all their variants in the catalogue (harness/catalog.hpp: every constructor, optional part, value type and size class, state changed by operations, shared sub-objects), with and without user data, restored once and again; 22 large objects (names, strings, values, weights, children, histories of hundreds to thousands)',
    "P02": 'same catalogue; every buffer length 0..size, size, size+1, size+17, guarded by the sanitizer; size asked twice; the large objects at boundary lengths',
    "P03": 'same catalogue: every proper prefix; every byte replaced by a set of values (all 255 in the thorough tier for the smallest objects); pieces removed or doubled (shifted); pairs of damaged bytes on the smallest objects',
    "P04": 'every answer sequence of read/write (all, one byte, half, would block, interrupted, error, end) with at most 3 deviations (thorough 4-5) on two objects and 1 (thorough 3) on every kind; blocking and restartable; two transfers over one descriptor; every call of open/fstat/mmap/ftruncate/msync/munmap/close failing; the large objects cut at every buffer-sized boundary, by descriptor and by file',
    "P05": 'every kind x every object it refers to transferred first or not, mapped, unmapped, under a wrong handle, with an entry of another type, in both orders; handle maps of hundreds of entries',
    "P06": 'every kind x every order of releasing two (thorough three) of the objects it holds relative to the holder; reference counts of all objects after every query call; every history of 5 (thorough 7) replacements of a generator or distribution, by another or by itself, and releases; every kind with up to 1000 callbacks and 1000 references',
    "P07": '348 calls of the public interface x preparations x every allocation they make failing (single failure), then the same call again; restoring and writing every kind likewise',
    "P08": 'all operators x all pairs of 40+ leaves (literals of every type, variables of 6 parameter kinds bound to every value or inactive); trees of depth 2 on the left, the right and both sides; lists up to length 3 and long lists; extreme integers and floats; misuse of contexts and bindings; wide (up to 300 operands) and deep trees; one expression evaluated again under other bindings',
    "P09": 'all trees up to depth 2 over three shared parameters and three literals, every operator and arity 0..4, null and foreign operands, all subsets of the parameters as context; contexts of up to hundreds of parameters, expressions shared and reused',
    "P10": 'all assignments of conditions from a family of forms over 3 and 4 parameters, all declaration orders, all value combinations reached by the controlled generator; chains of conditions up to length 6; spaces of up to dozens of parameters with fan-in (up to all other parameters), fan-out and long chains, queried again after changes',
    "P11": 'spaces of 3 parameters with every condition and clause of a family, every assignment of in-domain, out-of-domain, wrong-type and inactive values, through every checking entry point; features and evaluations likewise; many clauses of which exactly one fails, at every position',
    "P12": 'all sequences of up to 3 (4 thorough) declarations (parameters, conditions, clauses; single and bulk; valid, foreign, duplicate, cyclic, default-forbidding, ill-typed) over 3-4 parameters; large spaces declared in every order of blocks',
    "P13": 'all sequences of 2-3 assignments of distributions of dimension 1-3 with every index list (valid or not) over 2-4 parameters, and assignments made while parameters are added; the source of each sampled value identified by its range; many distributions and long histories of reassignment',
    "P14": 'spaces of 3 enumerated or numerical parameters with every pair of condition and clause of a family, every draw of the controlled generator on a grid of boundary values, 1-3 configurations per call, and generators that never succeed; large spaces and long batches, one space sampled again after changes',
    "P15": 'all ordered parameter lists up to length 3 over a pool with equal names, for the three contexts and their bound values; every lookup by every key; every array size 0..n+2; growth past hash table resizes; names of up to 5000 characters; values of 13 kinds replaced by each other by 5 ways',
    "P16": 'int/float/categorical/ordinal/discrete/string parameters over grids of bounds, steps, defaults and values; all candidate values; every distribution of a catalogue x controlled draws; large and joint domains',
    "P17": 'catalogue of uniform/normal/roulette/mixture/multivariate distributions x controlled draws (0, smallest, boundary, largest) x counts 0..3 x strides x skipped columns; every log-int pair on a grid; oversampling verdict over a grid of intervals; batches and dimensions up to hundreds',
    "P18": 'all weight vectors of length 1..4 over a grid with zeros, patterned ones of up to 1025 entries, component types by dimension; draws at every share boundary and its two neighbours; rounding cases; invalid weights and components',
    "P19": 'all pairs of intervals with bounds in -2..2 (integers, and floats with half steps) and all 4 inclusion patterns each; all triples of extreme bounds',
    "P20": 'all histories of set/get/exists/del/clear up to depth 3 over keys of every type and 5-7 over few keys; growth through resizes to hundreds of entries; keys of up to 45000 characters with long common parts; every misuse',
    "P21": 'one to three objectives x all directions x all pairs and triples of values on a 3-point grid, plain, features and tree evaluations; NaN, infinities, mixed types, uncomputable, failed, foreign ones; many objectives of which exactly one decides, at every position; objective spaces that grow while evaluations exist',
    "P22": 'all sequences of 3-5 tells (thorough 4-7) over all value vectors of a 2-3 point grid, 1-3 objectives, all directions, failed evaluations; mixed ask/suggest/tell histories with controlled draws; several evaluations per call; unusual values; foreign evaluations; long histories (fronts of hundreds of points, up to 1000 configurations asked at once)',
    "P23": 'as P22 over two and three features values; queries for each, none and never-told features; several features parameters; long histories',
    "P24": 'as P22 for the tree tuner over static and dynamic tree spaces; long histories',
    "P25": 'all operation sequences up to depth 3 on each user-defined component with every callback invocation succeeding or failing with 3 codes; two components at a time; incomplete vectors; serialization and restoration with each user data callback failing; long histories and states of hundreds of entries; spaces with states of up to 1 MiB',
    "P26": 'all operation sequences up to depth 3-5 over up to 4 nodes of arity 0-2: attach, weight, bias, release in any order, out-of-range and non-finite arguments; values of every type; weights from 2^-45 to 2^40; wide and deep trees',
    "P27": 'all weighted trees up to depth 2-4 and arity 1-4 with weights/biases from {(1,1),(0,1),(2,0.5)} and unset children; controlled draws at every share boundary; every position up to depth+1; all expansion sequences of dynamic spaces with each callback failing; wide and deep trees',
    "P28": '348 calls x every argument replaced in turn by null, foreign, wrong-type and bad-size values; two threads with 2 (thorough 3) and three threads with one failing, taking or clearing operations each in every interleaving; a failing call interrupted at every branch by another thread; every result code; messages and location lists of every size class',
    "P29": 'six kinds of bound objects x values of every type on small grids x seven ways of building; all pairs and triples; parts, growth of the context, changes of value; objects of up to 300 values and strings of up to 5000 characters differing in one place',
    "P30": 'all GSL generator types x seeds, 200 draws each against the GSL itself; all interleavings of draw/reseed/replace/serialize up to depth 4 over two generators and two spaces; all sampling entry points',
    "P32": 'every operator over every pair of operand forms (depth 2); trees of depth 3-4 with one operator per precedence level; every literal of a grid of integers, floats and strings of every character and escape; lists; all names of up to 3 characters and keyword-like names; all token sequences up to length 6 of a representative alphabet and of length 3 of the full one; chains and nests of up to 40 (thorough 120) operands',
    "P33": 'every class x every variant of a catalogue (harness/py/pycat.py) x every accessor, on the object, on what it refers to and from the handle; 20 kinds of values at 7 entries, 10 unusable ones at 10 entries; all sequences of 3-4 operations on configuration spaces, 4-5 on objective spaces with living evaluations, 2-3 on trees, 3-4 on maps and on the six tuners; all pairs of intervals over 5 points; all pairs of small pools of configurations, features and evaluations; 4 seeds x all distributions, parameters and spaces; 9 expressions x contexts of 0-4 parameters x values; all 21 enumerations',
    "P34": 'every class x every variant x made, looked at or not, dropped parts first or whole first; every accessor of every class, its answer held longer than the object or dropped before; user data, destruction callbacks and replacements on objects of every kind; the four user-defined kinds x delete callback (none, plain, raising) x data x user data x 3 orders of dropping; addresses reused; refused creations of every class; oracle: blocks the library holds (interposed allocator), weak references, reference counts, address sanitizer',
    "P35": '7 callbacks of 3 user-defined tuners and 3 of dynamic tree spaces, user data writers and readers x 19 kinds of exceptions (thorough: all 30 codes) x first or later call; 4 library errors inside callbacks; 11 unusable answers of every callback; 14 refused calls x 3 earlier pending errors; all interleavings of 3+2 (thorough 4+2) error operations of two threads; error stacks of 0-3 places with 6 kinds of messages; every call of the library made while any object of the catalogue is made or asked anything, refused in turn',
    "P36": 'every class x every variant x 5 channels x 5 kinds of handle maps (quick: all maps in memory, one map elsewhere), 17 values of user data on the object, all, some or only its parts; callbacks with 6 kinds of callback data and 4 sizes; the four user-defined kinds x 6 kinds of data x 4 states x deserialize callback or not x history x user data, written and read twice; all combinations of sources and formats; 2 (thorough 3) objects one after another; every third (thorough: every) prefix and damaged byte of 4 objects',
    "P37": '91 shapes of tuning variables x all first 2 (thorough 3) draws from 6 including both ends, and 200 draws each; all histories of 5 (thorough 7) requests, ends and kernels over two regions sharing a variable, nested up to 3 deep, with two features, orders and times, each followed by convergence and nested contexts of both regions; 11 kinds of context variables in pairs x all pairs of their values; 5 start times x all triples of 9 lengths; 1 to 40 variables, regions and levels of nesting',
    "P38": 'all result codes; 24 values in pairs; all histories of 4 (thorough 5) map entries; parameters of every kind x 9 names; every distribution, composite distributions of up to 3 parts; 11 binary and 5 other operators over 11 operands each way x 4 contexts; 14 literals; spaces in 4 steps x 3 ways of naming; all pairs of values set and read in 3 kinds of bindings; objective spaces; pairs of evaluations of 3 kinds; trees of depth 2; static and dynamic tree spaces; random tuners; user-defined tuners of 3 kinds with every outcome of each callback; all pairs of intervals over 4 points; generators in 4 calls; errors of every code; 17 kinds of user data in pairs x 6 objects x 3 channels; serialization callbacks of every outcome x 4 channels; destroy callbacks; what only the bindings refer to, after collections; failing state callbacks; lists of every size 1-7 (thorough 1-40)',
    "P31": 'each of 348 calls stopped at every branch (trace-pc) while another thread runs the same call to its end, and runs a call of each other part likewise; one preemption, one visitor',
}
for _p, _b in BOUNDS.items():
    CHECKS[_p].setdefault("bounds", _b)
