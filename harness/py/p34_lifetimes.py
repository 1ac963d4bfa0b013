"""Objects of the bindings live exactly as long as something refers to them, and so does what users attach to them."""
from pymirror import *
from pycat import *
import weakref
import cconfigspace.base as B
from cconfigspace.expression_parser import parser

# the first use of some classes keeps things for good (patterns, caches): not part of what a run holds
_warm = ccs.Map()
_warm.user_data = 1
del _warm
parser.parse("1")
gc.collect()
START = live()


class Held:
    """something users hand over, observable by weak reference"""
    pass


class Empty(Held):
    """the same, and it counts as false"""
    def __len__(self):
        return 0


class Odd(Held):
    """the same, equal to everything, none included, and not hashable"""
    __hash__ = None

    def __eq__(self, other):
        return True


def flush():
    """the parser keeps its last sentence until the next one"""
    parser.parse("1")
    gc.collect()


class Base:
    def __init__(self):
        lib.ccs_clear_thread_error()
        if live() != START:
            flush()
        self.live, self.store = live(), len(B._data_store)

    def back(self, what="everything"):
        lib.ccs_clear_thread_error()
        if len(B._data_store) != self.store or live() != self.live:
            flush()
        if LOST:
            fail("exception lost: %s", LOST[0])
        check(len(B._data_store) == self.store, "%s is dropped, and %d objects are remembered", what, len(B._data_store) - self.store)
        check(live() == self.live, "%s is dropped, and the library holds %d blocks more", what, live() - self.live)


@suite
def every_class():
    """made, looked at, and dropped: the parts first, the whole first"""
    b = Base()
    keep = []
    o = make(keep)
    shard_point()
    how = choose(4, "order")
    if how & 2:
        mirror(o)
        mirror(ccs.Object.from_handle(ct.c_void_p(hv(o))))
    check(rrefs(hv(o)) >= 1, "no reference")
    t = type(o).__name__
    if how & 1:
        del keep[:]
        mirror(o)
        o = None
    else:
        o = None
        x = None
        for x in keep:
            mirror(x)
        x = None
        del keep[:]
    obs(t, how)
    b.back(t)


def attrs(o):
    """the attributes and arguments-free methods of an object that give objects"""
    for n in sorted(dir(type(o))):
        if n.startswith("_") or n in ("handle", "user_data", "serialize", "deserialize", "from_handle", "set_destroy_callback", "sample", "suggest",
                                      "samples", "ask", "tell"):
            continue
        a = getattr(type(o), n)
        if isinstance(a, property):
            yield n, lambda n=n: getattr(o, n)
        elif callable(a) and n in ("eval", "history", "optima", "keys", "values", "pairs", "elems", "asdict") and not isinstance(o, X.List):
            yield n, lambda n=n: getattr(o, n)()


def objects(x, out):
    if isinstance(x, ccs.Object):
        out.append(x)
    elif isinstance(x, dict):
        for k, v in x.items():
            objects(k, out)
            objects(v, out)
    elif isinstance(x, (list, tuple)):
        for v in x:
            objects(v, out)


@suite
def accessors():
    """what each accessor gives can be held longer than the object, or dropped before"""
    b = Base()
    keep = []
    o = make(keep)
    longer = flip("held longer")
    shard_point()
    t = type(o).__name__
    got = []
    for n, f in list(attrs(o)):
        for _ in range(2):
            try:
                objects(f(), got)
            except (ccs.Error, AttributeError):
                pass
            if not longer:
                del got[:]
        step(n)
    f = o = None
    del keep[:]
    x = None
    for x in got:
        check(rrefs(hv(x)) >= 1, "a %s is not held", type(x).__name__)
        if type(x) is not ccs.Object:
            mirror(x)
    x = None
    del got[:]
    obs(t)
    b.back(t)


def some(keep, k=None):
    """an object of a kind that takes every kind of data, quickly made"""
    k = choose(7, "class") if k is None else k
    if k == 0:
        return ccs.Rng()
    if k == 1:
        return ccs.Map()
    if k == 2:
        return P.Categorical(name="c", values=["x", "y"])
    if k == 3:
        return ccs.Tree(arity=1, value="t")
    if k == 4:
        t = ccs.Tree(arity=2, value=0)
        return ccs.TreeSpace.Dynamic(name="dyn", tree=t, get_child=dyn_child)
    if k == 5:
        os_, cs = ospace([]), cspace([], False)
        c = Callbacks(cs)
        return ccs.Tuner.UserDefined(name="user", configuration_space=cs, objective_space=os_, ask=c.ask, tell=c.tell,
                                     get_optima=c.get_optima, get_history=c.get_history)
    return ccs.ErrorStack(error=ccs.Result.ERROR_INVALID_NAME, message="m")


@suite
def data_attached():
    """user data and destruction callbacks, in all orders, on objects with and without callbacks of their own"""
    b = Base()
    m = ccs.Map()
    o = some([])
    h = hv(o)
    m["kept"] = o
    refs = []       # weak references to what was handed over
    called = []     # what the destruction callbacks were given
    want = []
    current = None
    for i in range(tier_bound(3, 4)):
        k = choose(9, "operation")
        if i == 1:
            shard_point()
        q = o if o is not None else m["kept"]
        step("operation", k)
        if k == 0:
            x = pick([Held, Empty, Odd], "data")()
            x.n = i
            refs.append(weakref.ref(x))
            q.user_data = x
            current = refs[-1]  # only the object holds it
            x = None
        elif k == 1:
            v = pick([0, "", "text", [], {"a": 1}, 2**100], "data")
            q.user_data = v
            current = v
        elif k == 2:
            q.user_data = None
            current = None
        elif k == 3:
            # a callback and what it holds
            x = Held()
            refs.append(weakref.ref(x))
            def cb(obj, data, i=i, x=x):
                called.append((i, hv(obj), type(obj).__name__, data))
            q.set_destroy_callback(cb)
            want.append((i, h, type(q).__name__, None))
            cb = x = None
        elif k == 4:
            def cb(obj, data, i=i):
                called.append((i, hv(obj), type(obj).__name__, data))
            q.set_destroy_callback(cb, user_data=100 + i)
            want.append((i, h, type(q).__name__, 100 + i))
            cb = x = None
        elif k == 5:
            def cb(obj, data, i=i):
                # the object can still be asked
                called.append((i, hv(obj), type(obj).__name__, obj.object_type))
                raise ValueError("lost")
            q.set_destroy_callback(cb)
            want.append((i, h, type(q).__name__, rget("ccs_object_get_type", h, ct.c_int)))
            cb = None
        elif k == 6:
            # only the library holds it from now on
            if o is None:
                prune()
            o = q = None
        elif k == 7:
            if o is not None:
                prune()
            o = m["kept"]
            check(type(o) is type(q) and hv(o) == h, "another object")
        else:
            for bad in (lambda: q.set_destroy_callback(None), lambda: q.set_destroy_callback(None, 1)):
                try:
                    bad()
                except ccs.Error:
                    continue
                fail("no callback is taken for one")
        q = None
        x = m["kept"]
        if isinstance(current, weakref.ref):
            check(current() is not None, "user data is dropped while attached")
            check(x.user_data is current(), "user data is another object")
        else:
            check(x.user_data is current, "user data is %r instead of %r", x.user_data, current)
        x = None
        alive = [r() for r in refs]
        check(not called, "a destruction callback is called early")
        alive = None
    data = current
    current = None
    via = choose(2, "who is last")
    if via:
        o = None
        del m["kept"]
    else:
        del m["kept"]
        if o is not None:
            check(o.user_data is (data() if isinstance(data, weakref.ref) else data), "user data is lost")
            data = None
        o = None
    data = None
    obs(len(want), len(refs))
    m = None
    check(sorted(called, key=repr) == sorted(want, key=repr), "destruction callbacks: %r instead of %r", called, want)
    check([c[0] for c in called] == sorted((c[0] for c in called), reverse=True), "destruction callbacks are called in order %r", [c[0] for c in called])
    # exceptions in a destruction callback can go nowhere: they are reported, and nothing else is
    n = sum(1 for w in want if isinstance(w[3], int) and w[3] < 50)
    check(len(LOST) == n and all("lost" in l for l in LOST), "reported: %r", LOST)
    del LOST[:]
    if any(r() is not None for r in refs):
        flush()
    for i, r in enumerate(refs):
        check(r() is None, "what was handed over as number %d is never dropped", i)
    b.back("it")


@suite
def user_defined():
    """the callbacks and data of user-defined tuners and dynamic tree spaces live as long as the library needs them"""
    b = Base()
    kind = choose(4, "kind")
    calls, refs = [], []
    with_delete = choose(3, "delete")
    data = pick([None, 0, "", "held", "empty", "odd"], "data")
    order = choose(3, "order")
    ud = choose(4, "user data")
    shard_point()
    x = Held()
    refs.append(weakref.ref(x))
    d = data
    if data in ("held", "empty", "odd"):
        d = {"held": Held, "empty": Empty, "odd": Odd}[data]()
        refs.append(weakref.ref(d))

    def delete(o, x=x):
        calls.append(("delete", type(o).__name__, hv(o)))
        if with_delete == 2:
            raise ValueError("cannot")
    dl = delete if with_delete else None
    m = ccs.Map()
    keep = []
    if kind == 3:
        def child(ts, parent, index, x=x):
            calls.append("child")
            return dyn_child(ts, parent, index)
        t = ccs.TreeSpace.Dynamic(name="d", tree=ccs.Tree(arity=2, value=0), delete=dl, get_child=child, tree_space_data=d)
        get = lambda t: t.tree_space_data
        child = None
    else:
        os_ = ospace([])
        sp = mk_tsp([]) if kind == 2 else cspace([], False)
        c = Callbacks(sp)
        c.x = x
        kw = dict(name="t", objective_space=os_)
        kw["tree_space" if kind == 2 else "configuration_space"] = sp
        if kind == 1:
            kw["features_space"] = fspace([])
        t = [ccs.Tuner, ccs.FeaturesTuner, ccs.TreeTuner][kind].UserDefined(delete=dl, ask=c.askf if kind == 1 else c.ask, tell=c.tell, get_optima=c.get_optima,
                                                                           get_history=c.get_history, suggest=c.suggest, tuner_data=d, **kw)
        get = lambda t: t.tuner_data
        kw = sp = os_ = c = None
    h, name = hv(t), type(t).__name__
    wd = d
    d = x = dl = delete = None
    check(get(t) is wd, "data is %r", get(t))
    if ud & 1:
        t.user_data = Empty() if with_delete else Held()
        refs.append(weakref.ref(t.user_data))
    if ud & 2:
        t.set_destroy_callback(lambda o, d: calls.append(("destroyed", hv(o))))
    m["kept"] = t
    t = None
    check(not calls, "called early")
    # the library alone holds it
    t = m["kept"]
    check(type(t).__name__ == name and hv(t) == h, "another object")
    check(get(t) is wd, "data is %r", get(t))
    if kind == 3:
        cfg = ccs.TreeConfiguration(tree_space=t, position=[0, 1])
        mirror(cfg)
        check("child" in calls, "the callback is not used")
        del calls[:]
        cfg = None
    elif kind == 1:
        f = ccs.Features(features_space=t.features_space, values=[True, ""])
        cs_ = t.ask(f, 2)
        t.tell([ccs.FeaturesEvaluation(objective_space=t.objective_space, configuration=z, features=f, values=[1.0, 2.0]) for z in cs_])
        check(len(t.history()) == 2, "history")
        f = cs_ = None
    else:
        E = ccs.TreeEvaluation if kind == 2 else ccs.Evaluation
        cs_ = t.ask(2)
        t.tell([E(objective_space=t.objective_space, configuration=z, values=[1.0, 2.0]) for z in cs_])
        check(len(t.history) == 2, "history")
        cs_ = None
    wd = None
    check(all(r() is not None for r in refs), "something is dropped early")
    if order == 0:
        t = None
        m = None
    elif order == 1:
        m = None
        check(not [c for c in calls if c[0] in ("delete", "destroyed")], "deleted early")
        mirror(t)
        del calls[:]
        t = None
    else:
        t = None
        del m["kept"]
    want = ([("destroyed", h)] if ud & 2 else []) + ([("delete", name, h)] if with_delete else [])
    check(sorted(calls, key=repr) == sorted(want, key=repr), "at the end: %r instead of %r", calls, want)
    m = get = None
    del calls[:]
    # an exception in delete reaches who drops the last reference, if anybody; that is a finalizer or another object here
    if with_delete == 2:
        del LOST[:]
    if any(r() is not None for r in refs):
        flush()
    for i, r in enumerate(refs):
        check(r() is None, "what was handed over as number %d is never dropped", i)
    obs(kind, with_delete, order, ud)
    b.back(name)


@suite
def addresses_come_again():
    """an object at the address of an earlier one has nothing of it"""
    b = Base()
    ks = [choose(7, "class") for _ in range(2)]
    what = choose(3, "what")
    shard_point()
    seen = set()
    for i in range(tier_bound(4, 8)):
        o = some([], ks[i & 1])
        seen.add(hv(o))
        check(o.user_data is None, "a new object has user data %r", o.user_data)
        if what == 0:
            o.user_data = {"number": i}
        elif what == 1:
            o.set_destroy_callback(lambda a, d: None)
        o = None
    obs(ks, what)
    b.back()


@suite
def refused():
    """constructors and calls the library refuses leave nothing behind"""
    b = Base()
    cs = cspace([], False)
    os_ = ospace([])
    p = P.Numerical.Float(name="p", lower=0.0, upper=1.0)
    q = P.Categorical(name="p", values=["x"])
    t = ccs.Tree(arity=1, value=1)
    f = pick([
        lambda: D.Uniform.Float(lower=2.0, upper=1.0), lambda: D.Uniform.Int(lower=2, upper=1), lambda: D.Normal.Float(sigma=-1.0, quantization=-1.0),
        lambda: D.Roulette(areas=[]), lambda: D.Roulette(areas=[-1.0]), lambda: D.Mixture(distributions=[D.Uniform.Float(), D.Uniform.Int()]),
        lambda: D.Multivariate(distributions=[]), lambda: P.Numerical.Float(name="n", lower=2.0, upper=1.0),
        lambda: P.Numerical.Int(name="n", lower=0, upper=2, default=7), lambda: P.Categorical(name="n", values=[]),
        lambda: P.Categorical(name="n", values=["x", "x"]), lambda: P.Categorical(name="n", values=["x"], default_index=4),
        lambda: P.Discrete(name="n", values=["x"]), lambda: X.In(left=1, right=2), lambda: X.Literal(value=ccs.inactive),
        lambda: X.Add(left=object(), right=1), lambda: cs.add_parameter(p) or cs.add_parameter(q), lambda: cs.add_parameters([p, q]),
        lambda: cs.set_condition("nothing", "a == 1.0"), lambda: cs.set_condition("a", "zz == 1.0"), lambda: cs.add_forbidden_clause("a =="),
        lambda: cs.add_forbidden_clauses(["a == 3.5", "b # "]), lambda: cs.parameter(99), lambda: cs.parameter_by_name("nothing"),
        lambda: ccs.Configuration(configuration_space=cs, values=[1.0]), lambda: ccs.Configuration(configuration_space=os_),
        lambda: cs.default_configuration.value("nothing"), lambda: cs.default_configuration.set_value(99, 1),
        lambda: cs.set_distribution(D.Uniform.Float(), ["a", "b"]), lambda: os_.add_objective("zz"), lambda: os_.objective(99),
        lambda: ccs.Evaluation(objective_space=os_, configuration=cs), lambda: ccs.Tree(arity=1, value=ccs.inactive), lambda: t.set_child(3, ccs.Tree(arity=0)),
        lambda: t.set_child(0, t), lambda: ccs.TreeSpace.Static(name="t", tree=cs), lambda: ccs.TreeSpace.Dynamic(name="t", tree=t),
        lambda: ccs.TreeSpace.Dynamic(name="t", tree=cs, get_child=dyn_child), lambda: ccs.Tuner.Random(name="t", configuration_space=os_, objective_space=os_),
        lambda: ccs.Tuner.UserDefined(name="t", configuration_space=cs, objective_space=os_),
        lambda: ccs.Tuner.UserDefined(name="t", configuration_space=os_, objective_space=os_, ask=len, tell=len, get_optima=len, get_history=len),
        lambda: ccs.Map()["nothing"], lambda: ccs.Map().__delitem__("nothing"), lambda: ccs.Map().__setitem__("k", object()), lambda: ccs.Object(None),
        lambda: ccs.Object.from_handle(ct.c_void_p(None)), lambda: ccs.ErrorStack(error=ccs.Result.SUCCESS), lambda: ccs.deserialize(buffer=(ct.c_byte * 8)()),
        lambda: ccs.deserialize(path="/nonexistent/file"), lambda: ccs.deserialize(), lambda: cs.serialize(path="/nonexistent/file"), lambda: cs.serialize(format="text"),
        lambda: p.sample(D.Roulette(areas=[1.0, 1.0]), ccs.Rng()), lambda: D.Uniform.Float().samples(ccs.Rng(), -1), lambda: cs.validate_value("nothing", 1)
    ], "call")
    shard_point()
    failed = False
    for _ in range(2):
        try:
            x = f()
        except Exception as e:
            failed = True
            obs(type(e).__name__, str(e)[:60] if not isinstance(e, ccs.Error) else e._code.value)
        x = None
    obs(failed)
    cs = os_ = p = q = t = f = x = None
    b.back("a refused call")


if __name__ == "__main__":
    main()
