"""The bindings report what the library holds, and hand it what they were given."""
from pymirror import *
from pycat import *


def lost():
    if LOST:
        fail("exception lost: %s", LOST[0])


@suite
def every_class():
    """every accessor of every class, on the object that made it, on one from its handle, and again"""
    keep = []
    o = make(keep)
    shard_point()
    mirror(o)
    x = None
    for x in keep:
        mirror(x)
    q = ccs.Object.from_handle(ct.c_void_p(hv(o)))
    check(type(q) is type(o), "from_handle gives a %s for a %s", type(q).__name__, type(o).__name__)
    check(hv(q) == hv(o), "from_handle gives another object")
    mirror(q)
    mirror(o)
    obs(type(o).__name__)
    del q, o, x
    del keep[:]
    lost()


# ---- what is given to the library -----------------------------------------------------------------------------------
def rdatum(v):
    """the datum of the library for a Python value, made here and not by the bindings; hold keeps what it points to"""
    d, hold = RDatum(), None
    w = canon(v)
    d.t = w[0]
    if w[0] == INT:
        d.v.i = w[1]
    elif w[0] == FLOAT:
        d.v.f = v
    elif w[0] == BOOL:
        d.v.i = 1 if v else 0
    elif w[0] == STRING:
        hold = ct.create_string_buffer(w[1])
        d.v.s = ct.addressof(hold)
        d.flags = 1
    elif w[0] == OBJECT:
        d.v.o = w[1]
        d.flags = w[2]
    return d, hold


def rdata(vs):
    a, hold = (RDatum * max(1, len(vs)))(), []
    for i, v in enumerate(vs):
        d, h = rdatum(v)
        a[i] = d
        hold.append(h)
    return a, hold


def holds(d, v, what):
    check(dval(d) == canon(v), "%s: given %r, the library has %r", what, v, dval(d))


@suite
def values_given():
    """every value, through every entry that takes one"""
    v = pick(VALS, "value")
    k = choose(7, "entry")
    shard_point()
    step("give", k, repr(v))
    d = RDatum()
    if k == 0:
        if v is ccs.inactive:
            return
        o = X.Literal(value=v)
        rok("ccs_literal_get_value", hv(o), ct.byref(d))
        holds(d, v, "literal")
        check(canon(o.value) == canon(v), "literal gives %r back", o.value)
        check(canon(o.eval()) == canon(v), "literal evaluates to %r", o.eval())
    elif k == 1:
        o = ccs.Map()
        o[v] = "before"
        o["k"] = v
        if v != "k":
            o[v] = v
            n, h = rdatum(v)
            rok("ccs_map_get", hv(o), n, ct.byref(d))
            holds(d, v, "map key and value")
            check(o.has_key(v), "the map has no key %r", v)
            check(canon(o[v]) == canon(v), "map gives %r back", o[v])
            del o[v]
            check(not o.has_key(v), "the map still has key %r", v)
        n, h = rdatum("k")
        rok("ccs_map_get", hv(o), n, ct.byref(d))
        holds(d, v, "map value")
        check(len(o) == 1 and canon(o["k"]) == canon(v), "the map has %d entries", len(o))
    elif k == 2:
        if v is ccs.inactive:
            return
        o = ccs.Tree(arity=0, value=v)
        rok("ccs_tree_get_value", hv(o), ct.byref(d))
        holds(d, v, "tree")
    elif k == 3:
        if v is ccs.inactive:
            return
        w = pick(VALS[:-1], "other")
        if canon(w) == canon(v) or type(v) in (int, float) and type(v) is type(w) and v == w:
            return
        for cls, f in ((P.Categorical, "ccs_categorical_parameter_get_values"), (P.Ordinal, "ccs_ordinal_parameter_get_values")):
            for di in (0, 1):
                o = cls(name="c", values=[v, w], default_index=di)
                ds = rarr(f, hv(o), RDatum)
                holds(ds[0], v, "first value")
                holds(ds[1], w, "second value")
                rok("ccs_parameter_get_default_value", hv(o), ct.byref(d))
                holds(d, [v, w][di], "default value")
                check(o.check_value(v) and o.check_value(w), "its own values are refused")
                check(o.check_values([w, v, "other"]) == [True, True, False], "check_values of its own values")
    elif k == 4:
        if v is ccs.inactive:
            return
        w = pick(VALS[:-1], "other")
        o = X.List(values=[v, w])
        for i, x in enumerate((v, w)):
            rok("ccs_expression_list_eval_node", hv(o), None, None, i, ct.byref(d))
            holds(d, x, "node of a list")
            check(canon(o.eval(i)) == canon(x), "node %d evaluates to %r", i, o.eval(i))
    elif k == 5:
        # into bindings, one by one and all at once
        if v is ccs.inactive:
            return
        vals = [v, "last of all"]
        if v == "last of all":
            return
        p = [P.Categorical(name=n, values=vals, default_index=1) for n in ("p", "q")]
        cs = ccs.ConfigurationSpace(name="c")
        cs.add_parameters(p)
        check(cs.check_values([v, v]) is True, "check_values refuses its values")
        check(cs.check_values([v, "none of them"]) is False, "check_values accepts another value")
        check(canon(cs.validate_value(0, v)) == canon(v), "validate_value by index")
        c = cs.default_configuration
        how = choose(5, "how")
        if how < 3:
            c.set_value([1, p[1], "q"][how], v)
            want = ["last of all", v]
        elif how == 3:
            c.set_values([v, v])
            want = [v, v]
        else:
            c = ccs.Configuration(configuration_space=cs, values=[v, v])
            want = [v, v]
        for x, w in zip(rarr("ccs_binding_get_values", hv(c), RDatum), want):
            holds(x, w, "value of a configuration")
        mirror(c)
    else:
        # as arguments of expressions
        if v is ccs.inactive:
            return
        o = X.Equal(left=v, right=v)
        ns = rarr("ccs_expression_get_nodes", hv(o), ct.c_void_p)
        for n in ns:
            rok("ccs_literal_get_value", n, ct.byref(d))
            holds(d, v, "operand")
    obs(k, repr(v))
    lost()


@suite
def values_refused():
    """integers the library cannot hold and things that are no values are refused, not changed"""
    v = pick([2**63, -2**63 - 1, 2**64, 2**200, [], (), {}, b"bytes", object(), 1j], "value")
    k = choose(10, "entry")
    shard_point()
    cs = ccs.ConfigurationSpace(name="c")
    p = P.Numerical.Int(name="p", lower=-2**63, upper=2**63 - 1, default=1)
    cs.add_parameter(p)
    c = cs.default_configuration
    m = ccs.Map()
    num = isinstance(v, int)
    f = [lambda: X.Literal(value=v), lambda: m.__setitem__("k", v), lambda: m.__setitem__(v, 1), lambda: ccs.Tree(arity=0, value=v),
         lambda: P.Categorical(name="c", values=[v, "x"]), lambda: c.set_value(0, v), lambda: c.set_values([v]),
         lambda: ccs.Configuration(configuration_space=cs, values=[v]), lambda: p.check_value(v), lambda: X.Add(left=1, right=v)][k]
    try:
        x = f()
    except (ccs.Error, OverflowError, TypeError, ValueError):
        x = None
    check(not x, "entry %d takes %r", k, v)
    check(len(m) == 0, "the map changed")
    check(c.value(0) == 1, "the configuration has %r", c.value(0))
    obs(k)
    if num:
        for g in (lambda: P.Numerical.Int(name="n", lower=0, upper=v), lambda: P.Numerical.Int(name="n", lower=0, upper=5, default=v),
                  lambda: P.Numerical.Int(name="n", lower=0, upper=5, quantization=v), lambda: D.Uniform.Int(lower=0, upper=v),
                  lambda: D.Uniform.Int(lower=v, upper=5), lambda: D.Normal.Int(quantization=v)):
            try:
                x = g()
            except (ccs.Error, OverflowError, ct.ArgumentError):
                continue
            fail("a bound of %d is taken: %r", v, x)


# ---- the same object, as it changes -------------------------------------------------------------------------------------
@suite
def a_configuration_space_grows():
    keep = []
    cs = ccs.ConfigurationSpace(name="cs")
    ps = params() + [P.Discrete(name="e", values=[1, 2, 4])]
    rngs = [ccs.Rng(), ccs.Rng()]
    done, c = [], None
    for i in range(tier_bound(3, 4)):
        k = choose(8, "operation")
        if i == 1:
            shard_point()
        if k == 0:
            left = [p for p in ps if p not in done]
            if not left:
                prune()
            cs.add_parameter(left[0])
            done.append(left[0])
        elif k == 1:
            left = [p for p in ps if p not in done][:2]
            if len(left) < 2:
                prune()
            cs.add_parameters(left, distributions=pick([None, [x.default_distribution for x in left], [None, left[1].default_distribution]], "distributions"))
            done += left
        elif k == 2:
            if len(done) < 2 or cs.condition(1) is not None:
                prune()
            cs.set_condition(done[1], "a > 0.0")
        elif k == 3:
            if not done:
                prune()
            cs.add_forbidden_clause(X.Equal(left=done[0], right=4.0))
        elif k == 4:
            if not done:
                prune()
            cs.add_forbidden_clauses(["a == 3.0", X.Equal(left=done[0], right=-3.0)])
        elif k == 5:
            cs.rng = rngs[i & 1]
        elif k == 6:
            if not done:
                prune()
            cs.set_distribution(D.Uniform.Float(lower=-1.0, upper=1.0), pick([["a"], [0], [done[0]]], "of"))
        else:
            if not done:
                prune()
            c = ccs.Configuration(configuration_space=cs)
            c.set_value(0, 2.0)
            mirror(c)
            c.set_values([-1.0] + [p.default_value for p in done[1:]])
            mirror(c)
        mirror(cs)
        if c is not None:
            mirror(c)
        obs(k, cs.num_parameters)
    lost()


@suite
def an_objective_space_grows():
    """evaluations made earlier see the objectives added later"""
    keep = []
    kind = choose(3, "kind")
    cs, os_ = cspace(keep, False), ccs.ObjectiveSpace(name="os")
    ps = [P.Numerical.Float(name="u", lower=0.0, upper=10.0), P.Numerical.Float(name="v", lower=0.0, upper=10.0)]
    if kind == 0:
        c = cs.default_configuration
        mk = lambda v: ccs.Evaluation(objective_space=os_, configuration=c, values=v)
    elif kind == 1:
        c, f = cs.default_configuration, features(keep)
        mk = lambda v: ccs.FeaturesEvaluation(objective_space=os_, configuration=c, features=f, values=v)
    else:
        c = ccs.TreeConfiguration(tree_space=mk_tsp(keep), position=[0])
        mk = lambda v: ccs.TreeEvaluation(objective_space=os_, configuration=c, values=v)
    es = []
    for i in range(tier_bound(4, 5)):
        k = choose(6, "operation")
        if i == 1:
            shard_point()
        n = os_.num_parameters
        if k == 0:
            if n == 2:
                prune()
            os_.add_parameter(ps[n])
        elif k == 1:
            if n:
                prune()
            os_.add_parameters(ps)
        elif k == 2:
            if not n:
                prune()
            os_.add_objective("u", pick([ccs.ObjectiveType.MINIMIZE, ccs.ObjectiveType.MAXIMIZE], "type"))
        elif k == 3:
            if n < 2:
                prune()
            os_.add_objectives({"u + v": ccs.ObjectiveType.MAXIMIZE, "v": ccs.ObjectiveType.MINIMIZE})
        elif k == 4:
            e = mk([1.0, 2.5][:n] if n else None)
            es.append(e)
        else:
            if not es:
                prune()
            es[-1].result = -4
            if n and es[-1].num_values:
                es[-1].set_value(0, 7.5)
        mirror(os_)
        for e in es:
            mirror(e)
        obs(k, os_.num_objective)
    lost()


@suite
def a_tree_grows():
    t = ccs.Tree(arity=2, value="t")
    nodes = [t, ccs.Tree(arity=2, value=1), ccs.Tree(arity=1, value=1.5), ccs.Tree(arity=2, value=None)]
    for i in range(tier_bound(2, 3)):
        k = choose(3, "operation")
        if k == 0:
            a, b = choose(4, "parent"), choose(4, "child")
            j = choose(2, "index")
            if i == 1:
                shard_point()
            try:
                nodes[a].set_child(j, nodes[b])
            except ccs.Error as e:
                pass
        elif k == 1:
            pick(nodes, "node").weight = pick([0.0, 1.0, 2.5], "weight")
        else:
            pick(nodes, "node").bias = pick([0.0, 1.0, 2.5], "bias")
        for n in nodes:
            mirror(n)
    obs([n.position for n in nodes])
    lost()


@suite
def a_map_changes():
    m, r = ccs.Map(), ccs.Rng()
    ks = [1, 1.0, True, "1", None, r, ccs.Object(r.handle, retain=False, auto_release=False)]
    model = {}
    # an object and its handle are one key
    key = lambda x: canon(x)[:2]
    for i in range(tier_bound(3, 4)):
        k = pick(ks, "key")
        if i == 1:
            shard_point()
        op = choose(3, "operation")
        if op < 2:
            v = ["first", r][op]
            m[k] = v
            model[key(k)] = canon(v)
        else:
            try:
                del m[k]
                check(key(k) in model, "an entry %r that is not there is removed", k)
            except ccs.Error:
                check(key(k) not in model, "an entry %r is not removed", k)
            model.pop(key(k), None)
        check(len(m) == len(model), "%d entries instead of %d", len(m), len(model))
        for x in ks:
            check(m.has_key(x) == (key(x) in model), "has_key(%r)", x)
            if key(x) in model:
                check(canon(m[x]) == model[key(x)], "entry %r is %r", x, m[x])
        mirror(m)
    obs(len(m))
    lost()


@suite
def tuners_are_told():
    """random and user-defined tuners of the three kinds, through their histories"""
    kind = choose(3, "kind")
    user = flip("user defined")
    keep = []
    os_ = ospace(keep)
    sp = mk_tsp(keep) if kind == 2 else cspace(keep, False)
    fs = fspace(keep) if kind == 1 else None
    F = [ccs.Features(features_space=fs, values=[b, "s"]) for b in (True, False)] if kind == 1 else [None, None]
    b = Callbacks(sp)
    kw = dict(name="t", objective_space=os_)
    kw["tree_space" if kind == 2 else "configuration_space"] = sp
    if kind == 1:
        kw["features_space"] = fs
    cls = [ccs.Tuner, ccs.FeaturesTuner, ccs.TreeTuner][kind]
    if user:
        t = cls.UserDefined(delete=None, ask=b.askf if kind == 1 else b.ask, tell=b.tell, get_optima=b.get_optima, get_history=b.get_history,
                            suggest=b.suggest, **kw)
    else:
        t = cls.Random(**kw)
    told = []
    for i in range(tier_bound(3, 4)):
        f = pick(F, "features") if kind == 1 else None
        if i == 1:
            shard_point()
        k = choose(4, "operation")
        a = [f] if kind == 1 else []
        if k < 2:
            n = k + 1
            cs_ = t.ask(*a, n)
            check(len(cs_) == n, "asked for %d, got %d", n, len(cs_))
            if kind == 1:
                es = [ccs.FeaturesEvaluation(objective_space=os_, configuration=c, features=f, values=[float(j), 1.0]) for j, c in enumerate(cs_)]
            else:
                E = ccs.TreeEvaluation if kind == 2 else ccs.Evaluation
                es = [E(objective_space=os_, configuration=c, values=[float(j), 1.0]) for j, c in enumerate(cs_)]
            for c in cs_:
                mirror(c)
            t.tell(es)
            told += [(hv(e), hv(f) if f is not None else 0) for e in es]
            b_keep = es
            keep += es
        elif k == 2:
            c = t.suggest(*a) if kind == 1 else t.suggest
            mirror(c)
        else:
            t.tell([])
        mirror(t)
        if kind == 1:
            for g in F + [None]:
                m_ftuner_of(t, g)
            check([hv(x) for x in t.history()] == [e for e, _ in told], "history")
            if not user:
                for g in F:
                    check([hv(x) for x in t.history(g)] == [e for e, h in told if h == hv(g)], "history of one")
        else:
            check([hv(x) for x in t.history] == [e for e, _ in told], "history")
    obs(kind, user, len(told))
    lost()


# ---- answers computed by the library -------------------------------------------------------------------------------
@suite
def orders():
    kind = choose(5, "kind")
    keep = []
    if kind == 0:
        cs = cspace(keep, False)
        pool = [ccs.Configuration(configuration_space=cs, values=v) for v in ([2.5, "x", 4, "hi"], [2.5, "y", 4, "hi"], [1.0, "x", 4, "hi"], [2.5, "x", 4, "hi"])]
        pool.append(cs.default_configuration)
    elif kind == 1:
        fs = fspace(keep)
        pool = [ccs.Features(features_space=fs, values=v) for v in ([True, "a"], [False, "a"], [True, "b"], [True, "a"])]
    elif kind == 4:
        ts = mk_tsp(keep)
        pool = [ccs.TreeConfiguration(tree_space=ts, position=p) for p in ([], [0], [0, 1], [2], [0])]
    else:
        os_ = ospace(keep)
        vs = [([1.0, 2.0], 0), ([2.0, 1.0], 0), ([1.0, 3.0], 0), ([1.0, 2.0], -3), ([1.0, 2.0], 0)]
        if kind == 2:
            c = cspace(keep, False).default_configuration
            pool = [ccs.Evaluation(objective_space=os_, configuration=c, values=v, result=r) for v, r in vs]
        else:
            c = ccs.TreeConfiguration(tree_space=mk_tsp(keep), position=[0])
            pool = [ccs.TreeEvaluation(objective_space=os_, configuration=c, values=v, result=r) for v, r in vs]
    a, b = pick(pool, "first"), pick(pool, "second")
    shard_point()
    n = "ccs_tree_configuration" if kind == 4 else "ccs_binding"
    c = ct.c_int(99)
    rok(n + "_cmp", hv(a), hv(b), ct.byref(c))
    c = c.value
    same(a.cmp(b), c, "cmp")
    check((a < b) is (c < 0) and (a <= b) is (c <= 0) and (a > b) is (c > 0) and (a >= b) is (c >= 0), "order of two %s", type(a).__name__)
    check((a == b) is (c == 0) and (a != b) is (c != 0), "equality of two %s", type(a).__name__)
    if kind < 2 or kind == 4:
        check(c != 0 or hash(a) == hash(b), "equal, with different hashes")
    check(len({a, b}) == (1 if c == 0 else 2), "a set of the two")
    if kind in (2, 3):
        k = ct.c_int(99)
        r = raw(["ccs_evaluation_compare", "ccs_tree_evaluation_compare"][kind - 2], hv(a), hv(b), ct.byref(k))
        if r < 0:
            refused(lambda: a.compare(b), r, "compare")
        else:
            same(a.compare(b), k.value, "compare")
    obs(kind, c)


def rival(t, lo, up, li, ui):
    r = RIval()
    r.t = t
    if t == 1:
        r.lo.i, r.up.i = lo, up
    else:
        r.lo.f, r.up.f = lo, up
    r.li, r.ui = li, ui
    return r


@suite
def intervals():
    I = ccs.NumericType.INT if flip("integer") else ccs.NumericType.FLOAT
    t = int(I)
    pts = [-2**63, -1, 0, 2, 2**63 - 1] if t == 1 else [float("-inf"), -1.5, 0.0, 2.0, float("inf")]
    def one():
        a, b = choose(5, "lower"), choose(5, "upper")
        if b < a:
            prune()
        return (pts[a], pts[b], flip("lower included"), flip("upper included"))
    a, b = one(), one()
    shard_point()
    xa, xb = [ccs.Interval(t=I, lower=v[0], upper=v[1], lower_included=v[2], upper_included=v[3]) for v in (a, b)]
    ra, rb = rival(t, *a), rival(t, *b)
    interval(xa, ra, "interval")
    e = ct.c_int32(7)
    rok("ccs_interval_empty", ct.byref(ra), ct.byref(e))
    same(xa.empty, bool(e.value), "empty")
    rok("ccs_interval_equal", ct.byref(ra), ct.byref(rb), ct.byref(e))
    same(xa == xb, bool(e.value), "equality")
    r = RIval()
    rok("ccs_interval_intersect", ct.byref(ra), ct.byref(rb), ct.byref(r))
    interval(xa.intersect(xb), r, "intersection")
    for p in pts:
        u = RNum()
        if t == 1:
            u.i = p
        else:
            u.f = p
        same(xa.include(p), bool(raw("ccs_interval_include", ct.byref(ra), u.i)), "include %r" % p)
        same(xa.contains(p), xa.include(p), "contains")
    # and changed in place
    xa.lower, xa.upper, xa.lower_included, xa.upper_included = b
    interval(xa, rb, "changed interval")
    obs(e.value)


def two_rngs(seed):
    r = ccs.Rng()
    r.seed = seed
    q = ct.c_void_p()
    rok("ccs_create_rng", ct.byref(q))
    rok("ccs_rng_set_seed", q.value, seed)
    return r, q.value


@suite
def samples():
    """what is drawn in Python is what the library draws from the same generator"""
    seed = pick([0, 1, 2**32, 2**63 + 5], "seed")
    what = choose(5, "what")
    n = choose(4, "count")
    keep = []
    r, q = two_rngs(seed)
    if what == 0:
        shard_point()
        for _ in range(n):
            same(r.get(), rget("ccs_rng_get", q, ct.c_ulong), "get")
            same(r.uniform(), rget("ccs_rng_uniform", q, ct.c_double), "uniform")
    elif what == 1:
        d = pick([mk_uniform, mk_normal, mk_roulette, mk_mixture, mk_multi], "distribution")(keep)
        shard_point()
        dim, ts = d.dimension, d.data_types
        def want():
            a = (RNum * dim)()
            rok("ccs_distribution_sample", hv(d), q, a)
            return [num(a[i], ts[i]) for i in range(dim)]
        for _ in range(n):
            w = want()
            x = d.sample(r)
            for i, (y, z) in enumerate(zip([x] if dim == 1 else x, w)):
                same(y, z, "sample[%d]" % i)
        a = (RNum * (dim * max(1, n)))()
        if n:
            rok("ccs_distribution_samples", hv(d), q, n, a)
        x = d.samples(r, n)
        check(len(x) == n, "%d samples instead of %d", len(x), n)
        for j in range(n):
            for i in range(dim):
                same(x[j] if dim == 1 else x[j][i], num(a[j * dim + i], ts[i]), "samples")
        for lo, up in ((-1.0, 1.0), (-1e9, 1e9)):
            if dim == 1:
                iv = ccs.Interval(t=ts[0], lower=int(lo) if ts[0] == 1 else lo, upper=int(up) if ts[0] == 1 else up)
                ri = rival(ts[0], int(lo) if ts[0] == 1 else lo, int(up) if ts[0] == 1 else up, 1, 0)
                e = ct.c_int32(7)
                rok("ccs_distribution_check_oversampling", hv(d), ct.byref(ri), ct.byref(e))
                same(d.is_oversampling(iv), bool(e.value), "is_oversampling")
    elif what == 2:
        p = pick([mk_num, mk_cat, mk_ord, mk_dis], "parameter")(keep)
        shard_point()
        d = p.default_distribution
        x = RDatum()
        for _ in range(n):
            rok("ccs_parameter_sample", hv(p), hv(d), q, ct.byref(x))
            is_val(p.sample(d, r), x, "sample")
        a = (RDatum * max(1, n))()
        if n:
            rok("ccs_parameter_samples", hv(p), hv(d), q, n, a)
        are_vals(p.samples(n, d, r), [a[i] for i in range(n)], "samples")
        r.seed = seed
        y = p.samples(2, rng=r)
        r.seed = seed
        check(list(map(canon, p.samples(2, d, r))) == list(map(canon, y)), "samples without a distribution")
    elif what == 3:
        cs = cspace(keep, False)
        shard_point()
        cs.rng = r
        xs = [cs.sample() for _ in range(n)] + cs.samples(n)
        rok("ccs_configuration_space_set_rng", hv(cs), q)
        cfg = ct.c_void_p()
        ws = []
        for _ in range(n):
            rok("ccs_configuration_space_sample", hv(cs), ct.byref(cfg))
            ws.append(cfg.value)
        a = (ct.c_void_p * max(1, n))()
        if n:
            rok("ccs_configuration_space_samples", hv(cs), n, a)
        ws += [a[i] for i in range(n)]
        check(len(xs) == len(ws), "%d samples instead of %d", len(xs), len(ws))
        k = ct.c_int()
        for x, w in zip(xs, ws):
            rok("ccs_binding_cmp", hv(x), w, ct.byref(k))
            check(k.value == 0, "another configuration is drawn")
            check(x.check() is True and rrefs(hv(x)) == 1, "drawn with %d references", rrefs(hv(x)))
            rok("ccs_release_object", w)
    else:
        ts = mk_tsp(keep)
        t = ts.tree
        shard_point()
        x = ct.c_size_t()
        for _ in range(n):
            rok("ccs_tree_sample", hv(t), q, ct.byref(x))
            check(t.sample(r) == (x.value if x.value != 3 else None), "sample of a tree")
        a = (ct.c_size_t * max(1, n))()
        if n:
            rok("ccs_tree_samples", hv(t), q, n, a)
        check(t.samples(r, n) == [a[i] if a[i] != 3 else None for i in range(n)], "samples of a tree")
        r.seed = seed
        ts.rng = r
        xs = [ts.sample() for _ in range(n)] + ts.samples(n)
        rok("ccs_rng_set_seed", q, seed)
        rok("ccs_tree_space_set_rng", hv(ts), q)
        cfg = ct.c_void_p()
        ws = []
        for _ in range(n):
            rok("ccs_tree_space_sample", hv(ts), ct.byref(cfg))
            ws.append(cfg.value)
        a = (ct.c_void_p * max(1, n))()
        if n:
            rok("ccs_tree_space_samples", hv(ts), n, a)
        ws += [a[i] for i in range(n)]
        k = ct.c_int()
        for x, w in zip(xs, ws):
            rok("ccs_tree_configuration_cmp", hv(x), w, ct.byref(k))
            check(k.value == 0, "another tree configuration is drawn")
            check(ts.check_configuration(x) is True, "a drawn tree configuration is refused")
            rok("ccs_release_object", w)
    rok("ccs_release_object", q)
    obs(what, n)
    lost()


@suite
def evaluations_of_expressions():
    cs = ccs.ConfigurationSpace(name="c")
    ps = params("abcd")
    n = choose(5, "parameters")
    cs.add_parameters(ps[:n])
    exprs = ["1 + 2", "a", "a + c", "b == 'x'", "b # ['x', 'y']", "a > 1.0 && d == 'hi'", "d < 'hi'", "c % 3 == 0", None]
    from cconfigspace.expression_parser import parser
    from parglare.parser import Context as PContext
    full = ccs.ConfigurationSpace(name="f")
    full.add_parameters(ps)
    t = pick(exprs, "expression")
    e = parser.parse(t, context=PContext(extra=full)) if t else X.List(values=["x", 1, ps[1]])
    shard_point()
    vals = [pick([1.0, -2.5, ccs.inactive], "a"), pick(["x", "été", ccs.inactive], "b"), pick([3, 4], "c"), pick(["lo", "hi"], "d")][:n]
    a, hold = rdata(vals)
    d = RDatum()
    if e.type == 17:
        for i in range(3):
            r = raw("ccs_expression_list_eval_node", hv(e), hv(cs), a, i, ct.byref(d))
            if r < 0:
                refused(lambda: e.eval(i, context=cs, values=vals), r, "node %d of a list" % i)
            else:
                is_val(e.eval(i, context=cs, values=vals), d, "node %d of a list" % i)
    else:
        r = raw("ccs_expression_eval", hv(e), hv(cs), a, ct.byref(d))
        if r < 0:
            refused(lambda: e.eval(cs, vals), r, "value of %s" % e)
        else:
            is_val(e.eval(cs, vals), d, "value of %s" % e)
        r = raw("ccs_expression_eval", hv(e), None, None, ct.byref(d))
        if r < 0:
            refused(lambda: e.eval(), r, "value of %s alone" % e)
        else:
            is_val(e.eval(), d, "value of %s alone" % e)
    r = raw("ccs_expression_check_context", hv(e), hv(cs))
    if r < 0:
        refused(lambda: e.check_context(cs), r, "check_context")
    else:
        e.check_context(cs)
    obs(str(e), repr(vals))


@suite
def enumerations():
    """every name of every enumeration, and numbers that have none"""
    import inspect
    es = sorted({x for _, x in inspect.getmembers(ccs, inspect.isclass) if issubclass(x, ccs.CEnumeration) and x is not ccs.CEnumeration} |
                {getattr(__import__("cconfigspace." + m, fromlist=[c]), c) for m, c in (("expression", "ExpressionType"), ("parameter", "ParameterType"), ("distribution", "DistributionType"))},
                key=lambda c: c.__name__) if hasattr(ccs, "CEnumeration") else []
    check(len(es) > 5, "harness: no enumerations found")
    e = pick(es, "enumeration")
    shard_point()
    for n, v in e._members_.items():
        x = e(v)
        check(x.value == v and x.name == n and getattr(e, n) == v, "%s.%s", e.__name__, n)
        check(str(x) == "%s.%s" % (e.__name__, n) and n in repr(x), "text of %s.%s", e.__name__, n)
        check(v in e, "%d in %s", v, e.__name__)
    check(len(set(e._members_.values())) == len(e._members_), "two names for one number")
    for v in (-1000, 1000):
        check(v not in e, "%d in %s", v, e.__name__)
        try:
            fail("%d of %s is called %s", v, e.__name__, e(v).name)
        except ValueError:
            pass
    if e.__name__ == "Result":
        for n, v in e._members_.items():
            p = ct.c_char_p()
            rok("ccs_get_result_name", v, ct.byref(p))
            check(p.value.decode() == "CCS_RESULT_" + n, "%s is %s in the library", n, p.value)
    obs(e.__name__)


if __name__ == "__main__":
    main()
