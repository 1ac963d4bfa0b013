"""What a binding object reports, accessor by accessor, against what the library answers when called directly."""
from pymc import *
import cconfigspace as ccs

(T_RNG, T_DIST, T_PAR, T_EXPR, T_CSP, T_CFG, T_OSP, T_EVA, T_TUN, T_FSP, T_FEA, T_FEV, T_FTU, T_MAP, T_ERR, T_TREE,
 T_TSP, T_TCF, T_TEV, T_TTU) = range(20)
E_CLS = ["Or", "And", "Equal", "NotEqual", "Less", "Greater", "LessOrEqual", "GreaterOrEqual", "Add", "Substract",
         "Multiply", "Divide", "Modulo", "Positive", "Negative", "Not", "In", "List", "Literal", "Variable"]


def otype(h):
    return rget("ccs_object_get_type", h, ct.c_int)


def rrefs(h):
    return rget("ccs_object_get_refcount", h, ct.c_int)


def numtype(h):
    return rget("ccs_distribution_get_data_types", h, ct.c_int)


def want_class(h):
    """the class that stands for this object"""
    t = otype(h)
    if t == T_DIST:
        k = rget("ccs_distribution_get_type", h, ct.c_int)
        D = ccs.Distribution
        if k in (0, 1):
            n = numtype(h)
            c = D.Uniform if k == 0 else D.Normal
            return c.Int if n == 1 else c.Float
        return [None, None, D.Roulette, D.Mixture, D.Multivariate][k]
    if t == T_PAR:
        k = rget("ccs_parameter_get_type", h, ct.c_int)
        P = ccs.Parameter
        if k == 0:
            n = ct.c_int()
            rok("ccs_numerical_parameter_get_properties", hv(h), ct.byref(n), None, None, None)
            return P.Numerical.Int if n.value == 1 else P.Numerical.Float
        return [None, P.Categorical, P.Ordinal, P.Discrete, P.String][k]
    if t == T_EXPR:
        return getattr(ccs.Expression, E_CLS[rget("ccs_expression_get_type", h, ct.c_int)])
    if t == T_TUN:
        return [ccs.Tuner.Random, ccs.Tuner.UserDefined][rget("ccs_tuner_get_type", h, ct.c_int)]
    if t == T_FTU:
        return [ccs.FeaturesTuner.Random, ccs.FeaturesTuner.UserDefined][rget("ccs_features_tuner_get_type", h, ct.c_int)]
    if t == T_TTU:
        return [ccs.TreeTuner.Random, ccs.TreeTuner.UserDefined][rget("ccs_tree_tuner_get_type", h, ct.c_int)]
    if t == T_TSP:
        return [ccs.TreeSpace.Static, ccs.TreeSpace.Dynamic][rget("ccs_tree_space_get_type", h, ct.c_int)]
    return {T_RNG: ccs.Rng, T_CSP: ccs.ConfigurationSpace, T_CFG: ccs.Configuration, T_OSP: ccs.ObjectiveSpace,
            T_EVA: ccs.Evaluation, T_FSP: ccs.FeaturesSpace, T_FEA: ccs.Features, T_FEV: ccs.FeaturesEvaluation,
            T_MAP: ccs.Map, T_ERR: ccs.ErrorStack, T_TREE: ccs.Tree, T_TCF: ccs.TreeConfiguration,
            T_TEV: ccs.TreeEvaluation}[t]


def is_obj(x, h, what):
    """x stands for the object h of the library (or for nothing)"""
    h = hv(h)
    if not h:
        check(x is None, "%s: got %r, the library has nothing", what, x)
        return
    check(x is not None, "%s: got nothing, the library has an object", what)
    check(hv(x) == h, "%s: another object", what)
    check(type(x) is want_class(h), "%s: a %s instead of a %s", what, type(x).__name__, want_class(h).__name__)


def canon(v):
    """a Python value in the form of dval"""
    if v is None:
        return (NONE,)
    if isinstance(v, bool):
        return (BOOL, v)
    if isinstance(v, int):
        return (INT, v)
    if isinstance(v, float):
        return (FLOAT, struct.pack("=d", v))
    if isinstance(v, str):
        return (STRING, v.encode())
    if v is ccs.inactive:
        return (INACTIVE,)
    if isinstance(v, ccs.Object):
        return (OBJECT, hv(v), 4 if type(v) is ccs.Object else 0)
    return ("unknown", type(v))


def is_val(x, d, what):
    w = dval(d)
    if w[0] == OBJECT:
        check(isinstance(x, ccs.Object) and hv(x) == w[1], "%s: %r, the library has object %x", what, x, w[1])
        if w[2]:
            check(type(x) is ccs.Object, "%s: a handle is given as a %s", what, type(x).__name__)
        else:
            check(type(x) is want_class(w[1]), "%s: a %s", what, type(x).__name__)
        return
    check(canon(x) == w, "%s: %r, the library has %r", what, x, w)


def rarr(name, h, typ, *pre):
    """array query: ask for the number, then for all"""
    n = ct.c_size_t()
    rok(name, hv(h), *pre, 0, None, ct.byref(n))
    a = (typ * max(1, n.value))()
    if n.value:
        rok(name, hv(h), *pre, n.value, a, None)
    return [a[i] for i in range(n.value)]


def are_objs(xs, hs, what):
    check(isinstance(xs, list) and len(xs) == len(hs), "%s: %d instead of %d", what, len(xs), len(hs))
    for i, (x, h) in enumerate(zip(xs, hs)):
        is_obj(x, h, "%s[%d]" % (what, i))


def are_vals(xs, ds, what):
    check(isinstance(xs, list) and len(xs) == len(ds), "%s: %d instead of %d", what, len(xs), len(ds))
    for i, (x, d) in enumerate(zip(xs, ds)):
        is_val(x, d, "%s[%d]" % (what, i))


def same(x, y, what):
    if isinstance(y, float):
        check(isinstance(x, float) and struct.pack("=d", x) == struct.pack("=d", y), "%s: %r, the library has %r", what, x, y)
    else:
        check(type(x) is type(y) and x == y, "%s: %r, the library has %r", what, x, y)


def refused(f, code, what):
    """the library answered with an error: so must the bindings, with the same one"""
    lib.ccs_clear_thread_error()
    try:
        x = f()
    except ccs.Error as e:
        check(e._code.value == code, "%s: error %r, the library answers %d", what, e._code, code)
        return e
    fail("%s: %r, though the library answers %d", what, x, code)


def text(name, h, *a):
    p = ct.c_char_p()
    rok(name, hv(h), *a, ct.byref(p))
    return p.value.decode()


class RNum(ct.Union):
    _fields_ = [("f", ct.c_double), ("i", ct.c_int64)]


def num(u, t):
    return u.i if t == 1 else u.f


class RIval(ct.Structure):
    _fields_ = [("t", ct.c_int), ("lo", RNum), ("up", RNum), ("li", ct.c_int32), ("ui", ct.c_int32)]


def interval(x, r, what):
    same(x.type, r.t, what + ".type")
    same(x.lower, num(r.lo, r.t), what + ".lower")
    same(x.upper, num(r.up, r.t), what + ".upper")
    same(x.lower_included, bool(r.li), what + ".lower_included")
    same(x.upper_included, bool(r.ui), what + ".upper_included")


def m_rng(o, h):
    same(o.min, rget("ccs_rng_min", h, ct.c_ulong), "min")
    same(o.max, rget("ccs_rng_max", h, ct.c_ulong), "max")


def m_dist(o, h):
    k = rget("ccs_distribution_get_type", h, ct.c_int)
    same(o.type, k, "type")
    n = rget("ccs_distribution_get_dimension", h, ct.c_size_t)
    same(o.dimension, n, "dimension")
    a = (ct.c_int * n)()
    rok("ccs_distribution_get_data_types", h, a)
    same(o.data_types, list(a), "data_types")
    r = (RIval * n)()
    rok("ccs_distribution_get_bounds", h, r)
    bs = o.bounds
    check(n == 1 or len(bs) == n, "%d bounds", n if n == 1 else len(bs))
    e = (ct.c_int32 * n)()
    verdict = lambda: bool(e[0]) if n == 1 else [bool(x) for x in e]
    for i in range(n):
        interval(bs if n == 1 else bs[i], r[i], "bounds")
    for i in range(n):
        # bounds that exclude a little of one component
        rok("ccs_distribution_check_oversampling", h, r, e)
        same(o.is_oversampling(bs), verdict(), "is_oversampling")
        for cut in (0, 1):
            r2 = (RIval * n)(*r)
            b2 = [ccs.Interval(t=b.type, lower=b.lower, upper=b.upper, lower_included=b.lower_included, upper_included=b.upper_included)
                  for b in ([bs] if n == 1 else bs)]
            if r[i].t == 1:
                r2[i].lo.i = r[i].lo.i + 1 + cut * 2**20 if r[i].lo.i < 2**40 else r[i].lo.i
            else:
                r2[i].lo.f = 0.5 + cut
            b2[i].lower = r2[i].lo.i if r[i].t == 1 else r2[i].lo.f
            rc = raw("ccs_distribution_check_oversampling", h, r2, e)
            if rc < 0:
                refused(lambda: o.is_oversampling(b2[0] if n == 1 else b2), rc, "is_oversampling")
            else:
                same(o.is_oversampling(b2[0] if n == 1 else b2), verdict(), "is_oversampling of less")
    if n > 1:
        try:
            fail("one interval for %d: %r", n, o.is_oversampling(bs[0]))
        except ccs.Error:
            pass
    if k in (0, 1):
        t = a[0]
        same(o.data_type, t, "data_type")
        lo, up, q = RNum(), RNum(), RNum()
        sc = ct.c_int()
        if k == 0:
            rok("ccs_uniform_distribution_get_properties", h, ct.byref(lo), ct.byref(up), ct.byref(sc), ct.byref(q))
            same(o.lower, num(lo, t), "lower")
            same(o.upper, num(up, t), "upper")
        else:
            rok("ccs_normal_distribution_get_properties", h, ct.byref(lo), ct.byref(up), ct.byref(sc), ct.byref(q))
            same(o.mu, lo.f, "mu")
            same(o.sigma, up.f, "sigma")
        same(o.scale_type, sc.value, "scale_type")
        same(o.scale, sc.value, "scale")
        same(o.quantization, num(q, t), "quantization")
    elif k == 2:
        same(o.data_type, a[0], "data_type")
        w = rarr("ccs_roulette_distribution_get_areas", h, ct.c_double)
        same(o.num_areas, len(w), "num_areas")
        same(o.areas, w, "areas")
    elif k == 3:
        w = rarr("ccs_mixture_distribution_get_weights", h, ct.c_double)
        same(o.num_distributions, len(w), "num_distributions")
        same(o.weights, w, "weights")
        are_objs(o.distributions, rarr("ccs_mixture_distribution_get_distributions", h, ct.c_void_p), "distributions")
    else:
        w = rarr("ccs_multivariate_distribution_get_distributions", h, ct.c_void_p)
        same(o.num_distributions, len(w), "num_distributions")
        are_objs(o.distributions, w, "distributions")


def m_par(o, h):
    k = rget("ccs_parameter_get_type", h, ct.c_int)
    same(o.type, k, "type")
    same(o.name, text("ccs_parameter_get_name", h), "name")
    d = RDatum()
    rok("ccs_parameter_get_default_value", h, ct.byref(d))
    is_val(o.default_value, d, "default_value")
    if k != 4:
        p = ct.c_void_p()
        rok("ccs_parameter_get_default_distribution", h, ct.byref(p))
        # made on demand by the library
        x = o.default_distribution
        check(type(x) is want_class(p.value), "default_distribution: a %s", type(x).__name__)
        r, r2 = RIval(), RIval()
        rok("ccs_distribution_get_bounds", p.value, ct.byref(r))
        interval(x.bounds, r, "default_distribution.bounds")
        rok("ccs_release_object", p.value)
    if k == 0:
        t, lo, up, q = ct.c_int(), RNum(), RNum(), RNum()
        rok("ccs_numerical_parameter_get_properties", h, ct.byref(t), ct.byref(lo), ct.byref(up), ct.byref(q))
        same(o.data_type, t.value, "data_type")
        same(o.lower, num(lo, t.value), "lower")
        same(o.upper, num(up, t.value), "upper")
        same(o.quantization, num(q, t.value), "quantization")
    elif k < 4:
        f = ["", "ccs_categorical_parameter_get_values", "ccs_ordinal_parameter_get_values", "ccs_discrete_parameter_get_values"][k]
        vs = rarr(f, h, RDatum)
        are_vals(o.values, vs, "values")
        if k == 2:
            for i, x in enumerate(o.values):
                for j, y in enumerate(o.values):
                    c = o.compare(x, y)
                    check((c > 0) - (c < 0) == (i > j) - (i < j), "compare(%r, %r) is %r", x, y, c)


def m_expr(o, h):
    k = rget("ccs_expression_get_type", h, ct.c_int)
    same(o.type, k, "type")
    ns = rarr("ccs_expression_get_nodes", h, ct.c_void_p)
    same(o.num_nodes, len(ns), "num_nodes")
    if k < 18:
        are_objs(o.nodes, ns, "nodes")
    are_objs(o.parameters, rarr("ccs_expression_get_parameters", h, ct.c_void_p), "parameters")
    if k == 18:
        d = RDatum()
        rok("ccs_literal_get_value", h, ct.byref(d))
        is_val(o.value, d, "value")
    if k == 19:
        is_obj(o.parameter, rget("ccs_variable_get_parameter", h, ct.c_void_p), "parameter")


def m_context(o, h):
    same(o.name, text("ccs_context_get_name", h), "name")
    ps = rarr("ccs_context_get_parameters", h, ct.c_void_p)
    same(o.num_parameters, len(ps), "num_parameters")
    are_objs(o.parameters, ps, "parameters")
    for i, p in enumerate(ps):
        x = o.parameter(i)
        is_obj(x, p, "parameter(%d)" % i)
        n = text("ccs_parameter_get_name", p)
        is_obj(o.parameter_by_name(n), p, "parameter_by_name(%s)" % n)
        same(o.parameter_index(x), i, "parameter_index")
        same(o.parameter_index_by_name(n), i, "parameter_index_by_name")
        d, v = RDatum(), RDatum()
        rok("ccs_parameter_get_default_value", p, ct.byref(d))
        r = raw("ccs_context_validate_value", h, i, d, ct.byref(v))
        for key in (i, x, n):
            if r < 0:
                refused(lambda: o.validate_value(key, x.default_value), r, "validate_value")
            else:
                is_val(o.validate_value(key, x.default_value), v, "validate_value")


def m_csp(o, h):
    m_context(o, h)
    is_obj(o.rng, rget("ccs_configuration_space_get_rng", h, ct.c_void_p), "rng")
    n = o.num_parameters
    cs = rarr("ccs_configuration_space_get_conditions", h, ct.c_void_p)
    are_objs(o.conditions, cs, "conditions")
    same(o.num_conditions, len(cs), "num_conditions")
    ps = o.parameters
    for i in range(n):
        nm = ps[i].name
        for key in (i, ps[i], nm):
            is_obj(o.condition(key), cs[i], "condition(%d)" % i)
            d, at = ct.c_void_p(), ct.c_size_t()
            rok("ccs_configuration_space_get_parameter_distribution", h, i, ct.byref(d), ct.byref(at))
            x = o.get_parameter_distribution(key)
            is_obj(x[0], d.value, "distribution of %d" % i)
            same(x[1], at.value, "dimension of %d" % i)
    check([hv(p) for p in o.conditional_parameters] == [hv(p) for i, p in enumerate(ps) if cs[i]], "conditional_parameters")
    check([hv(p) for p in o.unconditional_parameters] == [hv(p) for i, p in enumerate(ps) if not cs[i]], "unconditional_parameters")
    fs = rarr("ccs_configuration_space_get_forbidden_clauses", h, ct.c_void_p)
    same(o.num_forbidden_clauses, len(fs), "num_forbidden_clauses")
    are_objs(o.forbidden_clauses, fs, "forbidden_clauses")
    for i, f in enumerate(fs):
        is_obj(o.forbidden_clause(i), f, "forbidden_clause(%d)" % i)
    c = ct.c_void_p()
    r = raw("ccs_configuration_space_get_default_configuration", h, ct.byref(c))
    if r >= 0:
        x = o.default_configuration
        k = ct.c_int(7)
        rok("ccs_binding_cmp", hv(x), c.value, ct.byref(k))
        check(k.value == 0, "default_configuration differs")
        b = ct.c_int32(7)
        rok("ccs_configuration_space_check_configuration", h, c.value, ct.byref(b))
        same(o.check(x), bool(b.value), "check")
        same(x.check(), bool(b.value), "configuration.check")
        same(o.check_values(x.values), bool(b.value), "check_values")
        rok("ccs_release_object", c.value)
    else:
        refused(lambda: o.default_configuration, r, "default_configuration")


def m_fsp(o, h):
    m_context(o, h)


def m_osp(o, h):
    m_context(o, h)
    n = ct.c_size_t()
    rok("ccs_objective_space_get_objectives", h, 0, None, None, ct.byref(n))
    es, ts = (ct.c_void_p * max(1, n.value))(), (ct.c_int * max(1, n.value))()
    if n.value:
        rok("ccs_objective_space_get_objectives", h, n.value, es, ts, None)
    same(o.num_objective, n.value, "num_objective")
    xs = o.objectives
    check(len(xs) == n.value, "objectives: %d of %d", len(xs), n.value)
    for i in range(n.value):
        for x in (xs[i], o.get_objective(i)):
            is_obj(x[0], es[i], "objective %d" % i)
            same(x[1], ts[i], "type of objective %d" % i)


def m_binding(o, h):
    is_obj(o.context, rget("ccs_binding_get_context", h, ct.c_void_p), "context")
    vs = rarr("ccs_binding_get_values", h, RDatum)
    same(o.num_values, len(vs), "num_values")
    are_vals(o.values, vs, "values")
    ps = rarr("ccs_context_get_parameters", o.context, ct.c_void_p)
    for i, v in enumerate(vs):
        p = ccs.Parameter.from_handle(ct.c_void_p(ps[i]))
        is_val(o.value(i), v, "value(%d)" % i)
        is_val(o.value(p), v, "value(parameter %d)" % i)
        is_val(o.value(p.name), v, "value(name %d)" % i)
    d = o.asdict()
    # a binding has the parameters its context had when it was made
    check(list(d) == [text("ccs_parameter_get_name", p) for p in ps[:len(vs)]], "asdict has keys %s", list(d))
    are_vals(list(d.values()), vs, "asdict")
    same(o.hash, rget("ccs_binding_hash", h, ct.c_uint32), "hash")
    check(hash(o) == o.hash, "__hash__")


def m_eval(o, h, kind):
    m_binding(o, h)
    is_obj(o.objective_space, rget("ccs_%s_get_objective_space" % kind, h, ct.c_void_p), "objective_space")
    is_obj(o.configuration, rget("ccs_%s_get_configuration" % kind, h, ct.c_void_p), "configuration")
    same(o.result, rget("ccs_%s_get_result" % kind, h, ct.c_int32), "result")
    n = ct.c_size_t()
    r = raw("ccs_%s_get_objective_values" % kind, h, 0, None, ct.byref(n))
    if r >= 0:
        same(o.num_objective_values, n.value, "num_objective_values")
        a = (RDatum * max(1, n.value))()
        r = raw("ccs_%s_get_objective_values" % kind, h, n.value, a, ct.byref(n))
    if r >= 0:
        are_vals(o.objective_values, [a[i] for i in range(n.value)], "objective_values")
    else:
        refused(lambda: o.objective_values, r, "objective_values")
    b = ct.c_int32(7)
    r = raw("ccs_%s_check" % kind, h, ct.byref(b))
    if r >= 0:
        same(o.check(), bool(b.value), "check")
    else:
        refused(lambda: o.check(), r, "check")
    c = ct.c_int(7)
    rok("ccs_%s_compare" % kind, h, h, ct.byref(c))
    same(o.compare(o), c.value, "compare with itself")


def m_cfg(o, h):
    m_binding(o, h)
    is_obj(o.configuration_space, rget("ccs_configuration_get_configuration_space", h, ct.c_void_p), "configuration_space")
    b = ct.c_int32(7)
    r = raw("ccs_configuration_check", h, ct.byref(b))
    if r >= 0:
        same(o.check(), bool(b.value), "check")
    else:
        refused(lambda: o.check(), r, "check")


def m_fea(o, h):
    m_binding(o, h)
    is_obj(o.features_space, rget("ccs_features_get_features_space", h, ct.c_void_p), "features_space")
    b = ct.c_int32(7)
    r = raw("ccs_features_check", h, ct.byref(b))
    if r >= 0:
        same(o.check(), bool(b.value), "check")
    else:
        refused(lambda: o.check(), r, "check")


def m_tree(o, h):
    d = RDatum()
    rok("ccs_tree_get_value", h, ct.byref(d))
    is_val(o.value, d, "value")
    cs = rarr("ccs_tree_get_children", h, ct.c_void_p)
    same(o.arity, rget("ccs_tree_get_arity", h, ct.c_size_t), "arity")
    are_objs(o.children, cs, "children")
    for i, c in enumerate(cs):
        is_obj(o.get_child(i), c, "get_child(%d)" % i)
    same(o.weight, rget("ccs_tree_get_weight", h, ct.c_double), "weight")
    same(o.bias, rget("ccs_tree_get_bias", h, ct.c_double), "bias")
    p, ix = ct.c_void_p(), ct.c_size_t()
    rok("ccs_tree_get_parent", h, ct.byref(p), ct.byref(ix))
    is_obj(o.parent, p.value, "parent")
    check(o.index == (ix.value if p.value else None), "index %r", o.index)
    pos = rarr("ccs_tree_get_position", h, ct.c_size_t)
    same(o.depth, len(pos), "depth")
    same(o.position, pos, "position")
    are_vals(o.values, rarr("ccs_tree_get_values", h, RDatum), "values")
    for q in ([], [0], [1], [0, 0], [1, 0], [7]):
        a = (ct.c_size_t * max(1, len(q)))(*q)
        b = ct.c_int32(7)
        rok("ccs_tree_position_is_valid", h, len(q), a, ct.byref(b))
        same(o.position_is_valid(q), bool(b.value), "position_is_valid %s" % q)
        n = ct.c_void_p()
        r = raw("ccs_tree_get_node_at_position", h, len(q), a, ct.byref(n))
        if r >= 0:
            is_obj(o.get_node_at_position(q), n.value, "node at %s" % q)
            vs = (RDatum * (len(q) + 1))()
            rok("ccs_tree_get_values_at_position", h, len(q), a, len(q) + 1, vs)
            are_vals(o.get_values_at_position(q), list(vs), "values at %s" % q)
        else:
            refused(lambda: o.get_node_at_position(q), r, "node at %s" % q)


def m_tsp(o, h):
    same(o.type, rget("ccs_tree_space_get_type", h, ct.c_int), "type")
    same(o.name, text("ccs_tree_space_get_name", h), "name")
    is_obj(o.rng, rget("ccs_tree_space_get_rng", h, ct.c_void_p), "rng")
    is_obj(o.tree, rget("ccs_tree_space_get_tree", h, ct.c_void_p), "tree")
    for q in ([], [0], [1], [0, 0], [1, 0], [7]):
        a = (ct.c_size_t * max(1, len(q)))(*q)
        b = ct.c_int32(7)
        rok("ccs_tree_space_check_position", h, len(q), a, ct.byref(b))
        same(o.check_position(q), bool(b.value), "check_position %s" % q)
        if not b.value:
            continue
        n = ct.c_void_p()
        r = raw("ccs_tree_space_get_node_at_position", h, len(q), a, ct.byref(n))
        if r < 0:
            refused(lambda: o.get_node_at_position(q), r, "node at %s" % q)
            continue
        is_obj(o.get_node_at_position(q), n.value, "node at %s" % q)
        vs = (RDatum * (len(q) + 1))()
        rok("ccs_tree_space_get_values_at_position", h, len(q), a, len(q) + 1, vs)
        are_vals(o.get_values_at_position(q), list(vs), "values at %s" % q)


def m_tcf(o, h):
    is_obj(o.tree_space, rget("ccs_tree_configuration_get_tree_space", h, ct.c_void_p), "tree_space")
    pos = rarr("ccs_tree_configuration_get_position", h, ct.c_size_t)
    same(o.position_size, len(pos), "position_size")
    same(o.position, pos, "position")
    are_vals(o.values, rarr("ccs_tree_configuration_get_values", h, RDatum), "values")
    is_obj(o.node, rget("ccs_tree_configuration_get_node", h, ct.c_void_p), "node")
    b = ct.c_int32(7)
    rok("ccs_tree_configuration_check", h, ct.byref(b))
    same(o.check(), bool(b.value), "check")
    same(o.hash, rget("ccs_tree_configuration_hash", h, ct.c_uint32), "hash")
    check(hash(o) == o.hash, "__hash__")


def m_tuner(o, h, kind, space):
    same(o.type, rget("ccs_%s_get_type" % kind, h, ct.c_int), "type")
    same(o.name, text("ccs_%s_get_name" % kind, h), "name")
    is_obj(o.objective_space, rget("ccs_%s_get_objective_space" % kind, h, ct.c_void_p), "objective_space")
    is_obj(getattr(o, space), rget("ccs_%s_get_%s" % (kind, space), h, ct.c_void_p), space)
    if kind == "features_tuner":
        is_obj(o.features_space, rget("ccs_features_tuner_get_features_space", h, ct.c_void_p), "features_space")
        return
    hs = rarr("ccs_%s_get_history" % kind, h, ct.c_void_p)
    same(o.history_size, len(hs), "history_size")
    are_objs(o.history, hs, "history")
    hs = rarr("ccs_%s_get_optima" % kind, h, ct.c_void_p)
    same(o.num_optima, len(hs), "num_optima")
    are_objs(o.optima, hs, "optima")


def m_ftuner_of(o, f):
    """history and optima for some features, or for all"""
    h = hv(o)
    fh = hv(f) if f is not None else None
    for what, size, lst in (("history", "history_size", "history"), ("optima", "num_optima", "optima")):
        hs = rarr("ccs_features_tuner_get_%s" % what, h, ct.c_void_p, fh)
        same(getattr(o, size)(f), len(hs), size)
        are_objs(getattr(o, lst)(f), hs, lst)


def m_map(o, h):
    ks = rarr("ccs_map_get_keys", h, RDatum)
    same(len(o), len(ks), "len")
    are_vals(o.keys(), ks, "keys")
    are_vals(o.values(), rarr("ccs_map_get_values", h, RDatum), "values")
    for k in ks:
        v = RDatum()
        rok("ccs_map_get", h, k, ct.byref(v))
        x = dict_value(k)
        is_val(o[x], v, "entry %r" % (x,))
        check(o.has_key(x) is True, "has_key(%r)", x)


def dict_value(k):
    w = dval(k)
    if w[0] == OBJECT:
        if w[2]:
            return ccs.Object(ct.c_void_p(w[1]), retain=False, auto_release=False)
        return ccs.Object.from_handle(ct.c_void_p(w[1]))
    return {NONE: lambda: None, INT: lambda: w[1], FLOAT: lambda: struct.unpack("=d", w[1])[0], BOOL: lambda: w[1],
            STRING: lambda: w[1].decode(), INACTIVE: lambda: ccs.inactive}[w[0]]()


class RElem(ct.Structure):
    _fields_ = [("file", ct.c_char_p), ("line", ct.c_int), ("func", ct.c_char_p)]


def m_err(o, h):
    same(o.code.value, rget("ccs_error_stack_get_code", h, ct.c_int), "code")
    p = ct.c_char_p()
    rok("ccs_error_stack_get_message", h, ct.byref(p))
    check(o.message == (p.value.decode() if p.value is not None else None), "message %r, the library has %r", o.message, p.value)
    n, e = ct.c_size_t(), ct.POINTER(RElem)()
    rok("ccs_error_stack_get_elems", h, ct.byref(n), ct.byref(e))
    xs = o.elems()
    check(len(xs) == n.value, "elems: %d of %d", len(xs), n.value)
    for i in range(n.value):
        check((xs[i].file, xs[i].line, xs[i].func) == (e[i].file, e[i].line, e[i].func), "element %d", i)


M = {T_RNG: m_rng, T_DIST: m_dist, T_PAR: m_par, T_EXPR: m_expr, T_CSP: m_csp, T_CFG: m_cfg, T_OSP: m_osp,
     T_EVA: lambda o, h: m_eval(o, h, "evaluation"), T_FEV: lambda o, h: (m_eval(o, h, "features_evaluation"), is_obj(o.features, rget("ccs_features_evaluation_get_features", h, ct.c_void_p), "features")),
     T_TEV: lambda o, h: m_eval(o, h, "tree_evaluation"), T_FSP: m_fsp, T_FEA: m_fea, T_MAP: m_map, T_ERR: m_err,
     T_TREE: m_tree, T_TSP: m_tsp, T_TCF: m_tcf, T_TUN: lambda o, h: m_tuner(o, h, "tuner", "configuration_space"),
     T_FTU: lambda o, h: m_tuner(o, h, "features_tuner", "configuration_space"), T_TTU: lambda o, h: m_tuner(o, h, "tree_tuner", "tree_space")}


def mirror(o):
    step("mirror", type(o).__name__)
    h = hv(o)
    t = otype(h)
    check(type(o) is want_class(h), "a %s stands for an object whose class is %s", type(o).__name__, want_class(h).__name__)
    same(o.object_type, t, "object_type")
    same(o.refcount, rrefs(h), "refcount")
    M[t](o, h)
