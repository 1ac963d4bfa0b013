"""One object of every class of the bindings, with variants as choices. A builder returns the object; what it is made
of is appended to keep."""
from pymc import *
import cconfigspace as ccs

P, D, X = ccs.Parameter, ccs.Distribution, ccs.Expression
STRS = ["", "a", "été", "a much longer string than the others, with spaces"]
VALS = [None, False, True, 0, 1, -1, 2**31, 2**62, -2**63, 2**63 - 1, 0.0, -0.0, 1.5, -1e300, 5e-324, "", "a", "été",
        "x" * 300, ccs.inactive]


def mk_rng(keep):
    r = ccs.Rng()
    r.seed = pick([0, 1, 12345], "seed")
    return r


def mk_uniform(keep):
    k = choose(6, "uniform")
    if k == 0:
        return D.Uniform.Float()
    if k == 1:
        return D.Uniform.Float(lower=-2.5, upper=7.25, quantization=0.25)
    if k == 2:
        return D.Uniform.Float(lower=1.0, upper=8.0, scale=ccs.ScaleType.LOGARITHMIC)
    if k == 3:
        return D.Uniform.Int()
    if k == 4:
        return D.Uniform.Int(lower=-2**40, upper=2**40, quantization=2)
    return D.Uniform.Int(lower=1, upper=1000, scale=ccs.ScaleType.LOGARITHMIC)


def mk_normal(keep):
    k = choose(4, "normal")
    if k == 0:
        return D.Normal.Float(mu=1.5, sigma=2.5)
    if k == 1:
        return D.Normal.Float(quantization=0.5, scale=ccs.ScaleType.LOGARITHMIC)
    if k == 2:
        return D.Normal.Int(mu=3.0, sigma=4.0, quantization=3)
    return D.Normal.Int()


def mk_roulette(keep):
    return D.Roulette(areas=pick([[1.0], [1.0, 2.0, 0.5], [1.0] * 9], "areas"))


def mk_mixture(keep):
    ds = [D.Uniform.Float(), D.Normal.Float()]
    keep += ds
    return D.Mixture(distributions=ds, weights=pick([None, [1.0, 3.0]], "weights"))


def mk_multi(keep):
    ds = pick([[D.Uniform.Float(), D.Uniform.Int()], [D.Normal.Int(), D.Roulette(areas=[1.0, 2.0]), D.Uniform.Float()]], "distributions")
    keep += ds
    return D.Multivariate(distributions=ds)


def mk_num(keep):
    k = choose(4, "numerical")
    if k == 0:
        return P.Numerical.Float(name="f")
    if k == 1:
        return P.Numerical.Float(name="fé", lower=-1.0, upper=3.0, quantization=0.5, default=1.5)
    if k == 2:
        return P.Numerical.Int(name="", lower=-2**62, upper=2**62, default=7)
    return P.Numerical.Int(name="i", lower=2, upper=20, quantization=2, default=4)


def mk_cat(keep):
    return P.Categorical(name="c", values=pick([["x"], ["x", "été", ""], VALS[:-1]], "values"), default_index=0)


def mk_ord(keep):
    return P.Ordinal(name="o", values=pick([["lo", "mid", "hi"], [3, 1.5, "a", True, None]], "values"), default_index=1)


def mk_dis(keep):
    return P.Discrete(name="d", values=pick([[0, 3, 7], [0.5, 1.25], [-2**63, 5, 2**63 - 1]], "values"), default_index=1)


def mk_str(keep):
    return P.String(name="s")


def mk_lit(keep):
    return X.Literal(value=pick(VALS[:-1], "value"))


def mk_expr(keep):
    p = P.Numerical.Float(name="p", lower=-5.0, upper=5.0)
    q = P.Categorical(name="q", values=["x", "y"])
    keep += [p, q]
    k = choose(6, "expression")
    if k == 0:
        return X.Variable(parameter=p)
    if k == 1:
        return X.Add(left=p, right=2.0)
    if k == 2:
        return X.In(left=q, right=X.List(values=["x", 1, None]))
    if k == 3:
        return X.And(left=X.Less(left=p, right=1.5), right=X.Not(node=X.Equal(left=q, right="y")))
    if k == 4:
        return X.List(values=pick([[], VALS[:-1]], "values"))
    return X.Negative(node=X.Multiply(left=p, right=X.Substract(left=p, right=3)))


def params(names="abcd"):
    mk = {"a": lambda: P.Numerical.Float(name="a", lower=-5.0, upper=5.0, default=1.0),
          "b": lambda: P.Categorical(name="b", values=["x", "y", "été"], default_index=1),
          "c": lambda: P.Numerical.Int(name="c", lower=0, upper=10, default=3),
          "d": lambda: P.Ordinal(name="d", values=["lo", "mid", "hi"])}
    return [mk[n]() for n in names]


def cspace(keep, full):
    cs = ccs.ConfigurationSpace(name=pick(["cs", "é space"], "name") if full else "cs")
    if full and choose(2, "empty"):
        return cs
    ps = params()
    keep += ps
    k = choose(4, "space") if full else 3
    if k == 0:
        cs.add_parameters(ps)
    elif k == 1:
        u = D.Uniform.Float(lower=-1.0, upper=1.0)
        r = D.Roulette(areas=[1.0, 1.0, 2.0])
        cs.add_parameters(ps, distributions=[u, r, None, None])
        keep += [u, r]
    else:
        for p in ps:
            cs.add_parameter(p)
        if k == 2:
            m = D.Multivariate(distributions=[D.Uniform.Float(lower=-2.0, upper=2.0), D.Uniform.Int(lower=1, upper=5)])
            cs.set_distribution(m, [ps[0], "c"])
            keep.append(m)
        else:
            cs.set_condition(ps[2], "b == 'x'")
            cs.set_condition("d", X.Greater(left=ps[0], right=2.0))
            cs.add_forbidden_clause("a == 4.0 && b == 'y'")
            cs.add_forbidden_clauses([X.Equal(left=ps[0], right=3.0), "d == 'hi'"])
    return cs


def fspace(keep):
    fs = ccs.FeaturesSpace(name="fs")
    ps = [P.Categorical(name="fa", values=[True, False]), P.String(name="fb")]
    keep += ps
    fs.add_parameter(ps[0])
    fs.add_parameters(ps[1:])
    return fs


def ospace(keep, full=False):
    os_ = ccs.ObjectiveSpace(name="os")
    ps = [P.Numerical.Float(name="u", lower=0.0, upper=float("inf")), P.Numerical.Float(name="v", lower=0.0, upper=float("inf"))]
    keep += ps
    k = choose(4, "objectives") if full else 2
    if k == 0:
        return os_
    os_.add_parameter(ps[0])
    os_.add_parameters(ps[1:])
    if k == 2:
        os_.add_objectives({"u": ccs.ObjectiveType.MINIMIZE, "v": ccs.ObjectiveType.MAXIMIZE})
    elif k == 3:
        os_.add_objectives(["u + v", X.Variable(parameter=ps[0])])
        os_.add_objective("v", ccs.ObjectiveType.MAXIMIZE)
    return os_


def mk_csp(keep):
    return cspace(keep, True)


def mk_fsp(keep):
    return fspace(keep)


def mk_osp(keep):
    return ospace(keep, True)


def mk_cfg(keep):
    cs = cspace(keep, False)
    keep.append(cs)
    k = choose(3, "configuration")
    if k == 0:
        return cs.default_configuration
    if k == 1:
        return ccs.Configuration(configuration_space=cs)
    return ccs.Configuration(configuration_space=cs, values=[2.5, "x", 4, "hi"])


def features(keep):
    fs = fspace(keep)
    keep.append(fs)
    return ccs.Features(features_space=fs, values=[pick([True, False], "feature"), pick(STRS, "string")])


def mk_fea(keep):
    return features(keep)


def eva_values():
    return pick([None, [1.0, 2.0], [0.0, float("inf")]], "values"), pick([0, -7, 300], "result")


def mk_eva(keep):
    cs, os_ = cspace(keep, False), ospace(keep, True)
    c = cs.default_configuration
    keep += [cs, os_, c]
    if not os_.num_parameters:
        return ccs.Evaluation(objective_space=os_, configuration=c)
    v, r = eva_values()
    return ccs.Evaluation(objective_space=os_, configuration=c, values=v, result=r)


def mk_fev(keep):
    cs, os_, f = cspace(keep, False), ospace(keep), features(keep)
    c = cs.default_configuration
    keep += [cs, os_, c, f]
    v, r = eva_values()
    return ccs.FeaturesEvaluation(objective_space=os_, configuration=c, features=f, values=v, result=r)


def tree(keep):
    t = ccs.Tree(arity=3, value="root")
    a = ccs.Tree(arity=2, value=pick(VALS[:-1] if thorough() else VALS[3:-1:5], "value"))
    b = ccs.Tree(arity=0, value=2)
    l = ccs.Tree(arity=0, value="é leaf")
    t.set_child(0, a)
    t.set_child(2, b)
    a.set_child(1, l)
    a.weight = 2.5
    t.bias = 0.5
    keep += [a, b, l]
    return t


def mk_tree(keep):
    t = tree(keep)
    keep.append(t)
    return pick([t] + keep[:3], "node")


def mk_tsp(keep):
    t = tree(keep)
    keep.append(t)
    return ccs.TreeSpace.Static(name="é tree", tree=t)


def dyn_child(ts, parent, index):
    return ccs.Tree(arity=2 if parent.depth < 2 else 0, value=(parent.value or 0) * 2 + index + 1)


def mk_dts(keep):
    t = ccs.Tree(arity=2, value=0)
    keep.append(t)
    return ccs.TreeSpace.Dynamic(name="dyn", tree=t, get_child=dyn_child, tree_space_data=pick([None, 0, [1, 2]], "data"))


def mk_tcf(keep):
    ts = mk_tsp(keep) if flip("static") else mk_dts(keep)
    keep.append(ts)
    return ccs.TreeConfiguration(tree_space=ts, position=pick([[], [0], [0, 1]], "position"))


def mk_tev(keep):
    c, os_ = mk_tcf(keep), ospace(keep)
    keep += [c, os_]
    v, r = eva_values()
    return ccs.TreeEvaluation(objective_space=os_, configuration=c, values=v, result=r)


def told(keep, t, ask, ev, n):
    for i in range(n):
        c = ask()
        e = ev(c, [float(i % 3), float(i % 2)])
        keep += [c, e]
        t.tell([e])


def mk_tun(keep):
    cs, os_ = cspace(keep, False), ospace(keep)
    keep += [cs, os_]
    t = ccs.Tuner.Random(name="tuner", configuration_space=cs, objective_space=os_)
    told(keep, t, lambda: t.ask(1)[0], lambda c, v: ccs.Evaluation(objective_space=os_, configuration=c, values=v), pick([0, 1, 4], "told"))
    return t


def mk_ftu(keep):
    cs, os_, f = cspace(keep, False), ospace(keep), features(keep)
    keep += [cs, os_, f]
    t = ccs.FeaturesTuner.Random(name="tuner", configuration_space=cs, objective_space=os_, features_space=f.context)
    told(keep, t, lambda: t.ask(f, 1)[0], lambda c, v: ccs.FeaturesEvaluation(objective_space=os_, configuration=c, features=f, values=v), pick([0, 1, 4], "told"))
    return t


def mk_ttu(keep):
    ts, os_ = mk_tsp(keep), ospace(keep)
    keep += [ts, os_]
    t = ccs.TreeTuner.Random(name="tuner", tree_space=ts, objective_space=os_)
    told(keep, t, lambda: t.ask(1)[0], lambda c, v: ccs.TreeEvaluation(objective_space=os_, configuration=c, values=v), pick([0, 1, 4], "told"))
    return t


class Callbacks:
    """what a user-defined tuner needs, over one list of evaluations"""

    def __init__(self, space):
        self.history, self.space = [], space

    def ask(self, t, count):
        if count is None:
            return (None, 1)
        return (self.space.samples(count), count)

    def askf(self, t, f, count):
        return self.ask(t, count)

    def tell(self, t, evals):
        self.history += evals

    def get_history(self, t, f=None):
        return self.history

    def get_optima(self, t, f=None):
        return self.history[-1:]

    def suggest(self, t, f=None):
        return self.history[-1].configuration if self.history else self.space.sample()


def mk_utu(keep):
    cs, os_ = cspace(keep, False), ospace(keep)
    keep += [cs, os_]
    b = Callbacks(cs)
    t = ccs.Tuner.UserDefined(name="user", configuration_space=cs, objective_space=os_, delete=None, ask=b.ask, tell=b.tell,
                              get_optima=b.get_optima, get_history=b.get_history, suggest=b.suggest, tuner_data=pick([None, 0, {"k": 1}], "data"))
    told(keep, t, lambda: t.ask(1)[0], lambda c, v: ccs.Evaluation(objective_space=os_, configuration=c, values=v), pick([0, 2], "told"))
    return t


def mk_uft(keep):
    cs, os_, f = cspace(keep, False), ospace(keep), features(keep)
    keep += [cs, os_, f]
    b = Callbacks(cs)
    t = ccs.FeaturesTuner.UserDefined(name="user", configuration_space=cs, objective_space=os_, features_space=f.context, delete=None,
                                      ask=b.askf, tell=b.tell, get_optima=b.get_optima, get_history=b.get_history, suggest=b.suggest)
    told(keep, t, lambda: t.ask(f, 1)[0], lambda c, v: ccs.FeaturesEvaluation(objective_space=os_, configuration=c, features=f, values=v), pick([0, 2], "told"))
    return t


def mk_utt(keep):
    ts, os_ = mk_tsp(keep), ospace(keep)
    keep += [ts, os_]
    b = Callbacks(ts)
    t = ccs.TreeTuner.UserDefined(name="user", tree_space=ts, objective_space=os_, delete=None, ask=b.ask, tell=b.tell,
                                  get_optima=b.get_optima, get_history=b.get_history, suggest=b.suggest)
    told(keep, t, lambda: t.ask(1)[0], lambda c, v: ccs.TreeEvaluation(objective_space=os_, configuration=c, values=v), pick([0, 2], "told"))
    return t


def mk_map(keep):
    m = ccs.Map()
    k = choose(3, "map")
    if k == 1:
        for i, v in enumerate(VALS):
            m[v] = VALS[-1 - i]
    elif k == 2:
        r = ccs.Rng()
        keep.append(r)
        m[r] = 1
        m["r"] = r
        m[ccs.Object(r.handle, retain=False, auto_release=False)] = r
    return m


def mk_err(keep):
    e = ccs.ErrorStack(error=ccs.Result.ERROR_INVALID_NAME, message=pick([None, "plain", "100% é %s"], "message"))
    for i in range(choose(3, "elements")):
        e.push("file%d" % i, i, "func%d" % i)
    return e


KINDS = [mk_rng, mk_uniform, mk_normal, mk_roulette, mk_mixture, mk_multi, mk_num, mk_cat, mk_ord, mk_dis, mk_str, mk_lit,
         mk_expr, mk_csp, mk_fsp, mk_osp, mk_cfg, mk_fea, mk_eva, mk_fev, mk_tree, mk_tsp, mk_dts, mk_tcf, mk_tev, mk_tun,
         mk_ftu, mk_ttu, mk_utu, mk_uft, mk_utt, mk_map, mk_err]


def make(keep, but=()):
    return pick([k for k in KINDS if k not in but], "kind")(keep)
