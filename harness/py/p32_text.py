"""Text of expressions: printing and parsing."""
import itertools
from pymc import *
import cconfigspace as ccs

OR, AND, EQ, NE, LT, GT, LE, GE, ADD, SUB, MUL, DIV, MOD, POS, NEG, NOT, IN, LIST, LIT, VAR = range(20)
SYM = {OR: "||", AND: "&&", EQ: "==", NE: "!=", LT: "<", GT: ">", LE: "<=", GE: ">=", ADD: "+", SUB: "-", MUL: "*",
       DIV: "/", MOD: "%", POS: "+", NEG: "-", NOT: "!", IN: "#"}
# documented in cconfigspace/expression.h: higher binds tighter, binary operators group to the left
PREC = {OR: 0, AND: 1, EQ: 2, NE: 2, LT: 3, GT: 3, LE: 3, GE: 3, ADD: 4, SUB: 4, MUL: 5, DIV: 5, MOD: 5, POS: 6, NEG: 6,
        NOT: 6, IN: 7}
BIN = [OR, AND, EQ, NE, LT, GT, LE, GE, ADD, SUB, MUL, DIV, MOD]
UN = [POS, NEG, NOT]
CLS = {OR: ccs.Expression.Or, AND: ccs.Expression.And, EQ: ccs.Expression.Equal, NE: ccs.Expression.NotEqual,
       LT: ccs.Expression.Less, GT: ccs.Expression.Greater, LE: ccs.Expression.LessOrEqual,
       GE: ccs.Expression.GreaterOrEqual, ADD: ccs.Expression.Add, SUB: ccs.Expression.Substract,
       MUL: ccs.Expression.Multiply, DIV: ccs.Expression.Divide, MOD: ccs.Expression.Modulo,
       POS: ccs.Expression.Positive, NEG: ccs.Expression.Negative, NOT: ccs.Expression.Not, IN: ccs.Expression.In}


def tree(h):
    """the expression as the library holds it: nested tuples"""
    h = hv(h)
    t = rget("ccs_expression_get_type", h, ct.c_int)
    if t == LIT:
        d = RDatum()
        rok("ccs_literal_get_value", h, ct.byref(d))
        return (LIT, dval(d))
    if t == VAR:
        p = rget("ccs_variable_get_parameter", h, ct.c_void_p)
        return (VAR, p)
    n = ct.c_size_t()
    rok("ccs_expression_get_num_nodes", h, ct.byref(n))
    a = (ct.c_void_p * max(1, n.value))()
    rok("ccs_expression_get_nodes", h, n.value, a, None)
    return (t,) + tuple(tree(a[i]) for i in range(n.value))


def norm(t):
    """a minus sign before a number may be read as part of the number"""
    if t[0] in (LIT, VAR):
        return t
    k = tuple(norm(x) for x in t[1:])
    if t[0] == NEG and k[0][0] == LIT:
        d = k[0][1]
        if d[0] == INT and d[1] != -2**63:
            return (LIT, (INT, -d[1]))
        if d[0] == FLOAT:
            return (LIT, (FLOAT, struct.pack("=d", -struct.unpack("=d", d[1])[0])))
    return (t[0],) + k


CTX = {}


def ctx(names=("a", "b", "c", "d", "e", "f", "g", "h")):
    """one space per list of names, kept for the whole run"""
    if names not in CTX:
        cs = ccs.ConfigurationSpace(name="ctx")
        ps = [ccs.Parameter.Numerical.Float(name=n, lower=-10.0, upper=10.0) for n in names]
        cs.add_parameters(ps)
        CTX[names] = (cs, ps)
    return CTX[names]


def parse(text, cs):
    step("parse", text)
    return ccs.parser.parse(text, context=ccs.configuration_space.PContext(extra=cs))


def roundtrip(e, cs, exact=False):
    want = tree(e)
    text = str(e)
    step("print", text)
    try:
        back = parse(text, cs)
    except Exception as x:
        if type(x).__module__.startswith("parglare") or isinstance(x, ccs.Error):
            fail("the text %r of expression %s is refused: %s", text, want, str(x)[:200])
        raise
    got = tree(back)
    check(norm(got) == norm(want), "expression %s is printed as %r, which reads back as %s", want, text, got)
    text2 = str(back)
    check(text2 == text, "%r read back prints as %r", text, text2)
    obs(text)


class Leaves:
    def __init__(self, ps):
        self.ps, self.n = ps, 0

    def leaf(self):
        self.n += 1
        return ccs.Expression.Variable(parameter=self.ps[(self.n - 1) % len(self.ps)])


def node(op, L, kid):
    if op is None:
        return L.leaf()
    if op in UN:
        return CLS[op](node=kid())
    if op == IN:
        l = kid()
        return CLS[op](left=l, right=ccs.Expression.List(values=[1.0, L.leaf()]))
    l = kid()
    r = kid()
    return CLS[op](left=l, right=r)


@suite
def shapes():
    """every operator over every pair of operand forms, each operand a leaf or an operator over leaves"""
    cs, ps = ctx()
    ops = BIN + UN + [IN]
    root = pick(ops, "root")
    L = Leaves(ps)

    def kid():
        op = pick([None] + ops, "operand")
        return node(op, L, lambda: L.leaf())
    shard_point()
    e = node(root, L, kid)
    roundtrip(e, cs)


REPS = [OR, AND, NE, GE, SUB, MOD, NEG, NOT, IN]


@suite
def deep():
    """chains and full trees of depth 3 and more with one operator for each level of precedence"""
    cs, ps = ctx()
    reps = REPS
    L = Leaves(ps)
    full = thorough()

    def gen(depth, spine):
        if depth == 0:
            return L.leaf()
        op = pick([None] + reps, "operator")
        if op is None or op in UN or op == IN:
            return node(op, L, lambda: gen(depth - 1, spine))
        if full and depth <= 2:
            l = gen(depth - 1, spine)
            r = gen(depth - 1, spine)
        elif flip("deep side"):
            l = L.leaf()
            r = gen(depth - 1, spine)
        else:
            l = gen(depth - 1, spine)
            r = L.leaf()
        return CLS[op](left=l, right=r)
    root = pick(reps, "root")
    second = pick([None] + reps, "second")
    shard_point()

    def kid():
        return node(second, L, lambda: gen(tier_bound(1, 2), True))
    if root in UN or root == IN:
        e = node(root, L, kid)
    elif flip("deep side"):
        l = L.leaf()
        e = CLS[root](left=l, right=kid())
    else:
        l = kid()
        e = CLS[root](left=l, right=L.leaf())
    roundtrip(e, cs)


INTS = [0, 1, 7, 10, 2**31 - 1, 2**31, 2**53 + 1, 2**63 - 1, -1, -7, -2**31, -2**31 - 1, -2**53 - 1, -2**63 + 1]
FLOATS = [0.0, -0.0, 1.0, -1.0, 0.5, 0.1, 1.0 / 3, 1e15, 1e16, 1e17, 123456789012345680.0, 1e22, 1e-4, 1e-5, 1.5e-7, -2.5e-300,
          5e-324, 1.7976931348623157e308, -1e300, 1e100, 2.0**63]
ALPHA = ["a", "Z", "0", "_", " ", "'", '"', "\\", "\n", "\t", "\r", "\f", "\v", "\x01", "\x1b", "\x7f", "%", "(", ")", "[", ",",
         "#", "\u00e9", "\u4e2d", "\U0001f600", "\u200b", "\u2028", "\x85", "\xa0"]


def literal():
    k = choose(5, "kind of literal")
    if k == 0:
        return pick([None, True, False], "constant")
    if k == 1:
        return pick(INTS, "integer")
    if k == 2:
        return pick(FLOATS, "float")
    if k == 3:
        n = choose(tier_bound(3, 4), "length")
        return "".join(pick(ALPHA, "character") for _ in range(n))
    return pick(["none", "true", "a", "a + b", "\\n", "\\", "\\\\", "'", "''", '"', '\'"', "it's \"so\"", "\\'", '\\"', "\n\\n", "x" * 300,
                 "e1", "1", "-1", "1.0", "\\x41", "\\u0041", "{}", "\\0"], "string")


@suite
def literals():
    """every literal, alone, under a sign, as an operand and in a list"""
    cs, ps = ctx()
    v = literal()
    shard_point()
    where = choose(7, "place")
    lit = ccs.Expression.Literal(value=v)
    V = ccs.Expression.Variable(parameter=ps[0])
    if where == 0:
        e = lit
    elif where == 1:
        e = ccs.Expression.Equal(left=V, right=lit)
    elif where == 2:
        e = ccs.Expression.Substract(left=lit, right=V)
    elif where == 3:
        e = ccs.Expression.Substract(left=V, right=lit)
    elif where == 4:
        e = ccs.Expression.In(left=V, right=ccs.Expression.List(values=[lit]))
    elif where == 5:
        e = ccs.Expression.In(left=lit, right=ccs.Expression.List(values=[1, lit, V]))
    else:
        e = ccs.Expression.Negative(node=lit)
    d = RDatum()
    rok("ccs_literal_get_value", hv(lit), ct.byref(d))
    want = {type(None): lambda: (NONE,), bool: lambda: (BOOL, v), int: lambda: (INT, v),
            float: lambda: (FLOAT, struct.pack("=d", v)), str: lambda: (STRING, v.encode())}[type(v)]()
    check(dval(d) == want, "literal %r is stored as %s", v, dval(d))
    got = lit.value
    check(type(got) is type(v) and (got == v) and struct.pack("=d", got) == struct.pack("=d", v) if isinstance(v, float) else
          type(got) is type(v) and got == v, "literal %r is returned as %r", v, got)
    roundtrip(e, cs)


@suite
def lists():
    cs, ps = ctx()
    n = choose(tier_bound(4, 5), "length")
    items = []
    for _ in range(n):
        k = choose(6, "item")
        items.append([1, -2, 2.5, "it's", None, ccs.Expression.Variable(parameter=ps[1])][k])
    shard_point()
    e = ccs.Expression.In(left=ccs.Expression.Variable(parameter=ps[0]), right=ccs.Expression.List(values=items))
    roundtrip(e, cs)


NAMES = ["a", "A", "_", "__", "a1", "_0", "none_", "nonesuch", "none1", "trueish", "true_", "falsehood", "false0", "None", "True", "NONE",
         "e", "e1", "E5", "in", "index", "or", "and", "not", "x" * 200, "true1", "anone", "nothing", "tru", "fals", "inf", "nan"]


@suite
def names():
    """parameters whatever their (identifier-like) name, alone and next to every other one"""
    i, j = choose(len(NAMES), "first"), choose(len(NAMES), "second")
    shard_point()
    if i == j:
        names = (NAMES[i],)
    else:
        names = (NAMES[i], NAMES[j])
    cs, ps = ctx(names)
    a, b = ps[0], ps[-1]
    V = ccs.Expression.Variable
    k = choose(4, "form")
    if k == 0:
        e = V(parameter=a)
    elif k == 1:
        e = ccs.Expression.Add(left=V(parameter=a), right=V(parameter=b))
    elif k == 2:
        e = ccs.Expression.And(left=ccs.Expression.Not(node=V(parameter=a)), right=ccs.Expression.Negative(node=V(parameter=b)))
    else:
        e = ccs.Expression.In(left=V(parameter=a), right=ccs.Expression.List(values=[V(parameter=b), None, True, False]))
    roundtrip(e, cs)


# ---- sentences: an independent reading of the grammar --------------------------------------------------------------
class Bad(Exception):
    pass


def ref_parse(toks, ps):
    pos = 0
    bins = {SYM[o]: o for o in BIN}

    def peek():
        return toks[pos] if pos < len(toks) else None

    def take(x=None):
        nonlocal pos
        t = peek()
        if t is None or (x is not None and t != x):
            raise Bad()
        pos += 1
        return t

    def value():
        t = take()
        if t in ("a", "b"):
            return (VAR, hv(ps[0] if t == "a" else ps[1]))
        if t == "none":
            return (LIT, (NONE,))
        if t == "true":
            return (LIT, (BOOL, True))
        if t == "'s'":
            return (LIT, (STRING, b"s"))
        if t == "1":
            return (LIT, (INT, 1))
        if t == "2.5":
            return (LIT, (FLOAT, struct.pack("=d", 2.5)))
        raise Bad()

    def lst():
        take("[")
        r = []
        if peek() == "]":
            take("]")
            return (LIST,)
        r.append(value())
        while peek() == ",":
            take(",")
            r.append(value())
        take("]")
        return (LIST,) + tuple(r)

    def expr(minp):
        t = peek()
        if t in ("+", "-", "!"):
            take()
            left = ({"+": POS, "-": NEG, "!": NOT}[t], expr(6))
        elif t == "(":
            take()
            left = expr(0)
            take(")")
        else:
            left = value()
        while True:
            t = peek()
            if t == "#" and 7 >= minp:
                take()
                left = (IN, left, lst())
            elif t in bins and PREC[bins[t]] >= minp:
                take()
                left = (bins[t], left, expr(PREC[bins[t]] + 1))
            else:
                return left
    r = expr(0)
    if pos != len(toks):
        raise Bad()
    return r


TOKS = ["a", "1", "||", "&&", "!=", "<", "-", "%", "!", "#", "(", ")", "[", "]", ","]
MORE = ["b", "2.5", "'s'", "none", "true", "==", ">", "<=", ">=", "+", "*", "/"]


def sentence(toks, cs, ps, text):
    try:
        want = ref_parse(toks, ps)
    except Bad:
        want = None
    try:
        got = tree(parse(text, cs))
    except Exception as x:
        if not type(x).__module__.startswith("parglare"):
            raise
        got = None
    check((got is None) == (want is None) and (got is None or norm(got) == norm(want)),
          "text %r: read as %s, documented reading %s", text, got, want)
    obs(text if got else "refused")


@suite
def sentences():
    """every sequence of tokens up to a length: accepted exactly when the grammar has it, and read as documented"""
    cs, ps = ctx()
    n = 1 + choose(tier_bound(4, 5), "length")
    toks = []
    for i in range(n):
        toks.append(pick(TOKS, "token"))
        if i == min(1, n - 1):
            shard_point()
    sentence(toks, cs, ps, " ".join(toks))


@suite
def all_tokens():
    """every operator pair and every kind of operand, spaced or not"""
    cs, ps = ctx()
    o1, o2 = pick([SYM[o] for o in BIN] + ["#"], "first"), pick([SYM[o] for o in BIN] + ["#"], "second")
    shard_point()
    pre = pick([[], ["-"], ["!"], ["+"], ["("]], "prefix")
    x = pick(["a", "1", "2.5", "'s'", "none", "true"], "operand")
    toks = pre + [x, o1] + (["[", "1", ",", x, "]"] if o1 == "#" else ["b"]) + [o2] + (["[", "]"] if o2 == "#" else [x])
    if pre == ["("]:
        toks.insert(len(toks) - (3 if o2 == "#" else 2), ")")
    sep = pick([" ", "", "\n\t "], "separator")
    sentence(toks, cs, ps, sep.join(toks))


@suite
def long_sentences():
    """chains of one or two operators of up to hundreds of operands, nests of parentheses and signs"""
    cs, ps = ctx()
    o1 = pick([SYM[o] for o in BIN], "operator")
    o2 = pick([SYM[o] for o in BIN], "operator")
    shard_point()
    n = pick([5, 17, tier_bound(40, 120)], "operands")
    k = choose(3, "form")
    if k == 0:
        toks = ["a"]
        for i in range(n):
            toks += [o1 if i % 2 else o2, "b"]
    elif k == 1:
        toks = ["("] * n + ["a"]
        for i in range(n):
            toks += [o1 if i % 2 else o2, "b", ")"]
    else:
        toks = []
        for i in range(n):
            toks += ["a", o1 if i % 2 else o2, "("]
        toks += ["b"] + [")"] * n
    sentence(toks, cs, ps, " ".join(toks))
    e = parse(" ".join(toks), cs)
    roundtrip(e, cs)


if __name__ == "__main__":
    main()
