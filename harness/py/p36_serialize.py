"""What the bindings serialize comes back equal, by every way of writing and reading it, with what users attached to it."""
from p34_lifetimes import *
import pymc
import os
import shutil
import tempfile
del pymc.SUITES[:]

DIR = [None]


def scratch():
    if DIR[0] is None:
        DIR[0] = tempfile.mkdtemp(prefix="p36-")
        import atexit
        atexit.register(shutil.rmtree, DIR[0], True)
    return DIR[0]


SKIP = {"refcount", "tuner_data", "tree_space_data", "hash"}


def describe(o, data=True):
    """everything the accessors say, down to the last object, without addresses"""
    seen, out = {}, []

    def val(v):
        if isinstance(v, ccs.Object):
            h = hv(v)
            # (those are written with every evaluation that has them)
            if isinstance(v, (ccs.Features, ccs.Configuration, ccs.TreeConfiguration)):
                return obj(v)
            if h not in seen:
                seen[h] = len(seen)
                return ("#%d" % seen[h],) + obj(v)
            return "#%d" % seen[h]
        if isinstance(v, dict):
            return [(val(k), val(w)) for k, w in v.items()]
        if isinstance(v, (list, tuple)):
            return [val(w) for w in v]
        if isinstance(v, ccs.Interval):
            return [val(getattr(v, n)) for n in ("type", "lower", "upper", "lower_included", "upper_included")]
        if hasattr(v, "value"):
            return type(v).__name__, v.value
        return type(v).__name__, repr(v)

    def obj(v):
        r = [type(v).__name__]
        for n, f in attrs(v):
            # (the parameters of an expression come in an order that depends on their addresses)
            if n in SKIP or n == "parameters" and isinstance(v, ccs.Expression):
                continue
            try:
                x = f()
            except (ccs.Error, AttributeError) as e:
                r.append((n, type(e).__name__))
                continue
            r.append((n, val(x)))
        if data:
            r.append(("user_data", repr(v.user_data)))
        return tuple(r)
    return val(o)


def differ(a, b, path=""):
    """the first difference"""
    if type(a) != type(b):
        return "%s: %r and %r" % (path, a, b)
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return "%s: %d and %d elements: %r and %r" % (path, len(a), len(b), a, b)
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, "%s.%s" % (path, x[0] if isinstance(x, tuple) and x and isinstance(x[0], str) else i))
            if d:
                return d
        return None
    return None if a == b else "%s: %r and %r" % (path, a, b)


def same_object(o, p, what, data=True):
    d = differ(describe(o, data), describe(p, data))
    check(d is None, "%s: %s", what, d)


# how things are written and read
CHANNELS = ["memory", "path", "descriptor", "descriptor 0", "pipe"]


class Where:
    """somewhere to write an object to and to read it from"""
    n = 0

    def __init__(self, channel):
        self.c = channel
        Where.n += 1
        self.path = os.path.join(scratch(), pick_name(channel) % Where.n)
        self.buf = None

    def fd(self, flags, f):
        fd = os.open(self.path, flags, 0o600)
        try:
            if self.c == "descriptor 0":
                old = os.dup(0)
                os.dup2(fd, 0)
                try:
                    return f(0)
                finally:
                    os.dup2(old, 0)
                    os.close(old)
            return f(fd)
        finally:
            os.close(fd)

    def write(self, o, **kw):
        if self.c == "memory":
            self.buf = o.serialize(**kw)
            check(self.buf is not None, "nothing is given")
        elif self.c == "path":
            check(o.serialize(path=self.path, **kw) is None, "something is given")
        elif self.c == "pipe":
            r, w = os.pipe()
            try:
                try:
                    o.serialize(file_descriptor=w, **kw)
                finally:
                    os.close(w)
                with open(self.path, "wb") as f:
                    while True:
                        x = os.read(r, 65536)
                        if not x:
                            break
                        f.write(x)
            finally:
                os.close(r)
        else:
            def f(fd):
                check(o.serialize(file_descriptor=fd, **kw) is None, "something is given")
            self.fd(os.O_WRONLY | os.O_CREAT | os.O_TRUNC, f)

    def bytes(self):
        if self.c == "memory":
            return bytes(self.buf)
        with open(self.path, "rb") as f:
            return f.read()

    def read(self, how, **kw):
        if self.c == "memory":
            return how(buffer=self.buf, **kw)
        if self.c == "path":
            return how(path=self.path, **kw)
        if self.c == "pipe":
            r, w = os.pipe()
            try:
                b = self.bytes()
                if len(b) > 60000:
                    prune()
                os.write(w, b)
                os.close(w)
                w = None
                return how(file_descriptor=r, **kw)
            finally:
                os.close(r)
                if w is not None:
                    os.close(w)
        return self.fd(os.O_RDONLY, lambda fd: how(file_descriptor=fd, **kw))

    def done(self):
        if os.path.exists(self.path):
            os.unlink(self.path)


def pick_name(channel):
    return "é file %d" if channel == "path" else "f%d"


def plain(o, keep):
    """the bytes without the bindings"""
    n = ct.c_size_t()
    rok("ccs_object_serialize", hv(o), ct.c_int(0), ct.c_int(0), ct.byref(n), ct.c_int(0))
    b = (ct.c_byte * n.value)()
    rok("ccs_object_serialize", hv(o), ct.c_int(0), ct.c_int(1), ct.c_size_t(n.value), b, ct.c_int(0))
    return bytes(b)


def contexts(o, keep):
    """the objects o refers to without owning them"""
    out = []
    if isinstance(o, (ccs.Configuration, ccs.Features)):
        out.append(o.context)
    elif isinstance(o, (ccs.Evaluation, ccs.FeaturesEvaluation)):
        out += [o.objective_space, o.configuration.context]
        if isinstance(o, ccs.FeaturesEvaluation):
            out.append(o.features.context)
    elif isinstance(o, ccs.TreeConfiguration):
        out.append(o.tree_space)
    elif isinstance(o, ccs.TreeEvaluation):
        out += [o.objective_space, o.configuration.tree_space]
    elif isinstance(o, ccs.Expression):
        out += list(o.parameters)
    return out


PLAIN = [k for k in KINDS if k not in (mk_err, mk_utu, mk_uft, mk_utt, mk_dts)]


def has_dynamic(o):
    t = getattr(o, "tree_space", None) or (o.configuration.tree_space if isinstance(o, ccs.TreeEvaluation) else None)
    return isinstance(t, ccs.TreeSpace.Dynamic)


@suite
def every_class_comes_back():
    """written and read by every way, with every kind of handle map"""
    b = Base()
    keep = []
    channel = pick(CHANNELS, "channel")
    # 0: none; 1: an empty one; 2: with the contexts; 3: from reading the contexts; 4: with something else
    maps = choose(5, "map")
    kind = pick(PLAIN, "kind")
    shard_point()
    o = kind(keep)
    if isinstance(o, ccs.Tree) and o.parent is not None:
        prune()
    how = ccs.Object.deserialize if channel != "memory" or choose(2, "how") else ccs.deserialize
    need = contexts(o, keep)
    if not thorough() and channel != "memory" and maps != (2 if need else 1):
        prune()
    if maps in (2, 3) and not need:
        prune()
    if maps == 3 and (has_dynamic(o) or isinstance(o, ccs.Expression)):
        prune()
    where = Where(channel)
    where.write(o)
    check(where.bytes() == plain(o, keep), "%s: other bytes than the library gives", channel)
    hm, copies = None, []
    if maps:
        hm = ccs.Map()
        if maps == 4:
            hm["other"] = 5
        for x in need:
            if maps == 2:
                hm[x] = x
            elif maps == 3:
                if not hm.has_key(x):
                    copies.append(ccs.deserialize(buffer=x.serialize(), handle_map=hm))
                check(hm.has_key(x), "the map does not have the %s that was read", type(x).__name__)
                y = hm[x]
                check(type(y) is type(x) and hv(y) != hv(x), "the map has %r", y)
                y = None
        x = None
    kw = {} if hm is None else {"handle_map": hm}
    name = type(o).__name__
    # an empty map is good for objects whose contexts are nowhere needed
    if need and maps not in (2, 3):
        try:
            p = where.read(how, **kw)
            fail("a %s is read without what it refers to: %r", name, p)
        except ccs.Error as e:
            check(e._stack is not None, "no stack")
            obs(e._code.value)
        e = None
    else:
        p = where.read(how, **kw)
        check(type(p) is type(o), "a %s is read as a %s", name, type(p).__name__)
        same_object(o, p, name)
        check(hv(p) != hv(o), "the object itself is given")
        mirror(p)
        for x, y in zip(need, contexts(p, keep)):
            if maps == 2:
                check(hv(x) == hv(y), "the %s it refers to is another one", type(x).__name__)
            else:
                check(hv(hm[x]) == hv(y), "the %s it refers to is not the one read before", type(x).__name__)
        x = y = None
        if maps and not isinstance(o, ccs.Expression):
            check(hm.has_key(o) and hv(hm[o]) == hv(p), "the map does not lead from the object to what was read")
        # and again
        check(len(plain(p, keep)) == len(plain(o, keep)), "what was read is written otherwise")
        if not need:
            q = ccs.deserialize(buffer=p.serialize())
            same_object(o, q, name + " again")
    where.done()
    obs(name, channel, maps)
    o = p = q = hm = kw = where = need = how = None
    del keep[:], copies[:]
    b.back(name)


UDATA = [None, 0, 1, False, True, "", "text", "é\n\0\"'", [], {}, [1, [2, {"k": None}]], {"a": 1.5, "b": [True]}, 1e308, -2**63, 2**100, 0.1, "x" * 300]


def parts_of(o):
    out, seen = [], set()

    def walk(x):
        if hv(x) in seen:
            return
        seen.add(hv(x))
        out.append(x)
        # (some accessors make a new object each time)
        for (n, f), (_, g) in zip(attrs(x), attrs(ccs.Object.from_handle(ct.c_void_p(hv(x))))):
            if n in SKIP:
                continue
            try:
                ys, zs = [], []
                objects(f(), ys)
                objects(g(), zs)
            except (ccs.Error, AttributeError):
                continue
            for y, z in zip(ys, zs):
                if hv(y) == hv(z):
                    walk(y)
    walk(o)
    return out


OWNED = [mk_rng, mk_uniform, mk_num, mk_cat, mk_lit, mk_csp, mk_fsp, mk_osp, mk_tree, mk_tsp, mk_tun, mk_ftu, mk_ttu, mk_map, mk_mixture]


def made(k, keep):
    return k(keep)


@suite
def user_data():
    """data attached to objects and to their parts comes back with them"""
    b = Base()
    which = choose(4, "which")  # the object; all; every second; all but it
    ud = pick(UDATA if thorough() or which == 0 else [7, "x" * 300], "data")
    channel = pick(CHANNELS[:2] if not thorough() else CHANNELS, "channel")
    keep = []
    kind = pick(OWNED if thorough() or which or ud == 1 else [mk_rng, mk_tsp, mk_map], "kind")
    shard_point()
    o = kind(keep)
    if isinstance(o, ccs.Tree) and o.parent is not None:
        prune()
    if isinstance(o, ccs.Map) and which:
        prune()
    parts = parts_of(o)
    n = 0
    for i, x in enumerate(parts):
        # (what a tuner was told has its own objects, asked for again below)
        if which == 0 and i == 0 or which == 1 or which == 2 and i % 2 == 0 or which == 3 and i:
            x.user_data = [ud, i] if which else ud
            n += 1
    x = None
    want = describe(o)
    where = Where(channel)
    where.write(o)
    p = where.read(ccs.Object.deserialize)
    d = differ(want, describe(p))
    check(d is None, "%s", d)
    if which == 0:
        check(repr(p.user_data) == repr(ud), "user data is %r instead of %r", p.user_data, ud)
    d = differ(want, describe(o))
    check(d is None, "writing changes the object: %s", d)
    # what is attached to the copy is the copy's
    for x in parts_of(p) if not isinstance(p, ccs.Map) else []:
        x.user_data = "mine"
    x = None
    d = differ(want, describe(o))
    check(d is None, "the copy shares its user data: %s", d)
    # written without user data by the library alone, read by the bindings
    q = where2 = None
    where.done()
    obs(type(o).__name__, which, n, channel)
    o = p = parts = where = None
    del keep[:]
    b.back("it")


@suite
def callbacks():
    """callbacks of users write and read the data: what they are given, and what becomes of it"""
    b = Base()
    cd = pick([None, 0, "", [], "data", ccs.Map], "callback data")
    size = pick([0, 1, 4, 1000], "size")
    channel = pick(CHANNELS, "channel")
    nested = choose(2, "nested")
    shard_point()
    if cd is ccs.Map:
        cd = ccs.Map()
    o = cspace([], False) if nested else ccs.Rng()
    parts = [o, o.parameters[1]] if nested else [o]
    o.user_data = size
    if nested:
        parts[1].user_data = "p"
    calls = []

    def content(x):
        return bytes((i * 7 + (3 if isinstance(x, ccs.Parameter) else 0)) % 256 for i in range(size))

    def write(x, d, flag):
        check(d is cd, "callback data is %r", d)
        check(hv(x) in [hv(y) for y in parts], "called for %r", x)
        check(x.user_data == (size if hv(x) == hv(o) else "p"), "user data is %r", x.user_data)
        calls.append((hv(x), flag))
        return (ct.c_ubyte * size)(*content(x))

    got = []

    def read(x, s, d):
        check(d is cd, "callback data is %r", d)
        v = None if s is None else bytes(s.contents)
        check((v or b"") == content(x), "%r is read instead of %r", v, content(x))
        x.user_data = ("read", len(v or b""))
        got.append(type(x).__name__)
    where = Where(channel)
    if cd is None and flip("implicit"):
        where.write(o, callback=write)
        p = where.read(ccs.Object.deserialize, callback=read)
    else:
        where.write(o, callback=write, callback_data=cd)
        p = where.read(ccs.Object.deserialize, callback=read, callback_data=cd)
    for x in parts:
        check(any(c[0] == hv(x) for c in calls), "the callback is not called for %r", x)
    if size:
        check(sorted(got) == sorted(type(x).__name__ for x in parts), "read for %r", got)
        check(p.user_data == ("read", size), "user data is %r", p.user_data)
    x = None
    same_object(o, p, "it", False)
    check(o.user_data == size, "user data of the first is %r", o.user_data)
    where.done()
    obs(size, channel, nested, len(calls))
    o = p = parts = where = cd = write = read = content = None
    b.back("it")


# user-defined objects

class Tuned:
    """the callbacks of a user-defined tuner or dynamic tree space, with a state that is written or not"""

    def __init__(self, kind, state, with_deser):
        self.kind, self.state, self.with_deser = kind, state, with_deser
        self.history, self.seen, self.deleted = [], None, 0

    def fn(self):
        d = dict(delete=self.delete)
        if self.kind == 3:
            d["get_child"] = self.child
        else:
            d.update(ask=self.askf if self.kind == 1 else self.ask, tell=self.tell, get_optima=self.optima, get_history=self.hist)
            if self.with_deser != 2:
                d["suggest"] = self.suggest
        if self.state is not None:
            d["serialize"] = self.ser
        if self.with_deser:
            d["deserialize"] = self.deser_tree if self.kind == 3 else self.deser
        return d

    def delete(self, t):
        self.deleted += 1

    def child(self, ts, parent, index):
        return dyn_child(ts, parent, index)

    def space(self, t):
        return t.tree_space if self.kind == 2 else t.configuration_space

    def ask(self, t, count):
        return (None, 1) if count is None else (self.space(t).samples(count), count)

    def askf(self, t, f, count):
        return self.ask(t, count)

    def tell(self, t, es):
        self.history += es

    def hist(self, t, f=None):
        return [e for e in self.history if f is None or hv(e.features) == hv(f)]

    def optima(self, t, f=None):
        return self.hist(t, f)[-1:]

    def suggest(self, t, f=None):
        return self.history[-1].configuration if self.history else self.space(t).sample()

    def ser(self, t, flag):
        return (ct.c_ubyte * len(self.state))(*self.state)

    def deser(self, t, history, optima, state):
        self.seen = None if state is None else bytes(state.contents)
        self.history = list(history)
        self.seen_optima = list(optima)

    def deser_tree(self, t, state):
        self.seen = None if state is None else bytes(state.contents)

    def drop(self):
        self.history = []
        self.seen_optima = None


def user_object(kind, b, data, name="user é"):
    if kind == 3:
        return ccs.TreeSpace.Dynamic(name=name, tree=ccs.Tree(arity=2, value=0), tree_space_data=data, **b.fn())
    os_ = ospace([])
    sp = mk_tsp([]) if kind == 2 else cspace([], False)
    kw = dict(name=name, objective_space=os_, tuner_data=data)
    kw["tree_space" if kind == 2 else "configuration_space"] = sp
    if kind == 1:
        kw["features_space"] = fspace([])
    return [ccs.Tuner, ccs.FeaturesTuner, ccs.TreeTuner][kind].UserDefined(**b.fn(), **kw)


def told_to(kind, t, n):
    f = ccs.Features(features_space=t.features_space, values=[True, "a"]) if kind == 1 else None
    for i in range(n):
        cfg = t.ask(f, 1)[0] if kind == 1 else t.ask(1)[0]
        kw = dict(objective_space=t.objective_space, configuration=cfg, values=[float(i), 1.0])
        if kind == 1:
            kw["features"] = f
        t.tell([[ccs.Evaluation, ccs.FeaturesEvaluation, ccs.TreeEvaluation][kind](**kw)])


@suite
def user_defined_objects():
    """user-defined tuners and dynamic tree spaces, with their data, state, history and user data"""
    b = Base()
    kind = choose(4, "kind")
    data = pick([None, 0, "", [], {}, [1]], "data")
    state = pick([None, b"", b"s", bytes(range(256))], "state")
    with_deser = choose(3, "deserialize")
    told = pick([0, 1, 2] if thorough() else [0, 2], "told") if kind < 3 else 0
    ud = pick([None, 0, "mine"] if thorough() else [None, 0], "user data")
    channel = pick(CHANNELS if thorough() else CHANNELS[:3], "channel")
    shard_point()
    if with_deser == 2 and kind == 3:
        prune()
    x, y = Tuned(kind, state, with_deser), Tuned(kind, state, with_deser)
    t = user_object(kind, x, data)
    cls = type(t)
    told_to(kind, t, told)
    if ud is not None:
        t.user_data = ud
    where = Where(channel)
    where.write(t)
    arg = "tree_space_data" if kind == 3 else "tuner_data"
    want = describe(t)
    for again in range(2):
        p = where.read(cls.deserialize, **{arg: data}, **y.fn())
        check(type(p) is cls, "a %s is read as a %s", cls.__name__, type(p).__name__)
        check(getattr(p, arg) is data, "data is %r instead of %r", getattr(p, arg), data)
        check(repr(p.user_data) == repr(ud), "user data is %r instead of %r", p.user_data, ud)
        if with_deser:
            check((y.seen or b"") == (state or b""), "the state is %r instead of %r", y.seen, state)
        d = differ(want, describe(p))
        check(d is None, "%s", d)
        # it works
        if kind < 3:
            check(len(y.history) == told, "%d evaluations instead of %d", len(y.history), told)
            if with_deser:
                check([hv(e) for e in y.seen_optima] == [hv(e) for e in y.history[-1:]], "other optima")
            told_to(kind, p, 1)
            h = p.history() if kind == 1 else p.history
            check(len(h) == told + 1, "%d evaluations after another one", len(h))
            h = None
        else:
            check(p.check_position([1, 0, 1]) and p.get_values_at_position([1, 0]) == t.get_values_at_position([1, 0]), "other values")
        check(y.deleted == 0, "deleted early")
        if again == 0:
            # what was read is itself written, dropped and read again
            if kind < 3:
                y.history = y.history[:told]
            else:
                want = describe(p)  # (children were made)
            where.write(p)
            p = None
            y.drop()
            check(y.deleted == 1, "deleted %d times", y.deleted)
            y = Tuned(kind, state, with_deser)
    mirror(p)
    where.done()
    p = None
    y.drop()
    check(y.deleted == 1, "deleted %d times", y.deleted)
    x.drop()
    t = None
    check(x.deleted == 1, "deleted %d times", x.deleted)
    obs(kind, repr(data), state and len(state), with_deser, told, repr(ud), channel)
    x = y = where = data = cls = None
    b.back("the object")


@suite
def arguments():
    """exactly one place to read from, at most one to write to; the binary format; nothing else"""
    b = Base()
    given = [flip("path"), flip("buffer"), flip("descriptor")]
    how = choose(3, "how")
    fmt = pick(["binary", None, "text", 0, ""], "format")
    shard_point()
    o = ccs.Rng()
    o.user_data = 3
    buf = o.serialize()
    w = Where("path")
    w.write(o)
    fd = os.open(w.path, os.O_RDWR)
    try:
        kw = {}
        if given[0]:
            kw["path"] = w.path
        if given[1]:
            kw["buffer"] = buf
        if given[2]:
            kw["file_descriptor"] = fd
        f = [ccs.deserialize, ccs.Object.deserialize, ccs.Rng.deserialize][how]
        ok = sum(given) == 1 and fmt == "binary"
        if fmt != "binary":
            kw["format"] = fmt
        try:
            p = f(**kw)
            check(ok, "read from %r", sorted(kw))
            same_object(o, p, "it")
        except ccs.Error as e:
            check(not ok, "not read from %r: %s", sorted(kw), e)
            check(e._code.value == ccs.Result.ERROR_INVALID_VALUE, "error %r", e._code)
        e = p = None
        if not given[1]:
            ok = sum(given) <= 1 and fmt == "binary"
            before = w.bytes()
            os.lseek(fd, 0, 0)
            try:
                r = o.serialize(**kw)
                check(ok, "written to %r", sorted(kw))
                check((r is None) == any(given), "%r is given", r)
                check(w.bytes() == before, "other bytes")
            except ccs.Error as e:
                check(not ok, "not written to %r: %s", sorted(kw), e)
                check(e._code.value == ccs.Result.ERROR_INVALID_VALUE, "error %r", e._code)
                check(w.bytes() == before, "refused, and written")
            e = r = None
    finally:
        os.close(fd)
        w.done()
    obs(given, how, fmt)
    o = buf = w = f = kw = None
    b.back("it")


@suite
def one_after_the_other():
    """several objects in one descriptor are read one after the other, those that fail included"""
    b = Base()
    keep = []
    n = tier_bound(2, 3)
    mk = [lambda: ccs.Rng(), lambda: P.Categorical(name="é", values=["a", 1, 2.5]), lambda: cspace([], False), lambda: ccs.Map(), lambda: mk_tsp_fixed(),
          lambda: with_data()]
    os_ = [pick(mk, "object")() for _ in range(n)]
    pipe = flip("pipe")
    shared = choose(3, "map")
    shard_point()
    hm = [None, ccs.Map(), ccs.Map()][shared]
    w = Where("path")
    if pipe:
        r, wr = os.pipe()
    else:
        wr = os.open(w.path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
    for o in os_:
        o.serialize(file_descriptor=wr)
    os.close(wr)
    if not pipe:
        r = os.open(w.path, os.O_RDONLY)
    try:
        for i, o in enumerate(os_):
            p = ccs.Object.deserialize(file_descriptor=r, **({} if hm is None else {"handle_map": hm}))
            same_object(o, p, "number %d" % i)
            if hm is not None:
                check(hv(hm[o]) == hv(p), "number %d is not in the map", i)
        try:
            p = ccs.Object.deserialize(file_descriptor=r)
            fail("%r is read from nothing", p)
        except ccs.Error as e:
            pass
        e = None
    finally:
        os.close(r)
    w.done()
    obs(n, pipe, shared, [type(o).__name__ for o in os_])
    o = p = hm = w = mk = None
    del os_[:], keep[:]
    b.back("they")


def mk_tsp_fixed():
    t = ccs.Tree(arity=1, value="root")
    t.set_child(0, ccs.Tree(arity=0, value=1))
    return ccs.TreeSpace.Static(name="s", tree=t)


def with_data():
    r = ccs.Rng()
    r.user_data = {"a": [1]}
    return r


@suite
def damaged():
    """bytes cut off or changed are refused or read as some object, and nothing is left behind"""
    b = Base()
    k = choose(4, "object")
    o = [lambda: with_data(), lambda: P.Ordinal(name="o", values=[1, "b"]), lambda: mk_tsp_fixed(), lambda: ccs.Map()][k]()
    buf = bytes(o.serialize())
    at = choose(len(buf) // 3 if not thorough() else len(buf), "where")
    what = choose(3, "what")
    shard_point()
    if not thorough():
        at = at * 3
    if what == 0:
        bad = buf[:at]
    else:
        bad = bytearray(buf)
        bad[at] ^= 1 if what == 1 else 0xff
        bad = bytes(bad)
    c = (ct.c_byte * max(len(bad), 1)).from_buffer_copy(bad + b"\0")
    c = (ct.c_byte * len(bad)).from_buffer(c)
    try:
        p = ccs.deserialize(buffer=c)
        check(what != 0, "read from %d of %d bytes", at, len(buf))
        try:
            mirror(p)
        except UnicodeDecodeError:
            pass
        obs("read")
    except ccs.Error as e:
        obs(e._code.value)
    p = e = c = o = None
    b.back("it")


if __name__ == "__main__":
    main()
