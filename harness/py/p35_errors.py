"""What goes wrong in the library or in the users' callbacks reaches the caller as an error, with its code, message and places."""
from p34_lifetimes import *
import pymc
import threading
del pymc.SUITES[:]

CODES = list(range(-30, 0))


class Odd(Exception):
    pass


class Mute(Exception):
    def __str__(self):
        raise ValueError("no text")


def exceptions():
    """(maker, code or None, text or None)"""
    E = ccs.Result.ERROR_EXTERNAL
    out = [(lambda: ValueError("message"), E, "message"), (lambda: ValueError(""), E, ""), (lambda: ValueError(), E, ""), (lambda: KeyError("k"), E, "'k'"),
           (lambda: AssertionError(), E, ""), (lambda: Odd("100% of %s, %d and %n"), E, "100% of %s, %d and %n"), (lambda: Odd("été\nnext line"), E, "été\nnext line"),
           (lambda: Odd("x" * 5000), E, "x" * 5000), (lambda: Odd(1, 2), E, "(1, 2)"), (lambda: Odd("%"), E, "%"), (lambda: Odd("end%"), E, "end%"),
           (lambda: Mute(), E, None), (lambda: Odd("nul\0inside"), E, None), (lambda: Odd("lone \ud800 surrogate"), E, None)]
    for c in ([-1, -2, -17, -27, -30] if not thorough() else CODES):
        out.append((lambda c=c: ccs.Error(ccs.Result(c)), c, None))
    return out


def caught(f, code, text, where, what):
    """f raises this error"""
    lib.ccs_clear_thread_error()
    try:
        x = f()
    except ccs.Error as e:
        check(e._code.value == code, "%s: error %r instead of %d", what, e._code, code)
        if text is not None:
            check(text in str(e), "%s: %r does not say %r", what, str(e)[:200], text[:100])
            check(e._stack is not None and e._stack.message == text, "%s: the message is %r", what, e._stack and e._stack.message[:100])
        if where is not None:
            check(e._stack is not None, "%s: no stack", what)
            fs = [x.func.decode() for x in e._stack.elems()]
            check(where in fs, "%s: %r is not among the places %r", what, where, fs)
            check(where in str(e), "%s: %r is not among the places", what, where)
        check(e._stack is None or e._stack.code.value == code, "%s: the stack says %r", what, e._stack and e._stack.code)
    except Exception as e:
        fail("%s: %s: %s instead of an error", what, type(e).__name__, e)
    else:
        fail("%s: %r instead of an error", what, x)
    check(ccs.get_thread_error() is None, "%s: the error is still there", what)
    if LOST:
        fail("%s: exception lost: %s", what, LOST[0])


def tuner(kind, cb):
    """a user-defined tuner whose callbacks call cb(name) first"""
    os_ = ospace([])
    sp = mk_tsp([]) if kind == 2 else cspace([], False)
    c = Callbacks(sp)
    kw = dict(name="t", objective_space=os_)
    kw["tree_space" if kind == 2 else "configuration_space"] = sp
    fs = None
    if kind == 1:
        fs = fspace([])
        kw["features_space"] = fs

    def ask_here(t, *a):
        cb("ask", *a)
        return c.ask(t, a[-1])

    def tell_here(t, es):
        cb("tell", es)
        return c.tell(t, es)

    def optima_here(t, *a):
        cb("get_optima")
        return c.get_optima(t)

    def history_here(t, *a):
        cb("get_history")
        return c.get_history(t)

    def suggest_here(t, *a):
        cb("suggest")
        return c.suggest(t)

    def serialize_here(t, flag):
        cb("serialize")
        return ct.create_string_buffer(b"state")

    def deserialize_here(t, h, o, state):
        cb("deserialize")
        check(ct.cast(state, ct.c_char_p).value == b"state", "state is %r", state)
    fn = dict(ask=ask_here, tell=tell_here, get_optima=optima_here, get_history=history_here, suggest=suggest_here, serialize=serialize_here, deserialize=deserialize_here)
    cls = [ccs.Tuner, ccs.FeaturesTuner, ccs.TreeTuner][kind].UserDefined
    t = cls(**fn, **kw)
    f = ccs.Features(features_space=fs, values=[True, "a"]) if kind == 1 else None
    a = [f] if kind == 1 else []

    def ev(cfg):
        if kind == 1:
            return ccs.FeaturesEvaluation(objective_space=os_, configuration=cfg, features=f, values=[1.0, 2.0])
        return (ccs.TreeEvaluation if kind == 2 else ccs.Evaluation)(objective_space=os_, configuration=cfg, values=[1.0, 2.0])
    use = dict(ask=lambda: t.ask(*a, 2), tell=lambda: t.tell([ev(sp.sample())]), get_optima=lambda: t.optima(*a) if kind == 1 else t.optima,
               get_history=lambda: t.history(*a) if kind == 1 else t.history, suggest=lambda: t.suggest(*a) if kind == 1 else t.suggest,
               serialize=lambda: t.serialize(), deserialize=lambda: cls.deserialize(buffer=t.serialize(), delete=None, **fn))
    return t, use


NAMES = ["ask", "tell", "get_optima", "get_history", "suggest", "serialize", "deserialize"]
HERE = dict(ask="ask_here", tell="tell_here", get_optima="optima_here", get_history="history_here", suggest="suggest_here", serialize="serialize_here",
            deserialize="deserialize_here")


@suite
def tuner_callbacks():
    """every callback of every user-defined tuner, raising everything, at its first or a later call"""
    b = Base()
    kind = choose(3, "kind")
    which = pick(NAMES, "callback")
    mk, code, text = pick(exceptions(), "exception")
    after = choose(2, "calls before")
    shard_point()
    left = [None]

    def cb(name, *a):
        if name == which and left[0] is not None:
            if left[0] == 0:
                raise mk()
            left[0] -= 1
    t, use = tuner(kind, cb)
    use["tell"]()
    if after:
        use[which]()
    left[0] = 0
    caught(use[which], code, text, HERE[which] if text is not None else None, which)
    caught(use[which], code, text, HERE[which] if text is not None else None, which + " again")
    # and it goes on
    left[0] = None
    for n in NAMES:
        x = use[n]()
        if n == "ask":
            check(len(x) == 2, "asked for 2, got %d", len(x))
        elif n == "get_history":
            check(len(x) >= 1, "history is empty")
        x = None
    obs(kind, which, code)
    t = use = cb = x = None
    b.back("the tuner")


@suite
def library_errors_in_callbacks():
    """what a callback is refused by the library reaches the caller of the callback"""
    b = Base()
    kind = choose(3, "kind")
    which = pick(NAMES, "callback")
    m = cspace([], False)
    f, code = pick([(lambda: m.parameter(99), None), (lambda: D.Uniform.Float(lower=1.0, upper=0.0), None), (lambda: P.Categorical(name="n", values=[]), None),
                    (lambda: ccs.deserialize(path="/nonexistent/file"), None)], "what")
    shard_point()
    on = [False]
    try:
        f()
        fail("harness: not refused")
    except ccs.Error as e:
        code, text, places = e._code.value, e._stack.message, [(x.func, x.line) for x in e._stack.elems()]

    def cb(name, *a):
        if name == which and on[0]:
            f()
    t, use = tuner(kind, cb)
    use["tell"]()
    on[0] = True
    caught(use[which], code, text, HERE[which], which)
    try:
        use[which]()
    except ccs.Error as e:
        got = [(x.func, x.line) for x in e._stack.elems()]
        check(got[:len(places)] == places, "the places of the first error are lost: %r, had %r", got, places)
    e = None
    on[0] = False
    for n in NAMES:
        use[n]()
    t = use = cb = m = f = None
    obs(kind, which, code)
    b.back("the tuner")


@suite
def answers_of_callbacks():
    """callbacks that answer with something else than they should"""
    b = Base()
    kind = choose(4, "kind")
    bad = pick([None, 1, "text", [], [None], [1, 2], (None, 1), ("x", 2), ([None, None], 2), ([], 5), ((), ())], "answer")
    which = pick(["ask", "get_optima", "get_history", "suggest", "serialize"], "callback") if kind < 3 else pick(["get_child", "serialize"], "callback")
    shard_point()
    on = [True]
    if kind == 3:
        def child(ts, p, i):
            return bad if on[0] else dyn_child(ts, p, i)

        def ser(ts, flag):
            return bad if on[0] else ct.create_string_buffer(b"state")
        fn = dict(get_child=child) if which == "get_child" else dict(get_child=dyn_child, serialize=ser)
        t = ccs.TreeSpace.Dynamic(name="d", tree=ccs.Tree(arity=2, value=0), **fn)
        use = t.serialize if which == "serialize" else lambda: ccs.TreeConfiguration(tree_space=t, position=[0, 1]).values
        child = ser = fn = None
    else:
        os_ = ospace([])
        sp = mk_tsp([]) if kind == 2 else cspace([], False)
        c = Callbacks(sp)
        kw = dict(name="t", objective_space=os_)
        kw["tree_space" if kind == 2 else "configuration_space"] = sp
        if kind == 1:
            kw["features_space"] = fspace([])
        fn = dict(ask=c.askf if kind == 1 else c.ask, tell=c.tell, get_optima=c.get_optima, get_history=c.get_history, suggest=c.suggest)
        good = fn.get(which, lambda *a: ct.create_string_buffer(b"state"))
        fn[which] = lambda *a: bad if on[0] else good(*a)
        t = [ccs.Tuner, ccs.FeaturesTuner, ccs.TreeTuner][kind].UserDefined(**fn, **kw)
        f = ccs.Features(features_space=t.features_space, values=[True, "a"]) if kind == 1 else None
        a = [f] if kind == 1 else []
        use = dict(ask=lambda: t.ask(*a, 2), get_optima=lambda: t.optima(*a) if kind == 1 else t.optima,
                   get_history=lambda: t.history(*a) if kind == 1 else t.history, suggest=lambda: t.suggest(*a) if kind == 1 else t.suggest,
                   serialize=lambda: t.serialize())[which]
        fn = kw = os_ = sp = c = None
    fine = which in ("get_optima", "get_history") and not bad and (bad == [] or kind == 1 and which == "get_history" and bad is None)
    fine = fine or which == "ask" and bad == ([], 5)
    try:
        x = use()
        if not fine:
            # answers that can be taken for good ones are of no harm if they are what was answered
            check(isinstance(x, list) and [hv(y) for y in x] == [hv(y) for y in bad], "%s answers %r, and %r is given", which, bad, x)
    except ccs.Error as e:
        obs(e._code.value)
        check(ccs.get_thread_error() is None, "the error is still there")
    except Exception as e:
        fail("%s answers %r: %s: %s", which, bad, type(e).__name__, e)
    x = e = None
    if LOST:
        fail("exception lost: %s", LOST[0])
    on[0] = False
    use()
    t = use = f = a = good = None
    bad = None
    obs(kind, which)
    b.back("the tuner")


@suite
def tree_callbacks():
    b = Base()
    which = pick(["get_child", "serialize", "deserialize"], "callback")
    mk, code, text = pick(exceptions(), "exception")
    at = choose(3, "which child")
    shard_point()
    on = [False]

    def child_here(ts, parent, index):
        if on[0] and which == "get_child" and parent.depth == at:
            raise mk()
        return ccs.Tree(arity=2 if parent.depth < 3 else 0, value=index)

    def serialize_here(ts, flag):
        if on[0] and which == "serialize":
            raise mk()
        return ct.create_string_buffer(b"state")

    def deserialize_here(ts, state):
        if on[0] and which == "deserialize":
            raise mk()
        check(ct.cast(state, ct.c_char_p).value == b"state", "state is %r", state)
    t = ccs.TreeSpace.Dynamic(name="d", tree=ccs.Tree(arity=2, value=0), get_child=child_here, serialize=serialize_here, deserialize=deserialize_here)
    cfg = None
    use = dict(get_child=[lambda: ccs.TreeConfiguration(tree_space=t, position=[1, 1, 1]).check(), lambda: ccs.TreeConfiguration(tree_space=t, position=[1, 1, 1]).values,
                          lambda: ccs.TreeConfiguration(tree_space=t, position=[1, 1, 1]).node, lambda: t.check_position([1, 1, 1]), lambda: t.get_node_at_position([1, 1, 1]),
                          lambda: t.get_values_at_position([1, 1, 1])],
               serialize=[lambda: t.serialize()],
               deserialize=[lambda: ccs.TreeSpace.Dynamic.deserialize(buffer=t.serialize(), delete=None, get_child=child_here, serialize=serialize_here,
                                                                    deserialize=deserialize_here)])[which]
    here = dict(get_child="child_here").get(which, which + "_here")
    on[0] = True
    for u in use:
        caught(u, code, text, here if text is not None else None, which)
    on[0] = False
    for u in use:
        u()
    use = u = t = child_here = serialize_here = deserialize_here = None
    obs(which, code, at)
    b.back("the tree space")


@suite
def user_data_callbacks():
    """callbacks that write and read user data"""
    b = Base()
    which = pick(["write", "read", "write json", "read json"], "callback")
    mk, code, text = pick(exceptions(), "exception")
    shard_point()

    def boom_here(*a):
        raise mk()
    o = ccs.Rng()
    if which == "write":
        o.user_data = [1]
        caught(lambda: o.serialize(callback=boom_here), code, text, "boom_here" if text is not None else None, which)
        caught(lambda: o.serialize(callback=boom_here, callback_data=5), code, text, "boom_here" if text is not None else None, which)
    elif which == "read":
        o.user_data = [1]
        s = o.serialize()
        caught(lambda: ccs.deserialize(buffer=s, callback=boom_here), code, text, "boom_here" if text is not None else None, which)
    elif which == "write json":
        o.user_data = object()
        try:
            o.serialize()
            fail("user data that cannot be written is written")
        except ccs.Error as e:
            check(e._code.value == ccs.Result.ERROR_EXTERNAL, "error %r", e._code)
        e = None
    else:
        o.user_data = [1]
        s = o.serialize(callback=lambda obj, d, f: ct.create_string_buffer(b"no json"))
        try:
            ccs.deserialize(buffer=s)
            fail("user data that cannot be read is read")
        except ccs.Error as e:
            check(e._code.value == ccs.Result.ERROR_EXTERNAL, "error %r", e._code)
        e = None
    o.user_data = [1, {"a": None}]
    q = ccs.deserialize(buffer=o.serialize())
    check(q.user_data == [1, {"a": None}], "user data is %r", q.user_data)
    o = q = s = boom_here = None
    obs(which, code)
    b.back("the object")


@suite
def errors_of_the_library():
    """the error raised is the one the library left, which it then has no more"""
    b = Base()
    cs = cspace([], False)
    r = ccs.Rng()
    f = pick([lambda: D.Uniform.Float(lower=2.0, upper=1.0), lambda: D.Roulette(areas=[-1.0]), lambda: P.Categorical(name="n", values=[]), lambda: cs.parameter(99),
              lambda: cs.parameter_by_name("nothing"), lambda: cs.set_condition("nothing", X.Literal(value=True)), lambda: ccs.Map().__delitem__("nothing"),
              lambda: ccs.Configuration(configuration_space=r), lambda: ccs.deserialize(path="/nonexistent/file"), lambda: ccs.deserialize(buffer=(ct.c_byte * 3)()),
              lambda: ccs.Tree(arity=1, value=1).set_child(5, ccs.Tree(arity=0, value=0)), lambda: X.Add(left=1, right="x").eval(),
              lambda: cs.default_configuration.value(77), lambda: ccs.Object.from_handle(ct.c_void_p(None))], "call")
    before = choose(3, "before")
    shard_point()
    if before == 1:
        # an older error left behind by somebody
        raw("ccs_rng_get", None, None)
    elif before == 2:
        ccs.set_thread_error(ccs.ErrorStack(error=ccs.Result.ERROR_INVALID_GRAPH, message="older"))
    try:
        f()
        fail("not refused")
    except ccs.Error as e:
        check(e._code.value < 0, "code %r", e._code)
        s = e._stack
        check(s is not None, "no stack")
        if before == 0:
            check(s.code.value == e._code.value, "the stack says %r, the error %r", s.code, e._code)
        text = ct.c_char_p()
        rok("ccs_error_stack_get_message", hv(s), ct.byref(text))
        check(text.value.decode() == s.message and s.message in str(e), "the message %r is not in %r", text.value, str(e))
        n, p = ct.c_size_t(), ct.c_void_p()
        rok("ccs_error_stack_get_elems", hv(s), ct.byref(n), ct.byref(p))
        els = s.elems()
        check(len(els) == n.value, "%d places instead of %d", len(els), n.value)
        if before == 0:
            check(els and els[-1].func.startswith(b"ccs_"), "the last place is %r", els and els[-1].func)
        for x in els:
            check("line %d, in %s" % (x.line, x.func.decode()) in str(e), "%r is not said", x.func)
        obs(e._code.value, s.message, [x.func for x in els])
        check(rrefs(hv(s)) == 1, "%d references to the stack", rrefs(hv(s)))
    check(ccs.get_thread_error() is None, "the error is still there")
    e = s = els = x = cs = r = f = None
    b.back("the error")


@suite
def threads():
    """each thread has its own error: all interleavings of two threads, one call at a time"""
    b = Base()
    n = tier_bound(3, 4)
    todo = [[], []]
    order = []
    for w in range(2):
        for i in range(n if w == 0 else 2):
            todo[w].append(choose(4, "call"))
    left = [len(todo[0]), len(todo[1])]
    shard_point()
    while left[0] or left[1]:
        w = choose(2, "thread") if left[0] and left[1] else (0 if left[0] else 1)
        order.append(w)
        left[w] -= 1
    model = [None, None]
    out = []

    def call(w, k, i):
        """one call of thread w; gives what is wrong with it"""
        if k == 0:
            raw("ccs_rng_get", None, None)
            model[w] = -1
        elif k == 1:
            s = ccs.ErrorStack(error=ccs.Result.ERROR_INVALID_NAME, message="of %d" % w)
            ccs.set_thread_error(s)
            model[w] = -9
        elif k == 2:
            ccs.clear_thread_error()
            model[w] = None
        else:
            s = ccs.get_thread_error()
            got = None if s is None else s.code.value
            if got != model[w]:
                return "thread %d has error %r instead of %r" % (w, got, model[w])
            if got == -9 and s.message != "of %d" % w:
                return "thread %d has the message %r" % (w, s.message)
            model[w] = None
    # thread 0 is this one; thread 1 does one call when told
    go, done = threading.Semaphore(0), threading.Semaphore(0)
    box = []

    def other():
        while True:
            go.acquire()
            k = box.pop()
            if k is None:
                lib.ccs_clear_thread_error()
                done.release()
                return
            out.append(call(1, *k))
            done.release()
    th = threading.Thread(target=other)
    th.start()
    pos = [0, 0]
    for i, w in enumerate(order):
        k = todo[w][pos[w]]
        pos[w] += 1
        if w == 0:
            out.append(call(0, k, i))
        else:
            box.append((k, i))
            go.release()
            done.acquire()
    box.append(None)
    go.release()
    done.acquire()
    th.join()
    for o in out:
        check(o is None, "%s", o)
    obs(todo, order)
    th = call = other = None
    b.back("the errors")


@suite
def stacks():
    """error stacks made by users: codes, messages and places of all kinds, kept however short-lived the strings were"""
    b = Base()
    code = pick(CODES if thorough() else [-1, -9, -27, -30], "code")
    msg = pick([None, "", "m", "100% %s %n", "é" * 3000, "a\nb"], "message")
    n = choose(tier_bound(4, 6), "places")
    shard_point()
    s = ccs.ErrorStack(error=ccs.Result(code), message=msg)
    names = []
    for i in range(n):
        f, g = "file é %d" % i * (1 + 200 * (i & 1)), "func%%s %d" % i
        s.push(f, i * 1000 - 1, g)
        names.append((f, i * 1000 - 1, g))
        f = g = None
    junk = [bytes([65 + i]) * 60 for i in range(50)]
    check(s.code.value == code, "code %r", s.code)
    want = msg
    if msg is None:
        want = s.message
    check(s.message == want, "message %r instead of %r", s.message[:100], want)
    got = [(e.file.decode(), e.line, e.func.decode()) for e in s.elems()]
    check(got == names, "places %r instead of %r", got, names)
    ccs.set_thread_error(s)
    h = hv(s)
    s = None
    t = ccs.get_thread_error()
    check(hv(t) == h and t.code.value == code and t.message == want, "another error is given back")
    check([(e.file.decode(), e.line, e.func.decode()) for e in t.elems()] == names, "other places are given back")
    check(rrefs(h) == 1, "%d references", rrefs(h))
    t = junk = None
    obs(code, msg, n)
    b.back("the stack")



class Inject:
    """the calls of the library made by the bindings, the at-th of which is refused (without reaching the library)"""
    NEVER = ("ccs_release_object", "ccs_retain_object", "ccs_get_thread_error", "ccs_set_thread_error", "ccs_clear_thread_error", "ccs_create_error_stack", "ccs_error_stack_get_code",
             "ccs_error_stack_get_message", "ccs_error_stack_get_elems", "ccs_error_stack_push", "ccs_get_result_name", "ccs_fini")

    def __init__(self, at=None, code=-17):
        self.at, self.code, self.n, self.name = at, code, 0, None
        self.old = []

    def __enter__(self):
        for mn, m in list(sys.modules.items()):
            if mn == "cconfigspace" or mn.startswith("cconfigspace."):
                for k, f in list(vars(m).items()):
                    if isinstance(f, ct._CFuncPtr) and f.restype is ccs.Result and getattr(f, "__name__", "ccs_fini") not in self.NEVER:
                        self.old.append((m, k, f))
                        setattr(m, k, self.wrap(f))
        return self

    def wrap(self, f):
        def g(*a):
            i = self.n
            self.n += 1
            if i == self.at:
                self.name = f.__name__
                lib.ccs_create_thread_error(ct.c_int(self.code), b"not now")
                return ccs.Result(self.code)
            return f(*a)
        return g

    def __exit__(self, *a):
        for m, k, f in self.old:
            setattr(m, k, f)
        self.old = []


def not_now(f, at, what, code=-17):
    """f with its at-th call refused; gives the name of this call (None: there are fewer)"""
    lib.ccs_clear_thread_error()
    got = None
    with Inject(at, code) as j:
        try:
            got = f()
            res = "no error"
        except ccs.Error as e:
            res = None
            if e._code.value != code:
                res = "error %r" % e._code
            elif e._stack is None or e._stack.message != "not now":
                res = "an error that says %r" % (e._stack and e._stack.message)
            e.__traceback__ = None
            e = None
        except Exception as e:
            res = "%s: %s" % (type(e).__name__, str(e)[:200])
            e.__traceback__ = None
            e = None
    got = None
    if j.name is None:
        return None
    step(what, j.name)
    check(res is None, "%s: %s was refused, which gave %s", what, j.name, res)
    check(ccs.get_thread_error() is None, "%s: %s was refused, and the error is still there", what, j.name)
    return j.name


def arguments_of(o):
    """what can be asked of this object: (text, call on an object equal to it)"""
    out = []
    t = type(o)
    for n in sorted(set(dir(t))):
        if n.startswith("_"):
            continue
        a = getattr(t, n, None)
        if isinstance(a, property):
            out.append((n, lambda x, n=n: getattr(x, n)))
        elif callable(a) and not isinstance(a, type) and n in ("sample", "samples", "check", "suggest", "history", "optima", "elems", "serialize", "ask", "eval"):
            k = {"sample": [(), (ccs.Rng(),)], "samples": [(2,), (ccs.Rng(), 2)], "ask": [(2,)]}.get(n, [()])
            for arg in k:
                out.append((n + repr(arg), lambda x, n=n, arg=arg: getattr(x, n)(*arg)))
    f = lambda text, c: out.append((text, c))
    if isinstance(o, ccs.Context):
        ps = o.parameters
        if ps:
            p = ps[-1]
            nm = p.name
            f("parameter", lambda x: x.parameter(0))
            f("parameter by name", lambda x: x.parameter_by_name(nm))
            f("parameter index", lambda x: x.parameter_index(p))
            f("parameter index by name", lambda x: x.parameter_index_by_name(nm))
            f("validate by position", lambda x: x.validate_value(0, ps[0].default_value))
    if isinstance(o, ccs.ConfigurationSpace):
        d = o.default_configuration
        f("check", lambda x: x.check(d))
        f("check values", lambda x: x.check_values(d.values))
        if o.num_parameters:
            f("condition", lambda x: x.condition(0))
            f("distribution", lambda x: x.get_parameter_distribution(0))
        if o.num_forbidden_clauses:
            f("clause", lambda x: x.forbidden_clause(0))
    if isinstance(o, ccs.ObjectiveSpace) and o.objectives:
        f("objective", lambda x: x.get_objective(0))
    if isinstance(o, (ccs.Binding, ccs.TreeConfiguration)):
        for w in ("cmp", "__lt__", "__le__", "__gt__", "__ge__", "__eq__", "__ne__"):
            f(w, lambda x, w=w: getattr(x, w)(o))
    if isinstance(o, ccs.Binding):
        vs = o.values
        f("set values", lambda x: x.set_values(vs))
        if vs:
            ps = o.context.parameters
            for k in (0, ps[0], ps[0].name):
                f("value by %s" % type(k).__name__, lambda x, k=k: x.value(k))
                f("set value by %s" % type(k).__name__, lambda x, k=k: x.set_value(k, vs[0]))
    if isinstance(o, (ccs.Evaluation, ccs.FeaturesEvaluation, ccs.TreeEvaluation)):
        f("compare", lambda x: x.compare(o))
        f("set the result", lambda x: setattr(x, "result", o.result))
    if isinstance(o, ccs.Parameter) and not isinstance(o, P.String):
        dv = o.default_value
        f("check value", lambda x: x.check_value(dv))
        f("check values", lambda x: x.check_values([dv, dv]))
        f("sample with", lambda x: x.sample(distribution=o.default_distribution, rng=ccs.Rng()))
        if isinstance(o, P.Ordinal):
            f("compare", lambda x: x.compare(dv, dv))
    if isinstance(o, ccs.Distribution) and o.dimension == 1:
        iv = o.bounds
        f("oversampling", lambda x: x.is_oversampling(iv))
    if isinstance(o, ccs.Map):
        f("get", lambda x: x["a"])
        f("set", lambda x: x.__setitem__("a", 1))
        f("has", lambda x: x.has_key("a"))
        f("del", lambda x: x.__delitem__("a"))
    if isinstance(o, ccs.Tree):
        f("weight", lambda x: setattr(x, "weight", o.weight))
        f("bias", lambda x: setattr(x, "bias", o.bias))
        f("valid position", lambda x: x.position_is_valid([]))
        f("values at", lambda x: x.get_values_at_position([]))
        f("node at", lambda x: x.get_node_at_position([]))
        if o.arity:
            f("child", lambda x: x.get_child(0))
    if isinstance(o, ccs.TreeSpace):
        f("node at", lambda x: x.get_node_at_position([]))
        f("values at", lambda x: x.get_values_at_position([]))
        f("check position", lambda x: x.check_position([]))
        c = o.sample()
        f("check configuration", lambda x: x.check_configuration(c))
    if isinstance(o, (ccs.ConfigurationSpace, ccs.TreeSpace)):
        r = ccs.Rng()
        f("set generator", lambda x: setattr(x, "rng", r))
    if isinstance(o, (ccs.Tuner, ccs.TreeTuner)):
        f("tell", lambda x: x.tell(o.history[:1]))
    if isinstance(o, ccs.FeaturesTuner):
        h = o.history()
        f("tell", lambda x: x.tell(h[:1]))
        if h:
            fe = h[0].features
            f("ask", lambda x: x.ask(fe, 2))
            f("suggest", lambda x: x.suggest(fe))
            f("history", lambda x: x.history(fe))
            f("optima", lambda x: x.optima(fe))
            f("history size", lambda x: x.history_size(fe))
            f("number of optima", lambda x: x.num_optima(fe))
    f("user data", lambda x: setattr(x, "user_data", [1]))
    return out


@suite
def every_call_refused():
    """whatever call of the library is refused while an object is made or asked something, the error says so"""
    keep = []
    start = pymc.S.pos
    o = make(keep)
    end = pymc.S.pos
    shard_point()
    kind = type(o).__name__
    at = 0
    while at < 400:
        pymc.S.pos = start
        again = []
        try:
            n = not_now(lambda: make(again), at, "making a " + kind)
        finally:
            pymc.S.pos = end
        again = None
        if n is None:
            break
        obs(kind, n)
        at += 1
    for text, call in arguments_of(o):
        at = 0
        while at < 100:
            x = ccs.Object.from_handle(o.handle)
            def ask():
                return call(x)
            n = not_now(ask, at, "%s of a %s" % (text, kind))
            if n is None:
                break
            obs(text, n)
            # and then it works
            if isinstance(getattr(type(o), text, None), property):
                try:
                    one = ask()
                except Exception as e:
                    one = type(e).__name__
                    e.__traceback__ = None
                try:
                    two = call(ccs.Object.from_handle(o.handle))
                except Exception as e:
                    two = type(e).__name__
                    e.__traceback__ = None
                check(type(one) is type(two), "%s of a %s, refused once, then gives %r, and for another one %r", text, kind, one, two)
            at += 1


if __name__ == "__main__":
    main()
