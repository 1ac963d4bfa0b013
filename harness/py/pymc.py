"""Exhaustive enumerator for the Python bindings: the counterpart of mc.cpp. A suite is a function that draws every
decision from choose(); all choice sequences are executed once, split over --nshards workers. The current choices
and any failure message are kept in a shared file in mc.cpp's layout, so that run.py drives both kinds of harness."""
import ctypes as ct
import gc
import json
import mmap
import os
import struct
import sys
import time
import traceback
import zlib

HDR = struct.Struct("=Qiii")
MAXC = 4096
SUITES = []


class Skip(BaseException):
    pass


class Violation(BaseException):
    pass


class _S:
    tape, lim, pos = [], [], 0
    sharded = False
    shard, nshards, seen = 0, 1, 0
    tier = "quick"
    verbose = False
    steps = states = 0
    h = 0
    shm = None
    suite_index = 0
    replay = None


S = _S()


def suite(f):
    SUITES.append(f)
    return f


def thorough():
    return S.tier == "thorough"


def tier_bound(q, t):
    return t if thorough() else q


def choose(n, label=""):
    if n <= 0:
        raise Violation("harness: choose(%d) %s" % (n, label))
    p = S.pos
    if p < len(S.tape):
        v = S.tape[p]
        if p < len(S.lim):
            if S.lim[p] != n:
                raise Violation("harness is not deterministic: %s had %d choices, now %d" % (label, S.lim[p], n))
        else:
            S.lim.append(n)
        if v >= n:
            raise Violation("harness: choice out of range")
    else:
        v = 0
        S.tape.append(0)
        S.lim.append(n)
        S.states += 1
    S.pos += 1
    if p < MAXC:
        m = S.shm
        struct.pack_into("=H", m, HDR.size + 2 * p, v)
        struct.pack_into("=i", m, 12, p + 1)
    if S.verbose:
        print("  choose %s: %d of %d" % (label, v, n), file=sys.stderr)
    return v


def pick(seq, label=""):
    v = seq[choose(len(seq), label)]
    if S.verbose:
        print("    = %s" % str(v)[:200], file=sys.stderr)
    return v


def flip(label=""):
    return bool(choose(2, label))


def prune():
    raise Skip()


def shard_point():
    """executions are dealt out to the workers by the choices made before the first shard point"""
    if S.sharded or S.replay is not None:
        return
    S.sharded = True
    k = zlib.crc32(bytes(b for c in S.tape[:S.pos] for b in (c & 255, c >> 8)))
    if k % S.nshards != S.shard:
        # abandon the whole subtree below this point
        del S.tape[S.pos:]
        del S.lim[S.pos:]
        raise Skip()


def step(*a):
    S.steps += 1
    if S.verbose:
        print("  step", *[str(x)[:300] for x in a], file=sys.stderr)


def obs(*a):
    S.h = zlib.crc32(repr(a).encode("utf8", "backslashreplace"), S.h)


def fail(fmt, *a):
    raise Violation(fmt % a if a else fmt)


def check(cond, fmt, *a):
    if not cond:
        fail(fmt, *a)


def _phase(p):
    struct.pack_into("=i", S.shm, 16, p)


def _record(msg):
    if "PYMC_ALL" in os.environ:  # for development: list the distinct failures
        k = msg.strip()[:400]
        if k not in ALL:
            ALL.add(k)
            print("%s:%s\n%s\n" % (SUITES[struct.unpack_from("=i", S.shm, 8)[0]].__name__, ",".join(map(str, S.tape[:S.pos])), msg), flush=True)
        return
    b = msg.encode("utf8", "replace")[:4000]
    S.shm[HDR.size + 2 * MAXC:HDR.size + 2 * MAXC + len(b) + 1] = b + b"\0"
    _phase(2)
    sys.stderr.write("VIOLATED: " + msg + "\n")
    sys.stderr.flush()
    os._exit(3)


def _run_once(f):
    S.pos = 0
    S.sharded = False
    S.h = 0
    del LOST[:]
    struct.pack_into("=i", S.shm, 12, 0)
    _phase(1)
    done = True
    try:
        f()
    except Skip:
        done = False
    except Violation as e:
        if str(e).startswith("harness") and "PYMC_ALL" not in os.environ:
            sys.stderr.write(str(e) + "\n")
            sys.stderr.flush()
            os._exit(9)
        _record(str(e))
    except BaseException as e:  # an exception the suite did not expect from the bindings
        _record("unexpected %s: %s\n%s" % (type(e).__name__, str(e)[:600], "".join(traceback.format_tb(e.__traceback__)[-6:])))
    _phase(0)
    prog = struct.unpack_from("=Q", S.shm, 0)[0] + 1
    struct.pack_into("=Q", S.shm, 0, prog)
    return done


def _unraisable(u):
    """exceptions lost in finalizers and C callbacks are part of what the suites judge"""
    LOST.append("%s: %s in %r" % (type(u.exc_value).__name__, u.exc_value, u.object))


LOST = []
ALL = set()
sys.unraisablehook = _unraisable


def main():
    a = sys.argv[1:]
    o = {}
    i = 0
    while i < len(a):
        if a[i] == "-v":
            S.verbose = True
            i += 1
        elif a[i] == "--list":
            print("\n".join(f.__name__ for f in SUITES))
            return 0
        else:
            o[a[i]] = a[i + 1]
            i += 2
    S.tier = o.get("--tier", "quick")
    size = HDR.size + 2 * MAXC + 4096 + 64
    if "--shm" in o:
        fd = os.open(o["--shm"], os.O_RDWR | os.O_CREAT)
        os.ftruncate(fd, size)
        S.shm = mmap.mmap(fd, size)
        os.close(fd)
    else:
        S.shm = mmap.mmap(-1, size)
    gc.disable()
    if "--replay" in o:
        name, cs = o["--replay"].split(":", 1)
        f = [x for x in SUITES if x.__name__ == name][0]
        S.tape = [int(c) for c in cs.split(",") if c]
        S.replay = True
        S.lim = []
        _run_once(f)
        print("held")
        sys.stdout.flush()
        os._exit(0)
    S.shard, S.nshards = int(o.get("--shard", 0)), int(o.get("--nshards", 1))
    out = []
    t0 = time.time()
    for si, f in enumerate(SUITES):
        if "--suite" in o and f.__name__ not in o["--suite"].split(","):
            continue
        struct.pack_into("=i", S.shm, 8, si)
        S.tape, S.lim, S.steps, S.states = [], [], 0, 0
        n, hs, mx, sample, runs = 0, set(), 0, "", 0
        while True:
            done = _run_once(f)
            if done and not S.sharded and S.nshards > 1 and S.shard != 0:
                done = False  # an execution without a shard point belongs to worker 0
            if done:
                n += 1
                hs.add(S.h)
                mx = max(mx, S.pos)
                if n <= 5:
                    sample = ",".join(map(str, S.tape[:S.pos]))
            # next choice sequence
            del S.tape[S.pos:]
            del S.lim[S.pos:]
            while S.tape and S.tape[-1] + 1 >= S.lim[-1]:
                S.tape.pop()
                S.lim.pop()
            if not S.tape:
                break
            S.tape[-1] += 1
            runs += 1
            if runs % 256 == 0:
                gc.collect()
        out.append(dict(name=f.__name__, executions=n, states=S.states, transitions=S.steps, outcomes=len(hs),
                        nontrivial=len(hs), max_choices=mx, sample="%s:%s" % (f.__name__, sample)))
    if "--out" in o:
        with open(o["--out"], "w") as fd:
            json.dump(dict(suites=out, wall=time.time() - t0), fd)
    else:
        print(json.dumps(out, indent=1))
    _phase(3)
    sys.stdout.flush()
    os._exit(0)


# ---- the library, called directly, as the oracle for what the bindings report --------------------------------------
lib = ct.CDLL(os.environ["LIBCCONFIGSPACE_SO_"])


class RVal(ct.Union):
    _fields_ = [("f", ct.c_double), ("i", ct.c_int64), ("s", ct.c_void_p), ("o", ct.c_void_p)]


class RDatum(ct.Structure):
    _fields_ = [("v", RVal), ("t", ct.c_int32), ("flags", ct.c_uint32)]


class RFix(ct.Structure):  # a datum passed by value: ctypes cannot pass unions
    _fields_ = [("v", ct.c_int64), ("t", ct.c_int32), ("flags", ct.c_uint32)]


NONE, INT, FLOAT, BOOL, STRING, INACTIVE, OBJECT = range(7)


def dval(d):
    """(type, value) of a datum of the library"""
    if d.t == INT:
        return (INT, d.v.i)
    if d.t == FLOAT:
        return (FLOAT, struct.pack("=d", d.v.f))
    if d.t == BOOL:
        return (BOOL, bool(d.v.i))
    if d.t == STRING:
        return (STRING, ct.string_at(d.v.s))
    if d.t == OBJECT:
        return (OBJECT, d.v.o, d.flags & 4)
    return (d.t,)


def hv(o):
    """address behind a binding object or handle"""
    h = getattr(o, "handle", o)
    return getattr(h, "value", h)


def raw(name, *args):
    """call a library function directly; integers are passed as 64 bit words, floats as doubles"""
    f = getattr(lib, name)
    conv = []
    for x in args:
        if isinstance(x, float):
            conv.append(ct.c_double(x))
        elif isinstance(x, int):
            conv.append(ct.c_int64(x))
        elif isinstance(x, RDatum):
            conv.append(RFix(x.v.i, x.t, x.flags))
        elif x is None:
            conv.append(ct.c_void_p(None))
        else:
            conv.append(x)
    return f(*conv)


def rok(name, *args):
    r = raw(name, *args)
    if r < 0:
        raise Violation("harness: %s failed with %d" % (name, r))
    return r


def rget(name, h, typ, *args):
    v = typ()
    rok(name, hv(h), *args, ct.byref(v))
    return v.value if hasattr(v, "value") and not isinstance(v, RDatum) else v


def live():
    return lib.pymc_live()
