#!/usr/bin/env python3
"""development aid: sweep.py PROP SUITE N: explore every value of the first choice on its own, list what fails"""
import concurrent.futures, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import run
from checks import CHECKS
pid, suite, n = sys.argv[1], sys.argv[2], int(sys.argv[3])
h = run.build_harness(CHECKS[pid])


def one(i):
    try:
        r = subprocess.run([h, "--suite", suite, "--first", str(i)] + sys.argv[4:], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=run.env(), timeout=300)
    except subprocess.TimeoutExpired:
        return i, "timeout"
    if r.returncode == 0:
        return None
    L = [x for x in r.stdout.split("\n") if x.startswith("MC-VIOLATION") or "ERROR: Addr" in x or "runtime error" in x or "SUMMARY" in x]
    fr = [x.strip() for x in r.stdout.split("\n") if "/repo/src" in x][:4]
    return i, "rc=%d %s %s" % (r.returncode, " | ".join(L)[:300], " ".join(fr)[:300])


with concurrent.futures.ThreadPoolExecutor(8) as ex:
    for x in ex.map(one, range(n)):
        if x:
            print(*x)
