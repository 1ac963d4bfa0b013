"""seed(id, prop, needs, breaks, edits, demo_c): write /verif/seeded/<id>/ from edits [(file, old, new)] on /repo's HEAD."""
import os, subprocess, json, shutil, tempfile

SH = '''#!/bin/bash
# exit 0 when the property holds, nonzero when it is broken
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
gcc -g -w -D_GNU_SOURCE -I include -I _build/include -I _build/src "$here/demo.c" -o "$t/demo" -L _build/src/.libs -lcconfigspace -lgsl -lgslcblas -lm -lpthread || exit 99
cd "$t" || exit 99
LD_LIBRARY_PATH="$OLDPWD/_build/src/.libs" timeout 120 %s./demo
'''

def seed(sid, prop, needs, breaks, edits, demo, prefix=""):
    w = tempfile.mkdtemp()
    try:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w + "/r", "HEAD"])
        for f, old, new in edits:
            p = f"{w}/r/{f}"
            s = open(p).read()
            assert s.count(old) == 1, (sid, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        d = subprocess.check_output(["git", "-C", w + "/r", "diff"])
    finally:
        subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", w + "/r"])
        shutil.rmtree(w, ignore_errors=True)
    o = f"/verif/seeded/{sid}"
    os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "wb").write(d)
    open(o + "/demo.c", "w").write(demo)
    open(o + "/demo.sh", "w").write(SH % prefix)
    os.chmod(o + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(o + "/meta.json", "w"), indent=1)
    print("wrote", sid)
