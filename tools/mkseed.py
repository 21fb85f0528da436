"""Development helper: mk(id, property, needs, breaks, edits, demo) writes seeded/<id>/."""
import json, os, shutil, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def mk(id, prop, needs, breaks, edits, demo, cxx=False):
    assert not subprocess.check_output(["git", "-C", "/repo", "status", "--porcelain"]), "repo not clean"
    d = os.path.join(V, "seeded", id)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    try:
        for f, old, new in edits:
            p = "/repo/" + f; s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        open(d + "/patch.diff", "wb").write(subprocess.check_output(["git", "-C", "/repo", "diff"]))
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    if cxx:
        open(d + "/demo.cpp", "w").write(demo)
        open(d + "/demo.sh", "w").write('''#!/bin/bash
# cwd: /repo, after the build
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
LIB=$(find _build -name 'liblibamqpprox.a' | head -1); PROTO=$(find _build -name 'lib*authproto*.a' | head -1); GEN=$(dirname "$(find _build -name 'authrequest.pb.h' | head -1)")
g++ -std=c++17 -w %s -DBOOST_BIND_GLOBAL_PLACEHOLDERS -DBOOST_LOG_DYN_LINK -pthread -Ilibamqpprox -I"$GEN" "$D/demo.cpp" $LIB $PROTO \\
  -lboost_log -lboost_thread -lboost_timer -lboost_system -lssl -lcrypto -lprotobuf -lpthread -o "$T/demo" || exit 3
cd "$T" && timeout 120 ./demo
''' % (cxx if isinstance(cxx, str) else ""))
    else:
        shutil.copy(V + "/tools/seedlib/prox.py", d)
        open(d + "/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nsys.dont_write_bytecode = True\nfrom prox import *\n" + demo)
        open(d + "/demo.sh", "w").write('#!/bin/bash\n# cwd: /repo, after the build\nexec timeout 120 python3 -B "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    print("wrote", id)
