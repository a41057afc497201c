#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE  (stdin: sections  <<<OLD / === / >>> , then NEEDS:, BREAKS:, DEMO: )
writes seeded/ID/{patch.diff,demo.sh,demo.cc,meta.json} from textual replacements against /repo."""
import sys, os, json, subprocess, tempfile, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exits 0 when the library behaves as the property says
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
g++ -std=c++17 -w -fpermissive -O1 -I"$PWD" -I/usr/include/opencascade "$D/demo.cc" -o "$T/demo" -Wl,--as-needed %s || { rm -rf "$T"; exit 3; }
cd "$T" && timeout 60 ./demo
rc=$?
cd / && rm -rf "$T"
exit $rc
'''
LIBS = "TKernel TKMath TKG2d TKG3d TKGeomBase TKBRep TKGeomAlgo TKTopAlgo TKPrim TKBO TKBool TKShHealing TKFillet TKOffset".split()


def make(id, prop, repl, needs, breaks, demo):
    d = os.path.join(ROOT, "seeded", id)
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp()
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", tmp + "/r"])
        for f, old, new in repl:
            p = tmp + "/r/" + f
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", tmp + "/r", "diff"], text=True)
        assert diff
    finally:
        shutil.rmtree(tmp)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(DEMO % " ".join("-l" + l for l in LIBS))
    open(d + "/demo.cc", "w").write(demo)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    print("seed", id)
