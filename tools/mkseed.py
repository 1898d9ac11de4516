#!/usr/bin/env python3
"""mkseed.py SPEC.py: makes seeded/<id>/ from a Python file defining ID, PROPERTY, EDITS [(file, old, new)], NEEDS, BREAKS and DEMO
(C++ text; ASAN=True builds it with the library sources under the address sanitizer) or DEMO_SH (shell text)."""
import sys, os, json, subprocess, shutil, tempfile
ns = {"ASAN": False, "DEMO": None, "DEMO_SH": None, "SAN": "address", "FILES": {}}
exec(open(sys.argv[1]).read(), ns)
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded", ns["ID"])
os.makedirs(out, exist_ok=True)
d = tempfile.mkdtemp(prefix="mkseed_", dir="/tmp")
subprocess.run(["git", "clone", "-q", "/repo", d + "/r"], check=True)
for f, old, new in ns["EDITS"]:
    p = d + "/r/" + f
    s = open(p).read()
    if s.count(old) != 1: sys.exit("%s: %d matches of %r" % (f, s.count(old), old))
    open(p, "w").write(s.replace(old, new))
diff = subprocess.run(["git", "-C", d + "/r", "diff"], stdout=subprocess.PIPE, text=True).stdout
open(out + "/patch.diff", "w").write(diff)
json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
for f, t in ns["FILES"].items(): open(out + "/" + f, "w").write(t)
if ns["DEMO"]:
    open(out + "/demo.cpp", "w").write(ns["DEMO"])
    if ns["ASAN"]:
        sh = '''#!/bin/bash
# builds the demonstration with the library's sources under a sanitizer; run in /repo
set -e
here=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d); trap 'rm -rf -- "$w"' EXIT
for f in src/lib/io/*.cpp src/lib/core/*.cpp; do
  g++ -std=c++14 -g1 -w -pthread -fsanitize=%s -DPARTIO_USE_ZLIB -Isrc/lib -c "$f" -o "$w/$(basename "$f").o" &
done
wait
g++ -std=c++14 -g1 -w -pthread -fsanitize=%s -Isrc/lib "$here/demo.cpp" "$w"/*.o -o "$w/demo" -lz
cd "$w" && ASAN_OPTIONS=detect_leaks=0 TSAN_OPTIONS=halt_on_error=1 timeout 120 ./demo
''' % (ns["SAN"], ns["SAN"])
    else:
        sh = '''#!/bin/bash
# builds the demonstration against the library built in /repo/_build; run in /repo
set -e
here=$(cd "$(dirname "$0")" && pwd); r=$(pwd); w=$(mktemp -d); trap 'rm -rf -- "$w"' EXIT
g++ -std=c++14 -g -w -pthread -Isrc/lib "$here/demo.cpp" -o "$w/demo" -L_build/src/lib -lpartio -lz -Wl,-rpath,"$r/_build/src/lib"
cd "$w" && timeout 120 ./demo
'''
else: sh = ns["DEMO_SH"]
open(out + "/demo.sh", "w").write(sh); os.chmod(out + "/demo.sh", 0o755)
shutil.rmtree(d)
