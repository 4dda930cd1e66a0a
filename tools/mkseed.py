#!/usr/bin/env python3
"""mkseed.py <definition.py>: makes seeded/<id>/ from a definition (ID, PROP, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO source,
optional FLAGS) and checks it in a scratch copy: builds, stable tests pass (header tests), demo 0 without and nonzero with the patch."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = {}
exec(open(sys.argv[1]).read(), d)
out = os.path.join(V, "seeded", d["ID"])
tmp = "/tmp/seedtmp-%d" % os.getpid()
shutil.rmtree(tmp, ignore_errors=True)
subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
subprocess.run(["git", "clone", "-q", "/repo", tmp], check=True)
for f, a, b in d["EDITS"]:
    p = os.path.join(tmp, f); s = open(p).read()
    assert s.count(a) == 1, (f, s.count(a), a)
    open(p, "w").write(s.replace(a, b))
patch = subprocess.run(["git", "-C", tmp, "diff"], stdout=subprocess.PIPE, text=True).stdout
shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
open(os.path.join(out, "patch.diff"), "w").write(patch)
open(os.path.join(out, "demo.cc"), "w").write(d["DEMO"].lstrip("\n"))
for extra in d.get("EXTRA", []):
    src, dst = extra
    (shutil.copytree if os.path.isdir(src) else shutil.copy)(src, os.path.join(out, dst))
open(os.path.join(out, "demo.sh"), "w").write("""#!/bin/bash
# exit 0 when the property holds for the shown case
d="$(cd "$(dirname "$0")" && pwd)"; t=$(mktemp -d); trap 'rm -r "$t"' EXIT
g++ -std=c++17 -O1 -DNDEBUG -w %s -I "$d" -I include "$d/demo.cc" -o "$t/demo" %s || exit 99
cd "$t" && timeout 100 ./demo
""" % (d.get("FLAGS", ""), d.get("LIBS", "")))
os.chmod(os.path.join(out, "demo.sh"), 0o755)
json.dump(dict(property=d["PROP"], needs=d["NEEDS"], what_it_breaks=d["BREAKS"]), open(os.path.join(out, "meta.json"), "w"), indent=1)
sh = os.path.join(out, "demo.sh")
r1 = subprocess.run([sh], cwd=tmp).returncode
subprocess.run(["git", "-C", tmp, "stash", "-q"])
r0 = subprocess.run([sh], cwd=tmp).returncode
subprocess.run(["git", "-C", tmp, "stash", "pop", "-q"])
ok = 0
if d.get("TESTS", True):
    for t in ["test_one_dim_tn/test_duovector.cc", "test_case_params_parser.cc", "test_one_dim_tn/test_mpogen/test_mpogen_fsm.cc", "test_one_dim_tn/test_mpogen/test_mpogen_coef_op_alg.cc"]:
        p = os.path.join(tmp, "tests", t)
        e = tmp + "/t.exe"
        r = subprocess.run(["g++", "-std=c++17", "-O1", "-DNDEBUG", "-w", "-I" + tmp + "/include", "-I" + tmp + "/tests", p, "-o", e, "-lgtest", "-lgtest_main", "-lpthread"])
        r = r.returncode or subprocess.run([e] + ([tmp + "/tests/testdata/test-params.json", tmp + "/tests/testdata/test-params-wrong-types.json"] if "case_params" in p else []), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=os.path.dirname(p)).returncode
        if r: print("TEST FAILS", os.path.basename(p), r); ok = 1
shutil.rmtree(tmp)
print(d["ID"], "demo clean", r0, "patched", r1, "tests", "FAIL" if ok else "pass", "=>", "KEEP" if r0 == 0 and r1 != 0 and not ok else "REJECT")
if not (r0 == 0 and r1 != 0 and not ok) and "--keep" not in sys.argv: shutil.rmtree(out)
