#!/usr/bin/env python3
"""mkseed.py <spec.py> [check]: plant the bug described by the spec, confirm it, keep it as /verif/seeded/<id>.

The spec sets: id, prop, edits=[(file, old, new)], needs, breaks, demo={name: content}. Nothing stays in /repo."""
import json, os, shutil, stat, subprocess, sys
V, R = "/verif", "/repo"
spec = {}
exec(open(sys.argv[1]).read(), spec)
d = os.path.join(V, "seeded", spec["id"])


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def restore():
    sh("git -C /repo checkout -q -- .")


def demo():
    r = sh("timeout 300 bash %s/demo.sh" % d, cwd=R)
    return r.returncode, r.stdout[-500:]


assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
shutil.rmtree(d, ignore_errors=True)
os.makedirs(d)
kit = os.path.join(V, "tools", "seedkit")
for f in os.listdir(kit):
    if f not in spec.get("kitfiles", []) + ["kit.sh", "json-schema.hpp"]:
        continue
    shutil.copy(os.path.join(kit, f), d)
for name, content in spec["demo"].items():
    with open(os.path.join(d, name), "w") as fh:
        fh.write(content)
ok = True
try:
    for f, old, new in spec["edits"]:
        p = os.path.join(R, f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = sh("git -C /repo diff").stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump({"property": spec["prop"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    b = sh("bash /tmp/regress.sh").stdout
    print("with patch:", b.strip()[-300:])
    ok &= "missing set()" in b
    rc, out = demo()
    print("demo with patch:", rc, out)
    ok &= rc != 0
    for c in (sys.argv[2:] or [spec["prop"]]):
        r = sh("VERIF_BUILD=/tmp/vbuild /verif/bin/check %s" % c)
        print("check", c, r.returncode, "\n".join(l[:300] for l in r.stdout.splitlines()[-6:]))
finally:
    restore()
sh("bash /opt/vp/build.sh")
rc, out = demo()
print("demo without:", rc, out if rc else "")
ok &= rc == 0
print("SEED", spec["id"], "CONFIRMED" if ok else "NOT CONFIRMED")
