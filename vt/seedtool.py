#!/usr/bin/env python3
"""Works on planted bugs: seedtool.py new ID PROPERTY < spec.json   |   seedtool.py try ID...   |   seedtool.py catch ID...
A spec holds edits [[file, old, new], ...], demo (C++ source), flags, env, nomalloc, needs, what. The bug is made and judged in
a scratch copy of /repo; `catch` runs the property's check against the scratch copy."""
import json, os, shutil, subprocess, sys, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); W = "/tmp/seedwork"; S = os.path.join(V, "seeded")
def sh(c, **k): return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def copy():
    if os.path.isdir(W): shutil.rmtree(W)
    os.makedirs(W); r = sh("git -C /repo archive HEAD | tar -x -C %s && cd %s && git init -q && git add -A && git -c user.email=a@b -c user.name=a commit -qm base" % (W, W)); assert r.returncode == 0, r.stdout
def new(i, prop, spec):
    copy(); d = os.path.join(S, i); os.makedirs(d, exist_ok=True)
    for f, old, neu in spec["edits"]:
        p = os.path.join(W, f); t = open(p).read(); assert t.count(old) == 1, (f, t.count(old), old); open(p, "w").write(t.replace(old, neu))
    open(os.path.join(d, "patch.diff"), "w").write(sh(["git", "-C", W, "diff"]).stdout)
    if os.path.isdir(os.path.join(d, "compat")): shutil.rmtree(os.path.join(d, "compat"))
    shutil.copytree(os.path.join(V, "compat"), os.path.join(d, "compat")); shutil.copy(os.path.join(V, "vt/seedkit/lib.sh"), d)
    open(os.path.join(d, "demo.cc"), "w").write(spec["demo"])
    e = " ".join('%s="%s"' % kv for kv in spec.get("env", {}).items())
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\n# %s\n. "$(dirname "$0")/lib.sh"\n%smk demo "%s" "$HERE/demo.cc"%s\n%s timeout 200 "$T/demo"; rc=$?\n[ $rc = 0 ] && echo "demo: ok" || echo "demo: failed ($rc)"\nexit $rc\n' % (
        spec["what"].split("\n")[0], "NOMALLOC=1 " if spec.get("nomalloc") else "", spec.get("flags", "-O1 -DNDEBUG"), "".join(' "$REPO/%s"' % x for x in spec.get("extra", [])), e))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": spec["needs"], "what_it_breaks": spec["what"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
def tryit(i):
    d = os.path.join(S, i); copy(); r0 = sh(["bash", os.path.join(d, "demo.sh")], cwd=W)
    a = sh(["git", "-C", W, "apply", os.path.join(d, "patch.diff")]); assert a.returncode == 0, a.stdout
    r1 = sh(["bash", os.path.join(d, "demo.sh")], cwd=W)
    print(i, "clean:", r0.returncode, "patched:", r1.returncode, "GOOD" if r0.returncode == 0 and r1.returncode not in (0, 99) else "BAD"); print("   ", r0.stdout[-200:].strip().replace("\n", " | "), "  //  ", r1.stdout[-300:].strip().replace("\n", " | "))
def catch(i):
    d = os.path.join(S, i); prop = json.load(open(os.path.join(d, "meta.json")))["property"]; copy(); sh(["git", "-C", W, "apply", os.path.join(d, "patch.diff")])
    r = sh([sys.executable, os.path.join(V, "check.py"), prop], cwd=V, env=dict(os.environ, VT_REPO=W, VT_BUILD="/tmp/seedbuild", VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"))
    print(i, prop, "CAUGHT" if r.returncode == 1 and "VIOLATION property=%s " % prop in r.stdout else "MISSED rc=%d" % r.returncode); print("   ", "\n    ".join(l[:230] for l in r.stdout.strip().split("\n")[:4]))
if __name__ == "__main__":
    c = sys.argv[1]
    if c == "new": new(sys.argv[2], sys.argv[3], json.load(sys.stdin))
    for i in sys.argv[2:] if c in ("try", "catch") else []: (tryit if c == "try" else catch)(i)
