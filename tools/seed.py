#!/usr/bin/env python3
"""Development tool: makes and judges planted bugs.

seed.py new ID      packs seeded/ID from /tmp/seed/repo's diff, with the demo
                    and meta that lie in /tmp/seed/ID/
seed.py demo ID     runs the demo on the clean tree and on the patched tree
seed.py check ID [PROPERTY...]  runs the check(s) against the patched tree
"""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seed"
R = W + "/repo"


def sh(*a, **k):
    return subprocess.run(a, **k)


def clean():
    if not os.path.isdir(R):
        os.makedirs(W, exist_ok=True)
        sh("cp", "-a", "/repo", R, check=True)
    sh("git", "-C", R, "checkout", "-q", "--", ".", check=True)
    sh("git", "-C", R, "fetch", "-q", "/repo", "HEAD", check=True)
    sh("git", "-C", R, "reset", "-q", "--hard", "FETCH_HEAD", check=True)


def kit(d):
    k = d + "/kit"
    shutil.rmtree(k, ignore_errors=True)
    shutil.copytree(ROOT + "/env", k + "/env")
    for f in ("net.h", "protos.h", "protoops.h"):
        shutil.copy(ROOT + "/harness/" + f, k)
    shutil.copy(ROOT + "/tools/groups.py", k)
    shutil.copy(ROOT + "/tools/kit/build.py", k)


def apply(i):
    clean()
    sh("git", "-C", R, "apply", f"{ROOT}/seeded/{i}/patch.diff", check=True)


def demo(i):
    d = f"{ROOT}/seeded/{i}"
    tmp = W + "/demo"
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.copytree(d, tmp, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    clean()
    a = sh("bash", tmp + "/demo.sh", cwd=R).returncode
    apply(i)
    b = sh("bash", tmp + "/demo.sh", cwd=R).returncode
    print(i, "demo clean", a, "patched", b, "OK" if a == 0 and b != 0 else "BAD", flush=True)


def check(i, props):
    apply(i)
    env = dict(os.environ, VERIF_REPO=R, VERIF_BUILD=W + "/build")
    for p in props or [json.load(open(f"{ROOT}/seeded/{i}/meta.json"))["property"]]:
        r = sh("python3", ROOT + "/tools/check.py", p, env=env, stdout=subprocess.PIPE, text=True)
        print(i, p, "exit", r.returncode, *[l[:300] for l in r.stdout.splitlines() if "VIOL" in l or "violation" in l][:3], r.stdout[-300:] if r.returncode not in (0, 1) else "", flush=True)
    sh("git", "-C", ROOT, "checkout", "-q", "--", "evidence", stderr=subprocess.DEVNULL)


cmd = sys.argv[1]
if cmd == "clean":
    clean()
elif cmd == "new":
    # new ID PROPERTY groups  < uses W/ID/demo.cc ; needs/breaks from W/ID/{needs,breaks}.txt
    i = sys.argv[2]
    s = f"{W}/{i}"
    d = f"{ROOT}/seeded/{i}"
    os.makedirs(d, exist_ok=True)
    diff = sh("git", "-C", R, "diff", stdout=subprocess.PIPE, text=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    shutil.copy(s + "/demo.cc", d)
    shutil.copy(s + "/meta.json", d)
    shutil.copy(s + "/groups.txt", d)
    kit(d)
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexec python3 "$(dirname "$0")/kit/build.py"\n')
elif cmd == "demo":
    for i in sys.argv[2:]:
        demo(i)
elif cmd == "check":
    check(sys.argv[2], sys.argv[3:])
