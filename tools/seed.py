#!/usr/bin/env python3
"""Confirms planted bugs in scratch copies of /repo and runs checks against them.

usage: tools/seed.py confirm ID...        patch applies, builds, tests pass, demo 0 -> nonzero
       tools/seed.py run ID... [-p C01,..] [-t tier]  run the check of the bug's property (or others)
Scratch copies live under /tmp/ys-seed and are removed afterwards.
"""
import json, os, subprocess, sys, shutil, concurrent.futures as cf
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = "/tmp/ys-seed"

def sh(cmd, cwd, env=None, timeout=1000):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    return p.returncode, p.stdout

def scratch(i):
    d = f"{SCR}/{i}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(SCR, exist_ok=True)
    subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
    subprocess.check_call(["git", "clone", "-q", "/repo", d])
    return d

def build_test(d):
    rc, out = sh("cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_FLAGS=-Wno-error -DYSTRING_BUILD_TESTS=ON "
                 "-DFETCHCONTENT_FULLY_DISCONNECTED=ON -DFETCHCONTENT_TRY_FIND_PACKAGE_MODE=ALWAYS -Dcatch_DIR=/opt/vp/cmake >/dev/null && ninja -C _build 2>&1 | tail -30",
                 d, {"CC": "/usr/bin/gcc", "CXX": "/usr/bin/g++"})
    t = f"{d}/_build/tests/YstringTest/YstringTest"
    if rc or not os.path.exists(t):
        return False, out[-3000:]
    rc, out = sh([t], d)
    return rc == 0, out[-1500:]

def confirm(i):
    s = f"{VERIF}/seeded/{i}"
    d = scratch(i)
    try:
        rc, out = sh(["bash", f"{s}/demo.sh"], d)
        if rc: return i, "DEMO FAILS UNPATCHED: " + out[-1500:]
        rc, out = sh(["git", "apply", f"{s}/patch.diff"], d)
        if rc: return i, "APPLY: " + out
        ok, out = build_test(d)
        if not ok: return i, "BUILD/TEST: " + out
        rc, out = sh(["bash", f"{s}/demo.sh"], d)
        if rc == 0: return i, "DEMO PASSES PATCHED: " + out[-1500:]
        return i, "ok: " + out.strip().splitlines()[-1][:150] if out.strip() else "ok"
    finally:
        shutil.rmtree(d, ignore_errors=True)

def run(i, props, tier):
    s = f"{VERIF}/seeded/{i}"
    meta = json.load(open(f"{s}/meta.json"))
    d = scratch(i)
    res = []
    try:
        sh(["git", "apply", f"{s}/patch.diff"], d)
        for p in props or [meta["property"]]:
            rc, out = sh([f"{VERIF}/check", p, tier], VERIF, {"YS_REPO": d, "YS_SCRATCH_OUT": f"{SCR}/out-{i}"})
            v = [l for l in out.splitlines() if l.startswith("VIOLATION")]
            res.append(f"{p}:{'CAUGHT' if rc == 1 and v else 'rc=%d' % rc}" + ("" if rc in (0, 1) else out[-800:]))
        return i, " ".join(res)
    finally:
        shutil.rmtree(d, ignore_errors=True)

def main():
    a = sys.argv[1:]
    mode = a.pop(0)
    props, tier, ids, jobs = [], "quick", [], 4 if mode == "confirm" else 1
    while a:
        x = a.pop(0)
        if x == "-p": props = a.pop(0).split(",")
        elif x == "-t": tier = a.pop(0)
        else: ids.append(x)
    if not ids: ids = sorted(os.listdir(f"{VERIF}/seeded"))
    with cf.ThreadPoolExecutor(jobs) as ex:
        for i, r in ex.map(lambda i: confirm(i) if mode == "confirm" else run(i, props, tier), ids):
            print(i, r, flush=True)
main()
