#!/usr/bin/env python3
"""seed.py ID PROP < spec    plant a bug in a scratch copy, confirm it, store it under seeded/ID.
spec:  needs: ... / breaks: ... lines, @@FILE path (relative to include/) followed by OLD ==== NEW blocks
(separated by a line @@@@), then @@DEMO followed by a C++ program (main returns non-zero on failure).
seed.py --recheck [ID ...]    apply every stored patch to a scratch copy again, and run the property's check on it."""
import json, os, re, shutil, subprocess, sys
SEED = "/tmp/w/seed"; INC = "libs/mathlib/include/"
VER = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
DEMO = """#!/bin/bash
# Exit 0 when the property holds on the sources in the current directory.
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++11 -O1 -w -I libs/mathlib/include -o "$t/demo" "$d/demo.cpp" && timeout 60 "$t/demo"
"""
def scratch():
    os.makedirs("/tmp/w", exist_ok=True)
    if not os.path.isdir(SEED):
        sh(f"git -C /repo worktree prune; git -C /repo worktree add --detach -f {SEED} HEAD")
    sh(f"git -C {SEED} checkout -q --detach -f $(git -C /repo rev-parse HEAD)")
def build():
    if not os.path.isdir(SEED + "/_build"):
        r = sh(f"cd {SEED} && CC=gcc CXX=g++ cmake -Wno-dev -G Ninja -S . -B _build -DCMAKE_BUILD_TYPE=RelWithDebInfo -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DFETCHCONTENT_TRY_FIND_PACKAGE_MODE=ALWAYS -DMATHLIB_BUILD_TEST_LIB=ON -DMATHLIB_BUILD_TESTS=ON")
        if r.returncode: print(r.stdout[-2000:], r.stderr[-2000:]); sys.exit(1)
    r = sh(f"cd {SEED} && cmake --build _build -j 8")
    if r.returncode: return "build fails: " + r.stdout[-1500:]
    r = sh(f"{SEED}/_build/tests/tests/mathlib_tests --order decl --rng-seed 1")
    return None if r.returncode == 0 else "tests fail: " + r.stdout[-1500:]
def check(prop, ID):
    r = sh(f"cd {VER} && VP_REPO={SEED} python3-vt engine/check.py {prop}")
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    c = json.load(open(VER + "/tools/caught.json")) if os.path.exists(VER + "/tools/caught.json") else {}
    c[ID] = ", ".join(sorted(set(re.findall(r"^  ([hft]_\w+):", r.stdout, re.M)))) or "missed"
    json.dump(c, open(VER + "/tools/caught.json", "w"), indent=0, sort_keys=True)
    return r.returncode, v, r.stdout
def main():
    if sys.argv[1] == "--recheck":
        ids = sys.argv[2:] or sorted(os.listdir(VER + "/seeded"))
        scratch()
        for i in ids:
            d = f"{VER}/seeded/{i}"; prop = json.load(open(d + "/meta.json"))["property"]
            sh(f"git -C {SEED} checkout -q -- .")
            r = sh(f"git -C {SEED} apply {d}/patch.diff")
            if r.returncode: print(i, prop, "PATCH DOES NOT APPLY"); continue
            dm = sh(f"cd {SEED} && bash {d}/demo.sh").returncode
            rc, v, out = check(prop, i)
            print(i, prop, "caught" if rc == 1 and v else f"MISSED rc={rc}", len(v), "demo", dm, flush=True)
            sh(f"git -C {SEED} checkout -q -- .")
        return
    ID, prop = sys.argv[1:3]; spec = sys.stdin.read().replace("\r", "")
    meta = dict(property=prop, needs=re.search(r"^needs: (.*)$", spec, re.M).group(1), what_it_breaks=re.search(r"^breaks: (.*)$", spec, re.M).group(1))
    demo = spec.split("@@DEMO\n")[1]
    d = f"{VER}/seeded/{ID}"
    scratch(); sh(f"git -C {SEED} checkout -q -- .")
    for part in re.split(r"^@@FILE ", spec.split("@@DEMO\n")[0], flags=re.M)[1:]:
        f, body = part.split("\n", 1); p = f"{SEED}/{INC}{f.strip()}"
        b = open(p, newline="").read(); crlf = "\r\n" in b; b = b.replace("\r\n", "\n")
        for blk in body.split("\n@@@@\n"):
            o, n = blk.rstrip("\n").split("\n====\n") if "\n====\n" in blk else (blk.rstrip("\n").split("\n====")[0], "")
            if b.count(o) != 1: print("OLD matches", b.count(o), "times:\n", o); sh(f"git -C {SEED} checkout -q -- ."); sys.exit(1)
            b = b.replace(o, n)
        open(p, "w", newline="").write(b.replace("\n", "\r\n") if crlf else b)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "wb").write(subprocess.run(["git", "-C", SEED, "diff"], capture_output=True).stdout)
    open(d + "/demo.cpp", "w").write(demo); fl = re.search(r"^flags: (.*)$", spec, re.M); open(d + "/demo.sh", "w").write(DEMO.replace("-O1", "-O1 " + fl.group(1)) if fl else DEMO); os.chmod(d + "/demo.sh", 0o755)
    json.dump(meta, open(d + "/meta.json", "w"), indent=1)
    def fail(m): print("REJECTED:", m); shutil.rmtree(d); sh(f"git -C {SEED} checkout -q -- ."); sys.exit(1)
    r = sh(f"cd {SEED} && bash {d}/demo.sh")
    if r.returncode == 0: fail("demo passes with the patch " + r.stderr)
    if "error" in r.stderr: fail(r.stderr)
    print("demo with patch:", r.returncode, r.stdout[-200:])
    r = sh(f"cd /repo && bash {d}/demo.sh")
    if r.returncode: fail("demo fails on the unchanged tree: " + r.stdout + r.stderr)
    m = build()
    if m: fail(m)
    rc, v, out = check(prop, ID)
    print(ID, "CONFIRMED;", "CAUGHT" if rc == 1 and v else f"MISSED rc={rc}"); print("\n".join(v[:3]))
    sh(f"git -C {SEED} checkout -q -- .")
main()
