#!/usr/bin/env python3
"""Plants the seeded bugs: writes /verif/seeded/<id>/ from the definitions below and verifies each of them.

  seeds.py            verify everything (patch applies, builds, stable tests pass, demo 0/nonzero, changed lines original)
  seeds.py ID ...     only these
  seeds.py --checks [ID ...]   additionally runs the check of the seed's property on the patched tree
"""
import json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), "seeded")
BASE = "5f1ab14"
S = {}
def seed(id, prop, needs, breaks, edits, demo, also=()):
    S[id] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, also=also)
exec(open(os.path.join(HERE, "seeds_def.py")).read())

DEMO_H = open(os.path.join(HERE, "seeds_demo.h")).read()
DEMO_SH = r'''#!/bin/bash
# Run in the root of the repository: exit 0 when the property holds, 1 when it is broken.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -f "$work/demo"; rmdir "$work"' EXIT
clang++ -std=c++17 -O1 -include cstdarg -I"$PWD/include" -I"$here" -pthread FLAGS "$here/demo.cpp" -o "$work/demo" || exit 3
timeout 200 "$work/demo" || exit 1
'''

def run(*a, **k): return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def main():
    args = sys.argv[1:]
    checks = "--checks" in args
    want = [a for a in args if not a.startswith("--")]
    d = tempfile.mkdtemp(prefix="seeds-")
    r = d + "/repo"
    run("git", "clone", "-q", "/repo", r)
    bad = []
    rp = os.path.join(HERE, "seed_results.json")
    old_results = json.load(open(rp)) if os.path.exists(rp) else {}
    caught = {}
    try:
        for id, s in S.items():
            if want and id not in want and s["prop"] not in want: continue
            run("git", "-C", r, "checkout", "-q", "--", ".")
            why = None
            for f, o, n in s["edits"]:
                p = f"{r}/include/oqpi/{f}"
                t = open(p).read()
                if t.count(o) != 1: why = f"text found {t.count(o)} times in {f}: {o[:50]!r}"; break
                open(p, "w").write(t.replace(o, n))
            if why: print(id, "BAD", why); bad.append(id); continue
            out = f"{OUT}/{id}"
            os.makedirs(out, exist_ok=True)
            diff = run("git", "-C", r, "diff").stdout
            open(out + "/patch.diff", "w").write(diff)
            flags = ""
            m = re.match(r"//flags: (.*)\n", s["demo"].lstrip("\n"))
            if m: flags = m[1]
            open(out + "/demo.cpp", "w").write(s["demo"].lstrip("\n"))
            open(out + "/demo.h", "w").write(DEMO_H)
            open(out + "/demo.sh", "w").write(DEMO_SH.replace("FLAGS", flags).replace("  \"", " \""))
            os.chmod(out + "/demo.sh", 0o755)
            json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(out + "/meta.json", "w"), indent=1)
            # the changed lines are those of the original repository
            old = [l for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
            orig = 0
            for f in {e[0] for e in s["edits"]}:
                b = run("git", "-C", "/repo", "show", f"{BASE}:include/oqpi/{f}").stdout.splitlines()
                orig += sum(1 for l in old if l[1:] in b and l[1:].strip())
            if not orig: why = "no original line is changed"
            run("git", "-C", r, "checkout", "-q", "--", ".")
            x = run(out + "/demo.sh", cwd=r)
            if x.returncode != 0: why = f"demo fails without the patch: {x.stdout[-400:]}"
            run("git", "-C", r, "apply", out + "/patch.diff")
            x = run(out + "/demo.sh", cwd=r)
            if x.returncode != 1: why = (why or "") + f" demo returns {x.returncode} with the patch: {x.stdout[-400:]}"
            msg = x.stdout.strip()[-100:]
            # stable tests, in /repo's own place (the build is bound to it)
            run("git", "-C", "/repo", "apply", out + "/patch.diff")
            try:
                run("bash", "/opt/vp/test.sh", d + "/t.json")
                res = json.load(open(d + "/t.json"))
                base = json.load(open("/opt/vp/BASELINE.json"))
                stable = base if isinstance(base, list) else base.get("stable") or base.get("passed") or base.get("tests")
                lost = [t for t in stable if t not in res["passed"]]
                if lost: why = (why or "") + f" tests lost: {lost}"
            finally:
                run("git", "-C", "/repo", "checkout", "--", ".")
            res = ""
            if checks:
                for p in (s["prop"],) + tuple(s["also"]):
                    c = subprocess.run(["python3", "/verif/check.py", p], env=dict(os.environ, VERIF_REPO=r, VERIF_TIER="quick", VERIF_SEED="1"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
                    k = re.search(rf"{p}: (.*)", c.stderr)
                    if c.returncode == 1: caught.setdefault(id, []).append(p)
                    res += f" {p}:{ {0: 'MISSED', 1: 'caught'}.get(c.returncode, 'ERROR ' + c.stderr[-300:])} {k.group(1)[:80] if k else ''}"
            print(id, "BAD " + why if why else "ok", f"[{msg}]", res, flush=True)
            if why: bad.append(id)
    finally:
        shutil.rmtree(d)
    if checks:
        old_results.update(caught)
        json.dump(dict(sorted(old_results.items())), open(rp, "w"), indent=1)
    run("bash", "/opt/vp/build.sh")
    print("bad:", bad)

main()
