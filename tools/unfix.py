#!/usr/bin/env python3
"""Reverts each "fix:" commit of /repo, one at a time, on a scratch clone and runs the check of its property: it has to
report the defect again. unfix.py [commit ...]. Not used by any check."""
import json, os, re, shutil, subprocess, sys, tempfile

def main():
    want = sys.argv[1:]
    d = tempfile.mkdtemp(prefix="unfix-"); r = d + "/repo"
    subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
    try:
        for line in json.load(open("/verif/known_findings.json"))["fixed"]:
            prop, commit = re.match(r"fixed: property=(\S+) (\S+)", line).groups()
            if want and commit not in want and prop not in want:
                continue
            subprocess.run(["git", "-C", r, "reset", "-q", "--hard", "origin/HEAD"], check=True)
            x = subprocess.run(["git", "-C", r, "-c", "user.name=x", "-c", "user.email=x@x", "revert", "--no-edit", commit], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if x.returncode:
                subprocess.run(["git", "-C", r, "revert", "--abort"])
                print(f"{prop} {commit}: does not revert cleanly", flush=True)
                continue
            x = subprocess.run(["python3", "/verif/check.py", prop], env=dict(os.environ, VERIF_REPO=r, VERIF_TIER="quick"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            k = re.search(rf"{prop}: (.*)", x.stderr)
            print(f"{prop} {commit}: {({0: 'MISSED', 1: 'caught'}).get(x.returncode, 'ERROR')} {k.group(1)[:120] if k else x.stderr[-300:]}", flush=True)
    finally:
        shutil.rmtree(d)

if __name__ == "__main__":
    main()
