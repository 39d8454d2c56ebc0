#!/usr/bin/env python3
"""Runs the check of one property: check.py <property> [quick|thorough]   (or: check.py --build, check.py --replay FILE)

Builds the scenario binaries from /repo's working tree, explores generated programs x schedules x faults
on 8 processes, shrinks a failure to a minimal record, writes evidence/<property>.json.
Exit 0: held on everything explored.  1: VIOLATION line printed.  2: the check itself failed."""
import array, concurrent.futures as cf, fcntl, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from table import PROPS, COMMON_ASSUMPTIONS  # noqa: E402

CONFIGS = {"chk": ["-D_GLIBCXX_ASSERTIONS"], "nd": ["-DNDEBUG"]}
CXX = "clang++"
BASE = ["-std=c++17", "-g1", "-fno-omit-frame-pointer", "-w"]
NPROC = 8


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------------------------------- build
def tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "include"), HARNESS):
        for d, dn, fn in os.walk(root):
            dn.sort()
            for f in sorted(fn):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    h.update(json.dumps([CONFIGS, BASE]).encode())
    return h.hexdigest()[:20]


def run_cc(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, " ".join(cmd) + "\n" + r.stdout


# These properties cover what a template has to accept: callables, arguments, results or elements that cannot be copied, and durations
# of every unit. Where the scenarios only compile without them (-DVT_PLAIN_<property>), the property does not hold; everything else is
# explored with what does compile.
PLAIN = {"threads": ["C26", "C29"], "tasks": ["C12", "C37"], "queue": ["C17"]}
MOVES, UNITS = "what cannot be copied", "durations of every unit"
ACCEPTED = {"C26": MOVES, "C29": UNITS, "C12": MOVES, "C37": MOVES, "C17": MOVES}


def plain(o, msg):
    """o did not compile: compiles it without what PLAIN names, as little as possible; notes whose"""
    cmd = msg.split("\n", 1)[0].split(" ")
    props = PLAIN.get(os.path.basename(o).split("-")[0], [])
    for ps in [[p] for p in props] + ([props] if len(props) > 1 else []):
        if run_cc(cmd + [f"-DVT_PLAIN_{p}" for p in ps])[0] == 0:
            with open(o[:-2] + ".plain", "w") as f:
                json.dump(dict(props=ps, cmd=cmd, log=msg[:20000]), f)
            return True
    return False


def compile_violation(prop, exe, replays):
    """prints the violation if the scenarios of prop only compile without what they have to accept"""
    if not os.path.exists(exe + ".plain"):
        return 0
    with open(exe + ".plain") as f:
        x = json.load(f)
    if prop not in x["props"]:
        return 0
    os.makedirs(replays, exist_ok=True)
    path = f"{replays}/{prop}-compile.rec"
    with open(path, "w") as f:
        f.write(f"prop {prop}\nscenario compile\nconfig {exe.rsplit('-', 1)[1]}\nkind compile\nmsg not accepted: {ACCEPTED[prop]}; only compiles with -DVT_PLAIN_{prop}\ndesc\n{x['log']}")
    log(f"{prop}: does not compile with {ACCEPTED[prop]}:\n{x['log'][:3000]}")
    print(f"VIOLATION property={prop} replay={path}", flush=True)
    return 1


def build(tus):
    """returns {(tu, conf): binary}"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = tree_hash()
        out = os.path.join(BUILD, key)
        for d in os.listdir(BUILD):
            p = os.path.join(BUILD, d)
            if d != key and os.path.isdir(p) and time.time() - os.path.getmtime(p) > 3600:
                shutil.rmtree(p, ignore_errors=True)
        os.makedirs(out, exist_ok=True)
        os.utime(out)
        res, jobs = {}, []
        for tu in tus:
            for conf, flags in CONFIGS.items():
                exe = os.path.join(out, f"{tu}-{conf}")
                res[(tu, conf)] = exe
                if not os.path.exists(exe):
                    jobs.append((tu, conf, flags, exe))
        if not jobs:
            return res
        with cf.ThreadPoolExecutor(NPROC) as ex:
            fs = {}
            for conf in sorted({j[1] for j in jobs}):
                o = os.path.join(out, f"rt-{conf}.o")
                if not os.path.exists(o):
                    fs[ex.submit(run_cc, [CXX, *BASE, "-O2", f'-DVT_CONF="{conf}"', "-c", os.path.join(HARNESS, "rt.cpp"), "-o", o + ".tmp"])] = o
            for tu, conf, flags, exe in jobs:
                o = exe + ".o"
                fs[ex.submit(run_cc, [CXX, *BASE, "-O1", "-fsanitize=thread", "-include", "cstdarg", f"-I{REPO}/include", f"-I{HARNESS}",
                                      "-DOQPI_USE_DEFAULT", *flags, "-c", os.path.join(HARNESS, f"s_{tu}.cpp"), "-o", o + ".tmp"])] = o
            for f in cf.as_completed(fs):
                rc, msg = f.result()
                if rc and not plain(fs[f], msg):
                    log(msg[-6000:])
                    raise SystemExit(2)
                os.rename(fs[f] + ".tmp", fs[f])
            ls = []
            for tu, conf, flags, exe in jobs:
                ls.append((exe, ex.submit(run_cc, [CXX, os.path.join(out, f"rt-{conf}.o"), exe + ".o", "-static-libstdc++", "-static-libgcc", "-ldl", "-o", exe + ".tmp"])))
            for exe, f in ls:
                rc, msg = f.result()
                if rc:
                    log(msg[-6000:])
                    raise SystemExit(2)
                os.rename(exe + ".tmp", exe)
                os.unlink(exe + ".o")
        return res


# ------------------------------------------------------------------------------------ running cases
def parse_record(path):
    r = {"fibers": []}
    with open(path, errors="replace") as f:
        lines = f.read().split("\n")
    for i, l in enumerate(lines):
        k, _, v = l.partition(" ")
        if k == "desc" or l == "desc":
            r["desc"] = "\n".join(lines[i + 1:]).strip()
            break
        if k == "fiber":
            r["fibers"].append(v)
        else:
            r[k] = v
    r["progl"] = [int(x) for x in r.get("prog", "").split()]
    r["schedl"] = r.get("sched", "").split()
    return r


def write_record(path, r, prog, sched):
    with open(path, "w") as f:
        for k in ("prop", "scenario", "config", "seed", "idx", "from", "step", "kind", "msg"):
            f.write(f"{k} {r.get(k, '')}\n")
        f.write("prog " + " ".join(map(str, prog)) + "\n")
        f.write("sched " + " ".join(sched) + "\n")
        f.write("desc\n" + r.get("desc", "") + "\n")


def run_bin(exe, args, timeout):
    try:
        p = subprocess.run([exe, *args], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return 5, (e.stdout or b"").decode(errors="replace")


class Explorer:
    def __init__(self, prop, spec, bins, seed, cases, secs, tmp):
        self.prop, self.spec, self.bins, self.seed, self.cases, self.secs, self.tmp = prop, spec, bins, seed, cases, secs, tmp
        self.t0 = time.time()

    def worker(self, p):
        conf = "chk" if p % 2 == 0 else "nd"
        if conf not in self.spec.get("configs", ["chk", "nd"]):
            conf = self.spec["configs"][0]
        exe = self.bins[(self.spec["tu"], conf)]
        stats, nxt, n = [], p, 0
        while nxt < self.cases and not self.stop:
            left = self.secs - (time.time() - self.t0)
            if left <= 0:
                break
            out, rec = f"{self.tmp}/o{p}.{n}.json", f"{self.tmp}/r{p}.{n}.rec"
            n += 1
            rc, txt = run_bin(exe, ["--prop", self.prop, "--seed", str(self.seed), "--from", str(nxt), "--to", str(self.cases), "--step", str(NPROC),
                                    "--secs", str(left), "--out", out, "--rec", rec], left + 200)
            if rc == 0:
                with open(out) as f:
                    st = json.load(f)
                a = array.array("Q")
                hp = out + ".hash"
                with open(hp, "rb") as f:
                    a.frombytes(f.read())
                os.unlink(hp)
                st["hashes"] = a
                stats.append(st)
                if st["next"] <= nxt:
                    return stats, ("error", p, f"no progress at case {nxt}")
                nxt = st["next"]
            elif rc == 3 and os.path.exists(rec):
                self.stop = True
                return stats, ("fail", conf, rec)
            elif rc == 5:
                self.stop = True
                m = re.search(r"HANG prop=\S+ scenario=(\S+) idx=(\d+)", txt)
                return stats, ("hang", conf, nxt, int(m.group(2)) if m else nxt, m.group(1) if m else "?")
            else:
                return stats, ("error", conf, f"exit {rc}: {txt[-2000:]}")
        return stats, None

    stop = False

    def run(self):
        with cf.ThreadPoolExecutor(NPROC) as ex:
            rs = list(ex.map(self.worker, range(NPROC)))
        return [s for r in rs for s in r[0]], [r[1] for r in rs if r[1]]


# ---------------------------------------------------------------------------------------- shrinking
class Shrinker:
    """Delta debugging of (program choices, schedule decisions); a candidate counts if the same kind of failure occurs."""

    def __init__(self, exe, rec, tmp, budget):
        self.exe, self.tmp, self.deadline = exe, tmp, time.time() + budget
        self.r = rec
        self.prog, self.sched = rec["progl"], rec["schedl"]
        self.n = 0
        self.ex = cf.ThreadPoolExecutor(NPROC)

    def left(self):
        return time.time() < self.deadline

    def attempt(self, prog, sched, search=0):
        self.n += 1
        src, rec = f"{self.tmp}/s{self.n}.in", f"{self.tmp}/s{self.n}.rec"
        write_record(src, self.r, prog, sched)
        a = ["--search", src, "--n", str(search), "--seed", str(self.n)] if search else ["--replay", src]
        rc, _ = run_bin(self.exe, [*a, "--rec", rec], 30)
        os.unlink(src)
        if rc == 3 and os.path.exists(rec):
            x = parse_record(rec)
            os.unlink(rec)
            if x.get("kind") == self.r["kind"] and x.get("scenario") == self.r["scenario"]:
                return x
        return None

    def accept(self, x):
        self.r = x
        self.prog, self.sched = x["progl"], x["schedl"]

    def batch(self, cands, search):
        """cands: list of (prog, sched); accepts the first that fails"""
        for i in range(0, len(cands), NPROC):
            if not self.left():
                return False
            rs = list(self.ex.map(lambda c: self.attempt(c[0], c[1], search), cands[i:i + NPROC]))
            for x in rs:
                if x and (len(x["progl"]), sum(x["progl"]), len(x["schedl"])) < (len(self.prog), sum(self.prog), len(self.sched)):
                    self.accept(x)
                    return True
        return False

    def run(self):
        n0 = len(self.prog)
        while self.left():
            cands, P = [], self.prog
            size = max(1, len(P) // 2)
            while size >= 1:
                for i in range(0, len(P), size):
                    cands.append(P[:i] + P[i + size:])
                if size == 1:
                    break
                size //= 2
            cands = cands[:120]
            for i, v in enumerate(P[:120]):
                if v:
                    cands.append(P[:i] + [0] + P[i + 1:])
                    if v > 1:
                        cands.append(P[:i] + [v // 2] + P[i + 1:])
            seen, uniq = set(), []
            for c in cands:
                t = tuple(c)
                if t not in seen and c != P:
                    seen.add(t)
                    uniq.append((c, []))
            if not (self.batch([(c, self.sched) for c, _ in uniq[:40]], 0) or self.batch(uniq, 150)):
                break
        # schedule
        while self.left():
            S, cands = self.sched, []
            size = max(1, len(S) // 2)
            while size >= 1:
                for i in range(0, len(S), size):
                    cands.append((self.prog, S[:i] + S[i + size:]))
                if size == 1:
                    break
                size //= 2
            if not S or not self.batch(cands[:400], 0):
                break
        return self


def symbolize(exe, rec):
    txt = json.dumps([rec.get("msg", ""), rec["fibers"], rec.get("backtrace", "")])
    addrs = sorted(set(re.findall(r"0x[0-9a-f]+", txt)))
    addrs = [a for a in addrs if int(a, 16) < 1 << 32]
    if not addrs:
        return {}
    try:
        o = subprocess.run(["addr2line", "-Cfe", exe, *addrs], stdout=subprocess.PIPE, text=True, timeout=60).stdout.split("\n")
    except Exception:
        return {}
    res = {}
    for i, a in enumerate(addrs):
        fn, ln = o[2 * i], o[2 * i + 1]
        fn = re.sub(r"<.*>", "<>", fn)[:80]
        res[a] = f"{fn} {ln.replace(REPO + '/', '').replace(VERIF + '/', '')}"
    return res


def report(prop, exe, rec, path, orig):
    sym = symbolize(exe, rec)

    def sub(s):
        return re.sub(r"0x[0-9a-f]+", lambda m: f"{m.group(0)} ({sym[m.group(0)]})" if m.group(0) in sym else m.group(0), s)
    write_record(path, rec, rec["progl"], rec["schedl"])
    with open(path, "a") as f:
        f.write("\n---- explanation (not read by the replay; replay with: python3 /verif/check.py --replay <this file>)\n")
        f.write(f"failure: {rec['kind']}: {sub(rec['msg'])}\n")
        for x in rec["fibers"]:
            head, _, st = x.partition(" stack:")
            f.write(f"thread {head}\n")
            for a in st.split():
                f.write(f"    {sub(a)}\n")
        f.write("backtrace:\n")
        for a in rec.get("backtrace", "").split():
            f.write(f"    {sub(a)}\n")
        f.write(f"events {rec.get('events', '')}\n")
        f.write(f"unshrunk: {len(orig['progl'])} choices, {len(orig['schedl'])} context switches; shrunk: {len(rec['progl'])} choices, {len(rec['schedl'])} context switches\n")
    log(f"{prop}: {rec['kind']}: {sub(rec['msg'])}\n  in {rec.get('desc', '')[:1500]}")


# ------------------------------------------------------------------------------------------- checks
def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--build":
        t = time.time()
        build(sorted({s["tu"] for s in PROPS.values()}))
        log(f"built in {time.time() - t:.1f} s")
        return 0
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        r = parse_record(sys.argv[2])
        exe = build([PROPS[r["prop"]]["tu"]])[(PROPS[r["prop"]]["tu"], r["config"])]
        if r["kind"] == "compile":
            return 3 * compile_violation(r["prop"], exe, os.path.join(VERIF, "replays"))
        if r["kind"] == "hang" or not r.get("mode", "").startswith("replay"):
            pass
        return subprocess.run([exe, "--replay", sys.argv[2], "--verbose"]).returncode
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = PROPS[prop]
    ti = 0 if tier == "quick" else 1
    cases, secs = spec["cases"][ti], spec.get("secs", (60, 600))[ti]
    t0 = time.time()
    bins = build([spec["tu"]])
    tb = time.time() - t0
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    replays = os.path.join(VERIF, "replays")
    tmp = tempfile.mkdtemp(prefix=f"oqpi-{prop}-")
    rc = violations = compile_violation(prop, bins[(spec["tu"], "chk")], replays)
    known_seen = []
    try:
        for k in known_findings(prop):
            exe = bins[(spec["tu"], k.get("config", "chk"))]
            rec = f"{tmp}/known.rec"
            r, txt = run_bin(exe, ["--prop", prop, "--scen", k["scenario"], "--seed", "1", "--from", "0", "--to", str(k.get("cases", 200)), "--secs", "20", "--rec", rec], 60)
            if r == 3 and os.path.exists(rec):
                x = parse_record(rec)
                if x["kind"] in k["kinds"]:
                    print(f"KNOWN-FINDING: property={prop} {k['what']}", flush=True)
                    known_seen.append(k["id"])
                else:
                    os.makedirs(replays, exist_ok=True)
                    path = f"{replays}/{prop}-{k['scenario']}.rec"
                    report(prop, exe, x, path, x)
                    print(f"VIOLATION property={prop} replay={path}", flush=True)
                    rc, violations = 1, violations + 1
            elif r != 0:
                log(f"known finding {k['id']}: exit {r}: {txt[-500:]}")
                return 2
        ex = Explorer(prop, spec, bins, seed, cases, secs, tmp)
        stats, bad = ex.run()
        te = time.time() - t0
        fails = [b for b in bad if b[0] == "fail"]
        hangs = [b for b in bad if b[0] == "hang"]
        errs = [b for b in bad if b[0] == "error"]
        if fails:
            # the failure with the smallest program first
            recs = sorted(((parse_record(b[2]), b) for b in fails), key=lambda x: len(x[0]["progl"]))
            done = False
            for r, b in recs:
                exe = bins[(spec["tu"], b[1])]
                sh = Shrinker(exe, r, tmp, 25 if tier == "quick" else 120)
                ok = sum(1 for _ in range(3) if sh.attempt(r["progl"], r["schedl"]))
                os.makedirs(replays, exist_ok=True)
                path = f"{replays}/{prop}-{r['scenario']}-{r['kind']}.rec"
                if ok == 3:
                    sh.run()
                    report(prop, exe, sh.r, path, r)
                    done = True
                else:
                    # depends on what the process did before: replay the run up to the failing case
                    rec2 = f"{tmp}/prefix.rec"
                    rcs, _ = run_bin(exe, ["--prop", prop, "--seed", r["seed"], "--from", r["from"], "--to", str(int(r["idx"]) + 1), "--step", r["step"], "--rec", rec2], 200)
                    if rcs == 3 and parse_record(rec2)["kind"] == r["kind"]:
                        r["msg"] += f" [replay with: {exe} --prop {prop} --seed {r['seed']} --from {r['from']} --to {int(r['idx']) + 1} --step {r['step']}]"
                        report(prop, exe, r, path, r)
                        done = True
                if done:
                    print(f"VIOLATION property={prop} replay={path}", flush=True)
                    rc, violations = 1, violations + 1
                    break
            if not done:
                log("a failure could not be reproduced: " + recs[0][0]["kind"] + " " + recs[0][0]["msg"])
                return 2
        elif hangs:
            _, conf, frm, idx, scen = hangs[0]
            exe = bins[(spec["tu"], conf)]
            r, txt = run_bin(exe, ["--prop", prop, "--seed", str(seed), "--from", str(idx - idx % NPROC + (frm % NPROC) if False else idx), "--to", str(idx + 64 * NPROC), "--step", str(NPROC)], 300)
            if r == 5 or r == 3:
                os.makedirs(replays, exist_ok=True)
                path = f"{replays}/{prop}-{scen}-hang.rec"
                with open(path, "w") as f:
                    f.write(f"prop {prop}\nscenario {scen}\nconfig {conf}\nseed {seed}\nidx {idx}\nkind hang\nmsg the execution does not terminate\ndesc\n"
                            f"{exe} --prop {prop} --seed {seed} --from {idx} --to {idx + 64 * NPROC} --step {NPROC}\n")
                print(f"VIOLATION property={prop} replay={path}", flush=True)
                rc, violations = 1, violations + 1
            else:
                log("a hang could not be reproduced")
                return 2
        elif errs:
            log(f"errors: {errs}")
            return 2
        ev = sum(s["evaluations"] for s in stats)
        labels, samples = {}, []
        for s in stats:
            for k, v in s["labels"].items():
                labels[k] = labels.get(k, 0) + v
            samples += s["samples"][:1]
        # in passes over parts of the hashes, to bound the memory
        passes, distinct = sum(len(s["hashes"]) for s in stats) // 4000000 + 1, 0
        for k in range(passes):
            part = set()
            for s in stats:
                part.update(s["hashes"] if passes == 1 else [h for h in s["hashes"] if h % passes == k])
            distinct += len(part)
        cov = dict(evaluations=ev, distinct_nontrivial=distinct, rule=spec["rule"] + " Distinct: different (scenario, program choices, sequence of context switches).",
                   samples=samples[:8], exhaustive=False, discarded=sum(s["discarded"] for s in stats), planned=cases,
                   schedule_points=sum(s["points"] for s in stats), context_switches=sum(s["switches"] for s in stats), steps=sum(s["steps"] for s in stats),
                   threads_run=sum(s["threads"] for s in stats), interruptions_injected=sum(s["eintr"] for s in stats),
                   strategies=dict(zip(["random-walk", "pct", "switch-at-block", "round-robin-at-block"], [sum(s["strategies"][i] for s in stats) for i in range(4)])),
                   configs={c: sum(s["evaluations"] for s in stats if s["config"] == c) for c in CONFIGS}, classes=labels,
                   known_findings_observed=known_seen, build_s=round(tb, 1), explore_s=round(te - tb, 1))
        doc = dict(property=prop, tier="thorough" if ti else "quick", seed=seed, level="exploration", coverage=cov,
                   assumptions=COMMON_ASSUMPTIONS + spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=violations)
        path = os.path.join(VERIF, "evidence", f"{prop}.json")
        with open(path + ".tmp", "w") as f:
            json.dump(doc, f, indent=1)
        os.rename(path + ".tmp", path)
        if rc == 0:
            if ev == 0:
                log("nothing was explored")
                return 2
            print(f"OK property={prop} cases={ev} distinct_nontrivial={distinct} wall={time.time() - t0:.1f}s", flush=True)
        return rc
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
