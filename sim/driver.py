#!/usr/bin/env python3
"""Builds the simulator from /repo's working tree, searches seeds, minimises
and reports.

  driver.py ID [quick|thorough]      search
  driver.py ID replay FILE           run a replay file again
  driver.py build                    only build (setup)

Exit: 0 held on everything explored, 1 violated (VIOLATION line), 2 the check
itself failed.
"""
import concurrent.futures as cf
import copy
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VSIM_REPO", "/repo")
GO = "/opt/veriftools/go1.26.10/bin"
WORKERS = int(os.environ.get("VSIM_WORKERS", "8"))
# Properties about concurrent access: part of their runs use a build with Go's
# happens-before race detector over the repository's packages.
RACE = {"C14"}
LISTS = ["acts", "faults", "tx_fates", "trigs", "moments", "sites", "reqs", "fin", "peers", "ops"]

# What of the system is real in a run, and what is simulated.
REAL = ["main() of /repo: start-up, main loop, signal handling", "config, oracle (state, accounting, checkpoints, persistence, merklelizer), utils, api, metrics packages",
        "go-eth2-client http client", "go-ethereum ethclient, rpc, abi, contract bindings, keystore, transaction signing", "gorilla/mux and net/http handlers", "logrus", "encoding/json, net/http client above the transport"]
STUB = ["disk (in-memory, with crash and error model)", "clocks and timers (testing/synctest)", "goroutine scheduling (seeded)", "http transport and listening socket (simulated network)", "beacon node, execution node, pool contract, relays (models)", "other oracles of the pool that the plan lists as peers (models)", "signals, process start and exit", "random sources (seeded)"]


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def goenv():
    e = {k: v for k, v in os.environ.items() if not k.startswith("VSIM_") and k not in ("GOROOT", "GOWORK", "GOFLAGS", "GOOS", "GOARCH", "GODEBUG", "GOMAXPROCS")}
    e.update(PATH=GO + ":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", HOME="/root", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOTOOLCHAIN="local",
             GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", CGO_ENABLED="1", GOEXPERIMENT="norandomizedheapbase64", GOCACHE=os.environ.get("VSIM_GOCACHE", "/root/.cache/verif-go"), GOWORK="off")
    return e


class BuildError(Exception):
    pass


def build(scratch, race=False):
    """The simulator, and with race also one built with the race detector."""
    env = goenv()
    gen = os.path.join(scratch, "simgen")
    ov = os.path.join(scratch, "ov")
    os.makedirs(ov)

    def sh(cmd, cwd):
        r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError("%s: %s" % (" ".join(cmd), r.stdout[-4000:]))

    sh(["go", "build", "-o", gen, "."], os.path.join(HERE, "gen"))
    sh([gen, "-repo", REPO, "-out", ov, "-harness", os.path.join(HERE, "harness")], REPO)
    # Copies, because -mod=mod may rewrite them.
    shutil.copy(os.path.join(REPO, "go.mod"), os.path.join(ov, "go.mod"))
    shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(ov, "go.sum"))
    out = os.path.join(scratch, "sim.test")
    sh(["go", "test", "-c", "-ldflags=-s -w", "-modfile", os.path.join(ov, "go.mod"), "-overlay", os.path.join(ov, "overlay.json"), "-o", out, "."], REPO)
    if race:
        # Only the repository's packages and the numbers they share are
        # watched; the main package is left out, as the harness is in it.
        m, plain = module(), "-d=checkptr=0"
        flags = ["-gcflags=%s=%s" % x for x in (("all", "-race=false " + plain), (m + "/...", plain), (m, "-race=false " + plain), ("math/big", plain), ("sync/...", plain), ("internal/sync", plain))]
        sh(["go", "test", "-c", "-race", *flags, "-modfile", os.path.join(ov, "go.mod"), "-overlay", os.path.join(ov, "overlay.json"), "-o", out + "-race", "."], REPO)
    shutil.rmtree(ov)
    return out


def module():
    with open(os.path.join(REPO, "go.mod")) as f:
        return re.search(r"^module (\S+)", f.read(), re.M).group(1)


def races(text):
    """Pairs of unordered accesses, both of them in the repository's own code."""
    found = {}
    for blk in text.split("WARNING: DATA RACE")[1:]:
        blk = blk.split("==================")[0]
        acc = []
        for sec in blk.split("\n\n"):
            h = sec.strip().split("\n")[0]
            m = re.match(r"(?:Previous )?(?:atomic )?(read|write) at", h, re.I)
            if not m:
                continue
            own, deep = None, False
            for fn, fi, ln in re.findall(r"\n  (\S+)\(\)?.*\n\s+(\S+):(\d+)", sec):
                if own is None and not fi.startswith(REPO + "/") and not re.match(r"(internal/)?(runtime|reflect|math/big|maps|slices|sort)\b", fn):
                    # A library's own data, or the repository's reached by reflection.
                    if not deep:
                        break
                deep = deep or fn.startswith("reflect.")
                if fi.startswith(REPO + "/"):
                    own = (os.path.relpath(fi, REPO), int(ln), fn.split("/")[-1])
                    break
            acc.append((m.group(1).lower(), own))
        if len(acc) != 2 or any(o is None or os.path.basename(o[0]).startswith("zz_") for _, o in acc):
            continue  # the harness looking on
        k = tuple(sorted("%s at %s:%d in %s" % (a, o[0], o[1], o[2]) for a, o in acc))
        found.setdefault(k, blk)
    return found


class Runner:
    count = 0
    lock = threading.Lock()

    def __init__(self, scratch, binary, race=False):
        self.scratch, self.bin, self.race = scratch, binary, race
        self.cwd = os.path.join(scratch, "cwd")
        os.makedirs(self.cwd, exist_ok=True)

    def tmp(self):
        with self.lock:
            Runner.count += 1
            return os.path.join(self.scratch, "r%d" % Runner.count)

    def run(self, prop=None, seed=None, plan=None, trace=False, timeout=120, full=False):
        """One simulated run. Returns the result, with 'error' or 'crash'."""
        t = self.tmp()
        env = {"PATH": "/usr/bin:/bin", "HOME": self.scratch, "GOMAXPROCS": "1", "GODEBUG": "asyncpreemptoff=1", "VSIM_ROLE": "worker", "VSIM_OUT": t + ".o", "GOTRACEBACK": "single", "TZ": "UTC"}
        if plan is not None:
            with open(t + ".p", "w") as f:
                json.dump(plan, f)
            env["VSIM_PLAN"] = t + ".p"
        else:
            env["VSIM_PROP"], env["VSIM_SEED"] = prop, str(seed)
        if trace:
            env["VSIM_TRACE"] = "1"
        if full:
            env["VSIM_FULL"] = "1"
        if self.race:
            timeout *= 3
            env["GORACE"] = "halt_on_error=0 history_size=3"
        t0 = time.time()
        with open(t + ".l", "wb") as lf:
            p = subprocess.Popen([self.bin, "-test.run", "TestSim", "-test.timeout", "0"], env=env, cwd=self.cwd, stdout=lf, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True)
            try:
                rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                p.send_signal(signal.SIGQUIT)
                try:
                    p.wait(10)
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.wait()
                rc = None
        wall = time.time() - t0
        with open(t + ".l", "rb") as f:
            text = f.read(20_000_000 if self.race else 400_000).decode("utf-8", "replace")
        res = None
        if os.path.exists(t + ".o"):
            try:
                with open(t + ".o") as f:
                    res = json.load(f)
            except ValueError:
                pass
        for x in (".o", ".p", ".l"):
            try:
                os.remove(t + x)
            except OSError:
                pass
        if res is None:
            res = {"viol": []}
            if rc is None:
                res["hang"] = text[:6000]
            else:
                ours, short = stack_of_repo(text)
                if ours:
                    res["crash"] = short
                else:
                    res["error"] = "rc=%s\n%s" % (rc, text[-3000:] if not short else short)
        res["viol"] = res.get("viol") or []
        if res.get("crash"):
            res["viol"].append({"Mon": "crash", "Msg": "the process crashed: " + res["crash"][:2500], "At": 0})
        if self.race:
            for k, blk in sorted(races(text).items()):
                res["viol"].append({"Mon": "race", "Msg": "unsynchronised accesses: " + " and ".join(k) + "\n" + blk[:2000], "At": 0})
        res["wall"] = wall
        res["rc"] = rc
        return res


def stack_of_repo(s):
    """Whether the failing goroutine was running the repository's code."""
    i = min([x for x in (s.find("panic:"), s.find("fatal error:")) if x >= 0], default=-1)
    if i < 0:
        return False, ""
    s = s[i:]
    j = s.find("\ngoroutine ")
    if j >= 0:
        k = s.find("\n\n", j + 1)
        if k > 0:
            s = s[:k]
    s = s[:6000]
    if "harness:" in s[:400] or "reference model" in s[:400]:
        return False, s
    ours = False
    for l in s.split("\n"):
        l = l.strip()
        if not l.startswith("/"):
            continue
        if "zz_verif_" in l:
            return ours, s
        if l.startswith(REPO + "/") or re.search(r"/f\d{3}_", l):
            ours = True
    return ours, s


def findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def matches(finding, v):
    mons = finding["monitor"] if isinstance(finding["monitor"], list) else [finding["monitor"]]
    return v["Mon"] in mons and re.search(finding["match"], v["Msg"]) is not None


def signature(v):
    return v["Mon"]


def has(res, sig):
    return any(signature(v) == sig for v in res["viol"])


def minimise(runner, plan, sig, budget, pool):
    """ddmin over the plan's lists, keeping a violation of the same monitor."""
    end = time.time() + budget
    best = copy.deepcopy(plan)

    def tests(cands):
        """index of the first candidate that still fails, or None"""
        fs = [pool.submit(runner.run, plan=c, timeout=60) for c in cands]
        hit = None
        for i, f in enumerate(fs):
            r = f.result()
            if hit is None and has(r, sig):
                hit = i
        return hit

    def attempt(mod):
        nonlocal best
        c = copy.deepcopy(best)
        mod(c)
        if c != best and time.time() < end and tests([c]) is not None:
            best = c
            return True
        return False

    for k in LISTS:  # drop whole lists first
        if best.get(k) and time.time() < end:
            attempt(lambda c: c.__setitem__(k, []))
    attempt(lambda c: c.__setitem__("pre_mean", 0))
    attempt(lambda c: c.__setitem__("lat_max_ms", 0))
    for k in LISTS:
        n = 2
        while best.get(k) and time.time() < end:
            l = best[k]
            n = min(n, len(l))
            size = (len(l) + n - 1) // n
            chunks = [(i, i + size) for i in range(0, len(l), size)]
            found = False
            for b in range(0, len(chunks), WORKERS):
                if time.time() > end:
                    break
                cands = []
                for a, z in chunks[b:b + WORKERS]:
                    c = copy.deepcopy(best)
                    c[k] = l[:a] + l[z:]
                    cands.append(c)
                h = tests(cands)
                if h is not None:
                    best = cands[h]
                    found = True
                    n = max(n - 1, 2)
                    break
            if not found:
                if size == 1:
                    break
                n = min(len(l), n * 2)
    return best


def short_plan(p):
    return {k: p[k] for k in ("prop", "seed", "net", "deploy", "start", "len", "settle", "cp", "fee", "quorum", "pre_mean", "lat_max_ms")} | {k: len(p.get(k) or []) for k in LISTS + ["vals", "nodes"]}


def write_replay(prop, plan, res, v, race=False):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(json.dumps(plan, sort_keys=True).encode()).hexdigest()[:12]
    path = os.path.join(d, "%s-%s-%s.json" % (prop, plan["seed"], h))
    with open(path, "w") as f:
        json.dump({"property": prop, "monitor": v["Mon"], "message": v["Msg"], "at_s": v["At"] / 1e9, "log": str(res.get("log")), "race_detector": race, "plan": plan, "trace": res.get("trace") or []}, f, indent=1)
        f.write("\n")
    return path


def do_replay(prop, path):
    with open(path) as f:
        r = json.load(f)
    scratch = tempfile.mkdtemp(prefix="vsim-")
    try:
        race = bool(r.get("race_detector"))
        runner = Runner(scratch, build(scratch, race) + ("-race" if race else ""), race)
        res = runner.run(plan=r["plan"], trace=True, timeout=240)
        for l in res.get("trace") or []:
            if "VIOLATE" in l or os.environ.get("VSIM_SHOW"):
                print(l)
        for v in res["viol"]:
            print("%.3f s  %s: %s" % (v["At"] / 1e9, v["Mon"], v["Msg"]))
        same = str(res.get("log")) == r.get("log")
        print("recorded log %s, this run %s%s" % (r.get("log"), res.get("log"), "" if same else " (different: the code has changed)"))
        if has(res, r["monitor"]):
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        if res.get("error"):
            log(res["error"])
            return 2
        print("not violated")
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def search(prop, tier):
    t0 = time.time()
    base = int(os.environ.get("VERIF_SEED", "1"))
    budget = float(os.environ.get("VSIM_BUDGET", "0")) or (70.0 if tier == "quick" else 600.0)
    scratch = tempfile.mkdtemp(prefix="vsim-")
    pool = cf.ThreadPoolExecutor(WORKERS)
    try:
        try:
            binary = build(scratch, prop in RACE)
        except BuildError as e:
            log("build failed:", e)
            return 2
        built = time.time() - t0
        runner = Runner(scratch, binary)
        known = [f for f in findings() if prop in f["properties"]]

        # Known findings first: each still shows itself, or is gone.
        shown = []
        early = 0
        for f in known:
            with open(os.path.join(VERIF, f["replay"])) as fh:
                plan = json.load(fh)["plan"]
            r = runner.run(plan=plan, timeout=240)
            if any(matches(f, v) for v in r["viol"]):
                shown.append(f["id"])
                print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]), flush=True)
            other = next((v for v in r["viol"] if not matches(f, v)), None)
            if other is not None:
                again = runner.run(plan=plan, trace=True, timeout=240)
                v = next((v for v in again["viol"] if not matches(f, v)), None)
                if v is not None:
                    path = write_replay(prop, plan, again, v)
                    print("%s: %s: %s" % (f["replay"], v["Mon"], v["Msg"][:1500]))
                    print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
                    early = 1

        stop = threading.Event()
        lock = threading.Lock()
        st = {"next": 0}
        results, errors, bad = [], [], []
        s0 = time.time()
        agg = {"counts": {}, "odd": {}, "flows": set(), "kinds": set(), "logs": set(), "nontrivial": set()}
        tot = {"runs": 0, "checks": 0, "views": 0, "sim": 0.0, "pre": 0, "consol": 0, "slots": 0, "events": 0, "cpu": 0.0, "race": 0}
        samples = []
        repeat = {"runs": 0, "different": 0}

        racer = Runner(scratch, binary + "-race", True) if prop in RACE else None

        def one(i, runner):
            seed = base * 1_000_000 + i
            r = runner.run(prop=prop, seed=seed)
            if r.get("hang"):
                r2 = runner.run(prop=prop, seed=seed, timeout=300)
                if r2.get("hang"):
                    r2["viol"].append({"Mon": "hang", "Msg": "the run makes no progress: " + r2["hang"][:2500], "At": 0})
                r = r2
            if i < 4 and runner is not racer and not r.get("error"):
                r2 = runner.run(prop=prop, seed=seed)
                with lock:
                    repeat["runs"] += 1
                    if r2.get("log") != r.get("log"):
                        repeat["different"] += 1
            return seed, r

        def worker():
            while not stop.is_set() and time.time() - s0 < budget:
                # Half of the time for each of the two builds.
                by = racer if racer and time.time() - s0 > budget / 2 else runner
                with lock:
                    i = st["next"]
                    st["next"] += 1
                seed, r = one(i, by)
                with lock:
                    if by is racer:
                        tot["race"] += 1
                    tot["cpu"] += r["wall"]
                    if r.get("error") and not r["viol"]:
                        errors.append((seed, r["error"]))
                        continue
                    tot["runs"] += 1
                    for a, b in (("checks", "checks"), ("views", "views"), ("sim", "sim_s"), ("pre", "pre"), ("consol", "consolidations"), ("slots", "slots"), ("events", "events")):
                        tot[a] += r.get(b) or 0
                    for k in ("counts", "odd"):
                        for a, b in (r.get(k) or {}).items():
                            agg[k][a] = agg[k].get(a, 0) + b
                    agg["flows"].update(r.get("flows") or [])
                    agg["kinds"].update(r.get("kinds") or [])
                    agg["logs"].add(r.get("log"))
                    if r.get("checks") and any(k.startswith("transition") for k in r.get("odd") or {}) and nontrivial(prop, r):
                        agg["nontrivial"].add(r.get("log"))
                    if len(samples) < 3:
                        samples.append({"seed": seed, "plan": r.get("plan_summary"), "log": str(r.get("log")), "events": r.get("events"), "counts": r.get("counts"), "chain": r.get("odd"), "simulated_s": r.get("sim_s")})
                    for v in r["viol"]:
                        # Seeds never make the inputs of known findings, so nothing is excused here.
                        bad.append((seed, v, by))
                        stop.set()
                        break

        code = reported = early
        unreproduced = []
        mbudget = float(os.environ.get("VSIM_MINIMISE", "45" if tier == "quick" else "300"))
        while True:
            for t in [pool.submit(worker) for _ in range(WORKERS)]:
                t.result()
            if not bad:
                break
            for seed, v, by in bad:
                plan = json.loads(subprocess.run([by.bin], env={"PATH": "/usr/bin:/bin", "HOME": scratch, "VSIM_ROLE": "plan", "VSIM_PROP": prop, "VSIM_SEED": str(seed), "TZ": "UTC"}, cwd=by.cwd, stdout=subprocess.PIPE).stdout)
                sig = signature(v)
                for _ in range(4 if sig == "race" else 1):  # the detector forgets old accesses at random
                    again = by.run(plan=plan, timeout=300)
                    if again.get("hang"):
                        again["viol"].append(dict(v))
                    if has(again, sig):
                        break
                if not has(again, sig):
                    unreproduced.append({"seed": seed, "monitor": v["Mon"], "message": v["Msg"][:500]})
                    continue
                small = plan
                if sig != "hang":
                    small = minimise(by, plan, sig, mbudget, pool)
                r1 = by.run(plan=small, trace=True, timeout=300)
                if not has(r1, sig) and sig != "hang":
                    small = plan
                    r1 = by.run(plan=small, trace=True, timeout=300)
                vv = next((x for x in r1["viol"] if signature(x) == sig), v)
                path = write_replay(prop, small, r1, vv, by.race)
                print("seed %d: %s: %s" % (seed, vv["Mon"], vv["Msg"][:1500]))
                print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
                reported += 1
                code = 1
                break
            if reported > early or time.time() - s0 > budget:
                break
            bad.clear()
            stop.clear()
        wall = time.time() - s0
        evidence(prop, tier, base, tot, agg, samples, errors, repeat, wall, time.time() - t0, built, reported, shown, unreproduced)
        if unreproduced:
            log("not reproduced:", json.dumps(unreproduced)[:2000])
        if errors:
            log("%d runs failed in the harness itself, e.g. seed %s: %s" % (len(errors), errors[0][0], errors[0][1][-1500:]))
        if code == 0 and tot["runs"] == 0:
            return 2
        return code
    finally:
        pool.shutdown(wait=False, cancel_futures=True)
        shutil.rmtree(scratch, ignore_errors=True)


def nontrivial(prop, r):
    return True


RULES = {}


def evidence(prop, tier, seed, tot, agg, samples, errors, repeat, wall, total, built, violations, shown, unreproduced):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    faults = {k: v for k, v in sorted(agg["counts"].items())}
    cov = {
        "evaluations": tot["runs"],
        "distinct_nontrivial": len(agg["nontrivial"]),
        "rule": "One evaluation is one simulated run of the whole oracle from one seed. It is non-trivial if it compared at least one complete state with the reference model and at least one validator changed status on its chain; distinct runs are those with different event logs.",
        "samples": samples,
        "runs_per_hour": round(tot["runs"] / max(wall, 1e-9) * 3600),
        "seeds": [seed * 1_000_000, seed * 1_000_000 + tot["runs"]],
        "simulated_hours": round(tot["sim"] / 3600, 2),
        "slots_processed": tot["slots"],
        "logged_events": tot["events"],
        "complete_states_compared": tot["checks"],
        "api_answers_compared": tot["views"],
        "checkpoints_consolidated": tot["consol"],
        "runs_with_race_detector": tot["race"],
        "preemptions": tot["pre"],
        "injected_and_observed": faults,
        "chain_happenings": dict(sorted(agg["odd"].items())),
        "status_transitions_reached": sorted(agg["flows"]),
        "distinct_event_successions": len(agg["kinds"]),
        "distinct_event_successions_measure": "pairs of consecutive events (host, kind of operation) seen in any run's log",
        "distinct_executions": len(agg["logs"]),
        "repeated_for_determinism": repeat,
        "not_reproduced": unreproduced,
        "harness_errors": len(errors),
        "known_findings_shown": shown,
        "real_components": REAL,
        "simulated_components": STUB,
        "build_s": round(built, 1),
        "search_s": round(wall, 1),
    }
    e = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
         "assumptions": ["the reference model (sim/harness/ref.go) states the pool's rules correctly", "the simulated beacon node, execution node and contract behave as the real ones do where the oracle looks", "a run is decided by its seed: re-runs give the same event log (repeated_for_determinism)"],
         "wall_s": round(total, 1), "violations": violations}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(e, f, indent=1)
        f.write("\n")


def main():
    if len(sys.argv) == 2 and sys.argv[1] == "build":
        scratch = tempfile.mkdtemp(prefix="vsim-")
        try:
            build(scratch, True)
        except BuildError as e:
            log(e)
            return 2
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        return 0
    prop = sys.argv[1]
    if len(sys.argv) > 3 and sys.argv[2] == "replay":
        return do_replay(prop, sys.argv[3])
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    return search(prop, tier)


if __name__ == "__main__":
    sys.exit(main())
