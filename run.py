#!/usr/bin/env python3
"""Runs one check: run.py <property> quick|thorough [--case NAME] [--shards N] [--keep]

Builds the harness against /repo's working tree, runs it in parallel worker processes, merges what the
monitors observed into evidence/<property>.json and prints the verdict:
  exit 0  the property held on everything observed
  exit 1  VIOLATION property=<id> replay=<path>
  exit 2  no answer (the tree does not build, a worker ran out of time or memory, too little was observed)
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402


def env():
    e = dict(os.environ)
    e["PATH"] = e.get("PATH", "") + ":/usr/local/go/bin"
    e.update(GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local", GONOSUMDB="*", GONOSUMCHECK="1")
    # the environment the repository is built in
    if os.path.exists("/opt/vp/env.sh"):
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True).stdout
        for kv in out.split(b"\0"):
            k, _, v = kv.decode(errors="replace").partition("=")
            if k in ("PATH", "GOROOT", "GOPATH", "GOMODCACHE", "GOCACHE", "GOTOOLCHAIN", "CGO_ENABLED", "CC", "CXX"):
                e[k] = v
    return e


def fail_no_answer(msg):
    print("NO ANSWER: " + msg)
    sys.exit(2)


def build(pkg, race, work, e):
    out = os.path.join(work, pkg + ".test")
    cmd = ["go", "test", "-c", "-tags", "verif", "-vet=off", "-buildvcs=false", "-o", out]
    if race:
        cmd.append("-race")
    cmd.append("./" + pkg)
    r = subprocess.run(cmd, cwd=os.path.join(HERE, "harness"), env=e, capture_output=True, text=True)
    if r.returncode != 0:
        print(r.stdout + r.stderr)
        fail_no_answer("the harness does not build against /repo")
    return out


def repo_stack(text):
    """The first stack with a frame of the repository after a crash message."""
    return re.search(r"(?m)^\s*github\.com/jik18001/CTngV2/", text) is not None


def crash_of(stderr, rc):
    """A violation if the worker died because of the code under test, None if the death says nothing about it."""
    for pat in (r"(?m)^panic: .*", r"(?m)^fatal error: .*", r"(?m)^runtime: .*overflow.*"):
        m = re.search(pat, stderr)
        if m:
            tail = stderr[m.start():]
            if "out of memory" in m.group(0):
                return None
            if "deadlock: main bubble goroutine" in m.group(0) or "synctest" in m.group(0):
                # goroutines of the bubble that never end: a lock that is never released, if one of them waits for one
                if re.search(r"\[(sync\.(RW)?Mutex\.(R)?Lock|semacquire)[^\]]*\]", tail) and repo_stack(tail):
                    return "deadlock: " + m.group(0)
                return None
            # only the stack of the goroutine that crashed
            first = tail.split("\n\ngoroutine ")
            head = "\n\ngoroutine ".join(first[:2])
            if repo_stack(head):
                return m.group(0)
            return None
    if rc == 1:
        return "the code ended the process"  # log.Fatal, os.Exit
    return None


def races_of(work, i):
    out = []
    for f in sorted(os.listdir(work)):
        if not f.startswith("race%d." % i):
            continue
        text = open(os.path.join(work, f), errors="replace").read()
        for block in re.split(r"={18}\n", text):
            if "WARNING: DATA RACE" not in block:
                continue
            # the two accesses; where the goroutines were created does not count
            acc = block.split("\nGoroutine ")[0]
            parts = re.split(r"(?m)^(?:Previous |\s*Previous )", acc)
            fr = [re.findall(r"(?m)^  ((?:github\.com/jik18001/CTngV2|ctngverif)/\S+?)\(", p) for p in parts]
            # both accesses go through the repository's code and the harness is not the one that touches the data directly
            ok = len(fr) >= 2 and all(x and x[0].startswith("github.com/jik18001/CTngV2/") for x in fr)
            out.append((ok, block.strip()))
    return out


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    args = sys.argv[3:]
    spec = CHECKS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    e = env()
    shards = spec.get("shards", 8)
    case = None
    keep = "--keep" in args
    if "--case" in args:
        case = args[args.index("--case") + 1]
        shards = 1
    if "--shards" in args:
        shards = int(args[args.index("--shards") + 1])
    limit = spec.get("limit", {}).get(tier, 780 if tier == "quick" else 3600)
    work = tempfile.mkdtemp(prefix="ctngverif-" + prop + "-")
    procs = []

    def cleanup():
        for p, *_ in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
        if not keep:
            shutil.rmtree(work, ignore_errors=True)

    try:
        race = spec.get("race", False)
        binary = build(spec["pkg"], race, work, e)
        t_build = time.time() - t0
        for i in range(shards):
            out = os.path.join(work, "w%d" % i)
            os.makedirs(out)
            we = dict(e)
            we.update(VERIF_TIER=tier, VERIF_SEED=str(seed), VERIF_SHARD="%d/%d" % (i, shards), VERIF_OUT=out,
                      GORACE="halt_on_error=0 exitcode=0 atexit_sleep_ms=0 history_size=3 log_path=%s/race%d" % (work, i),
                      GOMAXPROCS=str(spec.get("procs", 4)), GOTRACEBACK="all", GOMEMLIMIT="3GiB")
            if case:
                we["VERIF_CASE"] = case
            err = open(os.path.join(out, "stderr"), "wb")
            p = subprocess.Popen([binary, "-test.run", "^Test%s$" % prop, "-test.timeout", "0"], cwd=out, env=we,
                                 stdout=err, stderr=err, stdin=subprocess.DEVNULL, start_new_session=True)
            procs.append((p, out, err))
        deadline = t0 + limit
        timed_out = []
        for i, (p, out, err) in enumerate(procs):
            try:
                p.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                timed_out.append(i)
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
            err.close()

        merged = dict(evaluations=0, distinct=set(), counters={}, samples=[])
        violations, errors, continue_ok = [], [], []
        for i, (p, out, _) in enumerate(procs):
            res = {}
            try:
                res = json.load(open(os.path.join(out, "result.json")))
            except Exception:
                pass
            stderr = open(os.path.join(out, "stderr"), errors="replace").read()
            merged["evaluations"] += res.get("evaluations", 0)
            merged["distinct"] |= set(res.get("distinct") or [])
            for k, v in (res.get("counters") or {}).items():
                merged["counters"][k] = merged["counters"].get(k, 0) + v
            merged["samples"] += (res.get("samples") or [])[:2]
            violations += res.get("violations") or []
            if not res.get("done"):
                cur = ""
                try:
                    cur = open(os.path.join(out, "current")).read()
                except Exception:
                    pass
                what = None
                if i in timed_out or p.returncode in (4, 5):
                    pass
                elif p.returncode is not None and p.returncode < 0:
                    pass
                elif race and "race detected during execution of test" in stderr and p.returncode == 1:
                    # a report ended the test; it is judged below
                    if any(ok for ok, _ in races_of(work, i)):
                        continue_ok.append(i)
                else:
                    what = crash_of(stderr, p.returncode)
                if what:
                    violations.append(dict(case=cur, what="the process died: " + what, detail=stderr[-20000:]))
                elif p.returncode != 5 and i not in continue_ok:
                    errors.append("worker %d did not finish (case %s, exit %s%s)\n%s" % (
                        i, cur, p.returncode, ", out of time" if i in timed_out else "", stderr[-3000:]))
            if race:
                seen = set()
                for ok, block in races_of(work, i):
                    merged["counters"]["race_reports"] = merged["counters"].get("race_reports", 0) + 1
                    key = re.sub(r"0x[0-9a-f]+|:\d+|\+0x\w+|goroutine \d+|by \S+ \d+", "", block)
                    if key in seen:
                        continue
                    seen.add(key)
                    if ok:
                        violations.append(dict(case=res.get("case", ""), what="data race", detail=block))
                    else:
                        merged["counters"]["race_reports_in_harness"] = merged["counters"].get("race_reports_in_harness", 0) + 1
    finally:
        cleanup()

    known = {}
    kf = os.path.join(HERE, "known-findings.json")
    if os.path.exists(kf):
        for f in json.load(open(kf))["known"]:
            if f["property"] == prop:
                known[f["id"]] = f
    hit = sorted({v["known"] for v in violations if v.get("known") in known})
    real = [v for v in violations if v.get("known") not in known]

    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    level = spec.get("level", "exploration")
    ev = dict(property=prop, tier=tier, seed=seed, level=level,
              coverage=dict(evaluations=merged["evaluations"], distinct_nontrivial=len(merged["distinct"]), rule=spec["rule"],
                            samples=merged["samples"][:6], observed=dict(sorted(merged["counters"].items())), workers=shards,
                            race_detector=bool(race), build_s=round(t_build, 1)),
              assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=len(real))
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")

    for k in hit:
        print("KNOWN-FINDING: property=%s %s" % (prop, known[k]["what"]))
    if real:
        path = os.path.join(HERE, "evidence", "replay", "%s-%s.json" % (prop, tier))
        with open(path, "w") as f:
            json.dump(dict(property=prop, tier=tier, seed=seed, violations=real[:20],
                           replay="VERIF_SEED=%d python3 run.py %s %s --case '%s'" % (seed, prop, tier, real[0].get("case", ""))), f, indent=1)
        for v in real[:3]:
            print("case %s: %s" % (v.get("case", ""), v["what"][:1500]))
            if v.get("detail"):
                print("   " + v["detail"][:1500].replace("\n", "\n   "))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    if errors:
        for x in errors[:3]:
            print(x)
        fail_no_answer("%d of %d workers did not finish" % (len(errors), shards))
    if case is None:
        for k, least in spec.get("least", {}).items():
            if merged["counters"].get(k, 0) < least:
                fail_no_answer("too little was observed: %s = %d, expected at least %d" % (k, merged["counters"].get(k, 0), least))
        if not merged["evaluations"] or not merged["distinct"]:
            fail_no_answer("nothing was observed")
    print("%s %s: held on %d cases (%d distinct and non-trivial), %s, %.1f s" % (
        prop, tier, merged["evaluations"], len(merged["distinct"]),
        ", ".join("%s=%d" % kv for kv in sorted(merged["counters"].items())), time.time() - t0))
    sys.exit(0)


if __name__ == "__main__":
    main()
