#!/usr/bin/env python3
"""Decide one property: build the runner from /repo's working tree, search, shrink, replay, report.

  run_check.py C01 [--replay FILE]

Environment: VERIF_SEED (default 1), VERIF_TIER (quick or thorough, default quick).
Exit 0: held on everything explored; 1: VIOLATION line; 2: error of the check itself.
"""
import glob
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vpbuild as vb  # noqa: E402

VERIF = vb.VERIF
ENGINE = ["main.cpp", "engine.cpp", "libbuf.cpp"]

# units: harness sources; cases: per worker in the quick tier; secs: upper bound of the search in the quick tier.
PROPS = {
    "C01": dict(units=["p_codec.cpp", "sweep.cpp"], cases=40000),
    "C04": dict(units=["p_codec.cpp", "sweep.cpp"], cases=30000),
    "C05": dict(units=["p_codec.cpp", "sweep.cpp"], cases=36000),
    "C02": dict(units=["p_decode.cpp", "sweep.cpp"], cases=24000),
    "C03": dict(units=["p_decode.cpp", "sweep.cpp"], cases=60000),
    "C06": dict(units=["p_decode.cpp", "sweep.cpp"], cases=80000),
    "C07": dict(units=["p_decode.cpp", "sweep.cpp"], cases=25000),
    "C08": dict(units=["p_decode.cpp", "sweep.cpp"], cases=45000),
    "C09": dict(units=["p_state.cpp", "sweep.cpp"], cases=20000),
    "C10": dict(units=["p_state.cpp", "sweep.cpp"], cases=16000),
    "C11": dict(units=["p_state.cpp", "sweep.cpp"], cases=14000, build=dict(std="c++20")),
    "C12": dict(units=["p_fields.cpp"], cases=120000, schema=False, engine=False, build=dict(opt="-O0")),
    "C13": dict(units=["p_buffers.cpp"], cases=240000, schema=False, engine=False),
    "C15": dict(units=["p_wire.cpp"], cases=900000, schema=False, engine=False),
    "C14": dict(units=["p_fault.cpp", "sweep.cpp"], cases=1800, level="fault_enumeration"),
    "C18": dict(units=["p_text.cpp", "sweep.cpp"], cases=8000, build=dict(std="c++17", defines=["MSG_TO_STRING"])),
    "C19": dict(units=["p_heap.cpp", "p_codec.cpp", "p_decode.cpp", "p_state.cpp", "p_fault.cpp", "p_text.cpp", "sweep.cpp"], cases=60000, build=dict(san=[], opt="-O0", std="c++17", defines=["MSG_TO_STRING"])),
    "C20": dict(units=["p_indep.cpp"], cases=8000, fuzz=False, build=dict(san=["-fsanitize=thread"])),
}
# Searched again with an optimising build by another compiler and without sanitizers, which also is a lot faster.
for _p, _n in dict(C01=4, C02=3, C03=3, C04=3, C05=3, C07=1, C08=3, C09=3, C10=2, C11=2, C12=2, C13=2, C15=3).items():
    PROPS[_p]["optimised"] = _n     # times as many cases
LEVEL = "exploration"
QUICK_CAP = 150.0
THOROUGH_SECS = float(os.environ.get("VERIF_THOROUGH_SECS", "900"))     # random search; half of it again for coverage guided search
FUZZ_LIB = "/usr/lib/llvm-18/lib/clang/18/lib/linux/libclang_rt.fuzzer_no_main-x86_64.a"


def say(*a):
    print(*a)
    sys.stdout.flush()


def known_findings(pid):
    out = {}
    for line in open(os.path.join(VERIF, "known_findings.jsonl")):
        line = line.strip()
        if line:
            d = json.loads(line)
            if d.get("property") == pid and d.get("status") == "known":
                out[d["id"]] = d
    return out


def build_for(pid, cfg, fuzz=False, optimised=False):
    kw = dict(cfg.get("build", {}))
    if optimised:
        kw.update(cxx="g++", opt="-O2" if pid == "C12" else "-O3", glue_opt="-O2", san=[])
    if fuzz:
        kw.update(extra_flags=["-fsanitize=fuzzer-no-link"], extra_libs=["-Wl,-u,LLVMFuzzerRunDriver", FUZZ_LIB, "-ldl", "-lm"])
    return vb.build(pid + ("-fuzz" if fuzz else ""), (ENGINE if cfg.get("engine", True) else ["main.cpp"]) + cfg["units"], schema=cfg.get("schema", True), **kw)


def env():
    e = dict(os.environ)
    for k in ("ASAN_OPTIONS", "UBSAN_OPTIONS", "TSAN_OPTIONS", "LSAN_OPTIONS"):
        e.pop(k, None)
    return e


class Worker:
    def __init__(self, exe, args, errpath, timeout):
        self.errpath = errpath
        self.p = subprocess.Popen([exe] + args, stdout=subprocess.DEVNULL, stderr=open(errpath, "wb"), env=env())
        self.deadline = time.time() + timeout


def read(path, n=8000):
    try:
        return open(path, "rb").read()[:n].decode("utf-8", "replace")
    except OSError:
        return ""


def run_search(exe, pid, seed, nworkers, cases, secs, thorough, tmp, fuzz=False):
    """Returns (failures, stats): failures is a list of dicts for workers which ended badly."""
    ws = []
    rnd = random.Random(seed * 7919 + 1)
    for w in range(nworkers):
        args = ["--prop", pid, "--seed", str(seed), "--worker", str(w), "--workers", str(nworkers), "--secs", str(secs), "--stats", "%s/s%d" % (tmp, w), "--fail", "%s/f%d" % (tmp, w)]
        if cases:
            args += ["--cases", str(cases)]
        if thorough:
            args.append("--thorough")
        if fuzz:
            d = "%s/corpus%d" % (tmp, w)
            os.makedirs(d)
            for i in range(300):
                with open("%s/%d" % (d, i), "wb") as h:
                    h.write(rnd.randbytes(rnd.choice([20, 60, 200, 600, 1500])))
            args += ["--fuzz", d]
        ws.append(Worker(exe, args, "%s/e%d" % (tmp, w), secs * 2 + 3600))
    failures, pending, stop_at = [], dict(enumerate(ws)), None
    while pending:
        for w, k in list(pending.items()):
            rc = k.p.poll()
            if rc is None:
                if time.time() > k.deadline:
                    k.p.kill(); k.p.wait()
                    del pending[w]
                    failures.append(dict(worker=w, rc="timeout", err=read(k.errpath), fail=read("%s/f%d" % (tmp, w), 4 << 20)))
                continue
            del pending[w]
            if rc != 0:
                failures.append(dict(worker=w, rc=rc, err=read(k.errpath), fail=read("%s/f%d" % (tmp, w), 4 << 20)))
                if stop_at is None:
                    stop_at = time.time() + 5
        if stop_at and time.time() > stop_at:
            for w, k in pending.items():
                k.p.kill(); k.p.wait()
            pending = {}
        time.sleep(0.02)
    stats = []
    for w in range(nworkers):
        p = "%s/s%d" % (tmp, w)
        if os.path.exists(p):
            stats.append(json.load(open(p)))
    return failures, stats


def distinct(tmp, nworkers):
    seen = set()
    for w in range(nworkers):
        p = "%s/s%d.hashes" % (tmp, w)
        if os.path.exists(p):
            b = open(p, "rb").read()
            seen.update(b[i:i + 8] for i in range(0, len(b), 8))
    return len(seen)


def replay_once(exe, rec):
    """Run a replay record; returns (failed, output)."""
    pid = rec["property"]
    if rec["kind"] == "choices":
        with tempfile.NamedTemporaryFile("w", suffix=".choices", delete=False) as f:
            f.write("CHOICES\n" + "".join("%d\n" % c for c in rec["choices"]))
        cmd = [exe, "--prop", pid, "--replay", f.name]
    else:
        f = None
        cmd = [exe, "--prop", pid] + rec["args"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env())
    if f:
        os.unlink(f.name)
    out = r.stdout.decode("utf-8", "replace")
    return r.returncode != 0 and "harness:" not in out, out


def save_replay(rec):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (rec["property"], vb.digest(json.dumps(rec, sort_keys=True))[:10]))
    with open(path, "w") as f:
        json.dump(rec, f, indent=1)
    return path


def violation(pid, path):
    say("VIOLATION property=%s replay=%s" % (pid, path))


def parse_fail(text):
    lines = text.split("\n")
    kind = lines[0].strip() if lines else ""
    return kind, [int(x) for x in lines[1:] if x.isdigit()]


def handle_failure(exe, pid, f, seed, nworkers, cases, secs, thorough, tmp):
    """Shrink, replay three times; returns a replay record or None when it does not reproduce."""
    kind, choices = parse_fail(f["fail"])
    say("-- worker %d ended with %s (%s)\n%s" % (f["worker"], f["rc"], kind, f["err"][:3000]))
    if kind in ("FAIL", "CRASH", "HANG"):
        raw = "%s/raw" % tmp
        with open(raw, "w") as h:
            h.write("CHOICES\n" + "".join("%d\n" % c for c in choices))
        small = "%s/small" % tmp
        r = subprocess.run([exe, "--prop", pid, "--shrink", raw, "--stats", small, "--secs", "40"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env())
        cands = []
        if r.returncode == 0 and os.path.exists(small):
            cands.append([int(x) for x in open(small).read().split("\n") if x.isdigit()])
        cands.append(choices)
        for c in cands:
            rec = dict(property=pid, kind="choices", choices=c)
            runs = [replay_once(exe, rec) for _ in range(3)]
            if all(x[0] for x in runs):
                rec["message"] = runs[0][1][-6000:]
                return rec
    # Depends on the cases before it (or on the deterministic part): run the same sequence again.
    args = ["--seed", str(seed), "--worker", str(f["worker"]), "--workers", str(nworkers), "--secs", str(secs)]
    if cases:
        args += ["--cases", str(cases)]
    if thorough:
        args.append("--thorough")
    if kind.startswith("FIXED"):
        args.append("--fixed")
    if f.get("fuzz"):
        return None
    rec = dict(property=pid, kind="run", args=args)
    runs = [replay_once(exe, rec) for _ in range(3)]
    if all(x[0] for x in runs):
        rec["message"] = runs[0][1][-6000:]
        return rec
    if "WARNING: ThreadSanitizer: data race" in f["err"]:
        # A report of a race is a proof by itself; whether a replay meets the same schedule is up to the machine.
        rec["message"] = f["err"][-6000:]
        return rec
    return None


def write_evidence(pid, tier, seed, coverage, wall, violations, assumptions=None):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = dict(property=pid, tier=tier, seed=seed, level=coverage.pop("_level", LEVEL), coverage=coverage, wall_s=round(wall, 2), violations=violations,
              assumptions=assumptions or ["libprotobuf 3.21.12 is a correct reference", "x86-64 Linux; clang 18 with address and undefined behaviour sanitizers; g++ 13 -O3 where optimised_build is reported"])
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def merge(stats):
    cov = dict(evaluations=sum(s["evaluations"] for s in stats), nontrivial=sum(s["nontrivial"] for s in stats))
    cls, known, samples = {}, {}, []
    for s in stats:
        for k, v in s["classes"].items():
            cls[k] = cls.get(k, 0) + v
        known.update(s["known"])
        samples += s["samples"]
    cov["classes"] = dict(sorted(cls.items(), key=lambda x: -x[1])[:80])
    cov["samples"] = samples[:5]
    cov["rule"] = stats[0]["rule"] if stats else ""
    return cov, known


def search(pid, seed, tier):
    cfg = PROPS[pid]
    t0 = time.time()
    try:
        exe = build_for(pid, cfg)
        oexe = build_for(pid, cfg, optimised=True) if cfg.get("optimised") else None
    except vb.BuildBroken as e:
        rec = dict(property=pid, kind="build", message=e.what + "\n" + e.text)
        say("-- %s\n%s" % (e.what, e.text[:4000]))
        path = save_replay(rec)
        write_evidence(pid, tier, seed, dict(evaluations=1, distinct_nontrivial=0, rule="the generated code has to compile", samples=[e.what]), time.time() - t0, 1)
        violation(pid, path)
        return 1
    tb = time.time() - t0
    thorough = tier == "thorough"
    nw = cfg.get("workers", vb.NCPU)
    secs = THOROUGH_SECS if thorough else QUICK_CAP
    cases = 0 if thorough else cfg["cases"]
    tmp = tempfile.mkdtemp(prefix="vp-" + pid)
    try:
        failures, stats = run_search(exe, pid, seed, nw, cases, secs, thorough, tmp)
        bad = [f for f in failures if "harness:" in f["err"]]
        if bad:
            say("error of the harness:\n" + bad[0]["err"])
            return 2
        fcov, ocov = None, None
        if not failures and oexe:
            otmp = tmp + "/optimised"
            os.makedirs(otmp)
            ocases = cases * cfg["optimised"]
            osecs = secs / 2 if thorough else secs
            failures, ostats = run_search(oexe, pid, seed + 500009, nw, ocases, osecs, thorough, otmp)
            for f in failures:
                f["optimised"] = True
            ocov = dict(evaluations=sum(s["evaluations"] for s in ostats), nontrivial=sum(s["nontrivial"] for s in ostats), distinct_nontrivial=distinct(otmp, nw), build="g++ -O3 (messages -O2), no sanitizers")
        if thorough and not failures and cfg.get("fuzz", True):
            # The same cases, searched with coverage feedback from the library and the generated code.
            fexe = build_for(pid, cfg, True)
            ftmp = tmp + "/fuzz"
            os.makedirs(ftmp)
            failures, fstats = run_search(fexe, pid, seed, nw, 0, secs / 2, False, ftmp, True)
            last = [re.findall(r"cov: (\d+) ft: (\d+) corp: (\d+)", read("%s/e%d" % (ftmp, w), 1 << 26)) for w in range(nw)]
            fcov = dict(evaluations=sum(s["evaluations"] for s in fstats), nontrivial=sum(s["nontrivial"] for s in fstats), edges=max([int(x[-1][0]) for x in last if x] or [0]), features=max([int(x[-1][1]) for x in last if x] or [0]),
                        corpus=sum(int(x[-1][2]) for x in last if x))
            for f in failures:
                f["fuzz"] = True
        cov, known = merge(stats)
        if ocov:
            cov["optimised_build"] = ocov
        if fcov:
            cov["coverage_guided"] = fcov
        cov["distinct_nontrivial"] = distinct(tmp, nw)
        cov["build_s"] = round(tb, 1)
        cov["workers"] = nw
        cov["_level"] = cfg.get("level", LEVEL)
        if not cov["samples"]:
            cov["samples"] = ["no sample: the run ended early"]
        for f in failures:
            if f.get("optimised"):
                rec = handle_failure(oexe, pid, f, seed + 500009, nw, ocases, osecs, thorough, otmp)
            else:
                rec = handle_failure(exe, pid, f, seed, nw, cases, secs, thorough, tmp)
            if rec:
                rec["optimised"] = f.get("optimised", False)
                path = save_replay(rec)
                say("-- minimal case\n" + rec["message"])
                write_evidence(pid, tier, seed, cov, time.time() - t0, 1)
                violation(pid, path)
                return 1
        if failures:
            say("error: a failure did not reproduce in three replays")
            return 2
        listed = known_findings(pid)
        for k, what in sorted(known.items()):
            if k not in listed:
                rec = dict(property=pid, kind="run", args=["--seed", str(seed)], message="finding %s is not listed: %s" % (k, what))
                violation(pid, save_replay(rec))
                return 1
            say("KNOWN-FINDING: property=%s %s" % (pid, listed[k]["what"]))
        cov["known_findings"] = sorted(known)
        write_evidence(pid, tier, seed, cov, time.time() - t0, 0)
        say("held: %s %s seed=%d evaluations=%d nontrivial=%d distinct=%d build=%.1fs total=%.1fs" % (pid, tier, seed, cov["evaluations"], cov["nontrivial"], cov["distinct_nontrivial"], tb, time.time() - t0))
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay(pid, path):
    rec = json.load(open(path))
    if rec["kind"] == "build":
        try:
            build_for(pid, PROPS[pid])
            if PROPS[pid].get("optimised"):
                build_for(pid, PROPS[pid], optimised=True)
        except vb.BuildBroken as e:
            say(e.what + "\n" + e.text)
            return 1
        say("held")
        return 0
    exe = build_for(pid, PROPS[pid], optimised=rec.get("optimised", False))
    failed, out = replay_once(exe, rec)
    say(out)
    return 1 if failed else 0


def main():
    pid = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        if pid in PROPS:
            if len(sys.argv) > 3 and sys.argv[2] == "--replay":
                rc = replay(pid, sys.argv[3])
            else:
                rc = search(pid, seed, tier)
        elif pid in ("C16", "C17"):
            import gencheck
            me = sys.modules[__name__]
            if len(sys.argv) > 3 and sys.argv[2] == "--replay":
                rc = gencheck.replay(me, pid, sys.argv[3])
            else:
                rc = gencheck.search(me, pid, seed, tier)
        else:
            say("unknown property " + pid)
            rc = 2
    except vb.HarnessBroken as e:
        say("error of the harness: %s" % e)
        rc = 2
    vb.prune_cache()
    return rc


if __name__ == "__main__":
    sys.exit(main())
