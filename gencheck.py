"""C16 and C17: random schemas against the plugin, the compilers and libprotobuf."""
import concurrent.futures as cf
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time

import vpbuild as vb
sys.path.insert(0, vb.HARNESS)
import schema_gen as S  # noqa: E402

GPP = "g++"
STDS = ["c++11", "c++14", "c++17", "c++20"]
CONFIGS = [(c, s, d) for s in STDS for c in (vb.CXX, GPP) for d in ((), ("MSG_TO_STRING",)) if not (d and s in ("c++11", "c++14"))]


# ----------------------------------------------------------------------------- protobuf by hand
def varint(n):
    b = bytearray()
    while n > 127:
        b.append(n & 127 | 128)
        n >>= 7
    b.append(n)
    return bytes(b)


def chunk(num, data):
    return varint(num << 3 | 2) + varint(len(data)) + data


def fields(b):
    """(number, value) of every field; raises ValueError when it is not a message."""
    i, out = 0, []

    def vi():
        nonlocal i
        n = s = 0
        while True:
            if i >= len(b) or s > 63:
                raise ValueError("cut off")
            n |= (b[i] & 127) << s
            s += 7
            i += 1
            if not b[i - 1] & 128:
                return n
    while i < len(b):
        t = vi()
        if t & 7 == 0:
            out.append((t >> 3, vi()))
        elif t & 7 == 2:
            n = vi()
            if i + n > len(b):
                raise ValueError("cut off")
            out.append((t >> 3, b[i:i + n]))
            i += n
        elif t & 7 in (1, 5):
            i += 8 if t & 7 == 1 else 4
        else:
            raise ValueError("wire type %d" % (t & 7))
    return out


def request(names, protos, parameter=b""):
    """A CodeGeneratorRequest of file names and serialized FileDescriptorProtos."""
    return b"".join(chunk(1, n.encode()) for n in names) + (chunk(2, parameter) if parameter else b"") + b"".join(chunk(15, p) for p in protos)


def proto_name(p):
    return next(v for n, v in fields(p) if n == 1).decode()


def response(b):
    """(error, {name: content}) of a CodeGeneratorResponse."""
    err, files = "", {}
    for n, v in fields(b):
        if n == 1:
            err = v.decode("utf-8", "replace")
        elif n == 15:
            d = dict(fields(v))
            name = d.get(1, b"").decode()
            if name in files:
                raise ValueError("two files with the name " + name)
            files[name] = d.get(15, b"").decode("utf-8", "replace")
    return err, files


# ----------------------------------------------------------------------------- running
class Work:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vp-gen")
        self.exe = vb.plugin()
        self.ex = cf.ThreadPoolExecutor(vb.NCPU)
        self.n = 0
        self.runs = 0

    def close(self):
        self.ex.shutdown()
        shutil.rmtree(self.dir, ignore_errors=True)

    def fresh(self):
        self.n += 1
        d = "%s/%d" % (self.dir, self.n)
        os.makedirs(d)
        return d

    def descriptors(self, group):
        """Writes the schema; returns (dir, names, fds bytes) or None when protoc does not accept it."""
        texts = S.render(group)
        d = self.fresh()
        for n, t in texts.items():
            p = os.path.join(d, "src", n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w", encoding="utf-8").write(t)
        names = list(texts)
        r = vb.sh(["protoc", "-I", d + "/src", "-I", os.path.join(vb.REPO, "generator"), "--include_imports", "--include_source_info", "--descriptor_set_out=" + d + "/x.fds"] + names, cwd=d + "/src")
        if r.returncode:
            return dict(dir=d, names=names, error=r.stdout.decode("utf-8", "replace"))
        protos = [v for n, v in fields(open(d + "/x.fds", "rb").read()) if n == 1]
        return dict(dir=d, names=names, protos=protos, texts=texts, error=None)

    def all_descriptors(self, groups):
        return list(self.ex.map(self.descriptors, groups))

    def plugin(self, jobs):
        """jobs: list of dicts with req (bytes) and optionally hashseed, cwd, env. Returns a list of (exit code, stdout bytes, stderr text)."""
        d = self.fresh()
        self.runs += len(jobs)
        by = {}
        for i, j in enumerate(jobs):
            by.setdefault(str(j.get("hashseed", 0)), []).append(i)
        parts = []
        per = max(1, -(-len(jobs) // vb.NCPU))
        for h, idx in by.items():
            for k in range(0, len(idx), per):
                parts.append((h, idx[k:k + per]))
        files = {}

        def one(part):
            h, idx = part
            todo = []
            for i in idx:
                p = "%s/%d" % (d, i)
                open(p + ".req", "wb").write(jobs[i]["req"])
                todo.append(dict(req=p + ".req", out=p + ".out", err=p + ".err", cwd=jobs[i].get("cwd") or d, env=jobs[i].get("env")))
            jf = "%s/jobs%d" % (d, idx[0])
            json.dump(todo, open(jf, "w"))
            e = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
            e.update(PYTHONPATH=os.path.dirname(self.exe), PYTHONHASHSEED=h, PYTHONDONTWRITEBYTECODE="1")
            r = vb.sh([vb.python_with_protobuf(), os.path.join(vb.HARNESS, "zygote.py"), jf], env=e, cwd=d)
            if not os.path.exists(jf + ".done"):
                raise vb.HarnessBroken("zygote: " + r.stdout.decode("utf-8", "replace")[-2000:])
            for i, rc in zip(idx, json.load(open(jf + ".done"))):
                p = "%s/%d" % (d, i)
                files[i] = (rc, open(p + ".out", "rb").read(), open(p + ".err", "rb").read().decode("utf-8", "replace"))
        list(self.ex.map(one, parts))
        shutil.rmtree(d, ignore_errors=True)
        return [files[i] for i in range(len(jobs))]


def judge(res):
    """(problem, error, files) of a run of the plugin."""
    rc, out, err = res
    if rc != 0:
        return "the plugin ended with %s\n%s" % (rc, err[-2000:]), "", {}
    try:
        e, files = response(out)
    except ValueError as x:
        return "the response of the plugin is no message: %s\n%s" % (x, err[-1000:]), "", {}
    return None, e, files


def shrink(group, evaluate, secs=60):
    """Greedy: the first smaller variant which still fails (evaluate: list of groups -> list of messages or None)."""
    end = time.time() + secs
    msg = None
    again = True
    while again and time.time() < end:
        again = False
        vs = [v for v in S.variants(group) if any(f["msgs"] or f["enums"] for f in v["files"])]
        for i in range(0, len(vs), 16):
            if time.time() > end:
                break
            part = vs[i:i + 16]
            rs = evaluate(part)
            for v, r in zip(part, rs):
                if r:
                    group, msg, again = v, r, True
                    break
            if again:
                break
    return group, msg


def interesting(group):
    """The rule for a non-trivial schema: it has a reference between messages, or a nested definition, or a capacity."""
    for i, path, m in S.walk(group["files"]):
        if len(path) > 1:
            return True
        for f in m["fields"]:
            if f["ref"] or f["label"] == "repeated" or f["type"] in ("string", "bytes") or f["oneof"] is not None:
                return True
    return False


def group_classes(group, cls):
    fs = group["files"]

    def inc(k):
        cls[k] = cls.get(k, 0) + 1
    inc("files:%d" % len(fs))
    for i, path, m in S.walk(fs):
        inc("message depth:%d" % len(path))
        if S.templated(fs, [i, path]):
            inc("templated message")
        for f in m["fields"]:
            kind = f["kind"] or ("text" if f["type"] in ("string", "bytes") else "scalar")
            kind = {"m": "message", "e": "enum"}.get(kind, kind)
            inc("field:%s %s" % ("oneof" if f["oneof"] is not None else f["label"] or "plain", kind))
            if f["maxlen"]:
                inc("maxLength")
            if f["ref"] and f["ref"][0] != i:
                inc("type of another file")


# ----------------------------------------------------------------------------- C16
def supported(w, groups, configs):
    """For each group: None, or what is wrong. configs: list per group of (compiler, standard, defines)."""
    ds = w.all_descriptors(groups)
    out = [None] * len(groups)
    live = []
    for i, d in enumerate(ds):
        if d["error"]:
            out[i] = ("protoc", d["error"])
        else:
            live.append(i)
    res = w.plugin([dict(req=request(ds[i]["names"], ds[i]["protos"])) for i in live])
    ok = []
    for i, r in zip(live, res):
        p, e, files = judge(r)
        if not p and e:
            p = "the plugin refuses a supported schema: " + e
        if not p:
            missing = [n for n in ds[i]["names"] if not files.get(n[:-6] + ".h")]
            if missing:
                p = "no output for %s, but %s" % (missing, sorted(files))
        if p:
            out[i] = ("plugin", p)
            continue
        for n, t in files.items():
            q = os.path.join(ds[i]["dir"], "ep", n)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            open(q, "w").write(t)
        ok.append(i)
    # Facts.
    parts = [ok[k::vb.NCPU] for k in range(vb.NCPU)]

    def facts(part):
        if not part:
            return
        lf = "%s/list" % ds[part[0]]["dir"]
        open(lf, "w").writelines("%s/x.fds\t%s/facts.cpp\n" % (ds[i]["dir"], ds[i]["dir"]) for i in part)
        r = vb.sh([vb.python_with_protobuf(), os.path.join(vb.HARNESS, "gen_facts.py"), lf], env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
        if r.returncode:
            raise vb.HarnessBroken("gen_facts: " + r.stdout.decode("utf-8", "replace")[-2000:])
    list(w.ex.map(facts, parts))

    def compile_one(a):
        i, (cxx, std, defs) = a
        d = ds[i]["dir"]
        cmd = [cxx, "-std=" + std, "-w"] + ["-D" + x for x in defs] + (["-fsyntax-only"] if "clang" in cxx else ["-S", "-o", "/dev/null"]) + ["-I" + vb.HARNESS, "-I" + os.path.join(vb.REPO, "src"), "-I" + d + "/ep", d + "/facts.cpp"]
        for attempt in range(2):
            r = vb.sh(cmd)
            if r.returncode == 0:
                return None
        return "%s -std=%s %s:\n%s" % (os.path.basename(cxx), std, " ".join("-D" + x for x in defs), r.stdout.decode("utf-8", "replace").replace(d, "")[:4000])
    jobs = [(i, c) for i in ok for c in configs[i]]
    for (i, c), r in zip(jobs, w.ex.map(compile_one, jobs)):
        if r and not out[i]:
            out[i] = ("compile", r, c)
    for d in ds:
        shutil.rmtree(d["dir"], ignore_errors=True)
    return out


def finding(pid, group, msg, kind, extra=None):
    rec = dict(property=pid, kind=kind, group=group, schema=S.render(group), message=msg)
    if extra:
        rec.update(extra)
    return rec


RUN_PROPS = [("C01", 3000), ("C02", 1500), ("C03", 2500), ("C04", 1500), ("C05", 1500), ("C07", 2000), ("C08", 2500), ("C09", 1500), ("C10", 1500), ("C11", 1500), ("C06", 1500), ("C18", 800), ("NAMES", 1000)]
RUN_UNITS = ["main.cpp", "engine.cpp", "libbuf.cpp", "p_codec.cpp", "p_decode.cpp", "p_state.cpp", "p_text.cpp", "p_names.cpp", "sweep.cpp"]


def build_runner(w, groups):
    d = w.fresh()
    for g in groups:
        for n, t in S.render(g).items():
            p = os.path.join(d, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w", encoding="utf-8").write(t)
    try:
        return vb.build("C16", RUN_UNITS, schema_dir=d, std="c++17", defines=["MSG_TO_STRING"])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def c16(rc, seed, tier):
    t0 = time.time()
    w = Work()
    try:
        n = 1200 if tier == "thorough" else 90
        per = len(CONFIGS) if tier == "thorough" else 3
        r = random.Random("c16/%d" % seed)
        cls, texts, samples, nontrivial, evals = {}, set(), [], 0, 0
        budget = t0 + (3000 if tier == "thorough" else 200)
        for lo in range(0, n, 30):
            if time.time() > budget:
                break
            groups = [S.gen_group(seed, k) for k in range(lo, min(n, lo + 30))]
            configs = []
            for g in groups:
                cs = list(CONFIGS)
                r.shuffle(cs)
                cs.sort(key=lambda c: 0)
                # One of each compiler, C++11 often.
                pick = [next(c for c in cs if "clang" in c[0]), next(c for c in cs if "clang" not in c[0])]
                for c in cs:
                    if len(pick) >= per:
                        break
                    if c not in pick:
                        pick.append(c)
                configs.append([(c, s, d + ("VP_FIRST=%d" % i,)) for i, (c, s, d) in enumerate(pick)])
            for g in groups:
                group_classes(g, cls)
                t = json.dumps(S.render(g), sort_keys=True)
                if interesting(g):
                    nontrivial += 1
                    texts.add(vb.digest(t))
                if len(samples) < 3:
                    samples.append(t[:1500])
            out = supported(w, groups, configs)
            evals += sum(len(c) for c in configs)
            for g, o in zip(groups, out):
                if not o:
                    continue
                if o[0] == "protoc":
                    raise vb.HarnessBroken("the schema generator made something protoc refuses: " + o[1])
                cfgs = [o[2]] if o[0] == "compile" else []

                def ev(gs):
                    rs = supported(w, gs, [cfgs] * len(gs))
                    return [x if x and x[0] == o[0] else None for x in rs]
                rc.say("-- schema group %d: %s" % (g["k"], o[1][:1500]))
                small, m = shrink(g, ev)
                m = m or o
                if not all(ev([small])[0] for _ in range(2)):
                    small, m = g, o
                    if not ev([g])[0]:
                        rc.say("error: a failure did not reproduce")
                        return 2
                rec = finding("C16", small, m[1], "schema", dict(configs=[list(c) for c in cfgs]))
                return report(rc, "C16", tier, seed, rec, evals, len(texts), samples, t0)
        tg = time.time() - t0
        # Behaviour of the classes of random schemas.
        rounds = 12 if tier == "thorough" else 1
        runs = {}
        for rd in range(rounds):
            if tier == "thorough" and time.time() > t0 + 6000:
                break
            groups = [S.gen_group("run%d" % seed, 5000 + rd * 10 + k, small=True) for k in range(4)]
            try:
                exe = build_runner(w, groups)
            except vb.BuildBroken as e:
                rc.say("-- %s\n%s" % (e.what, e.text[:2000]))

                def ev(gs):
                    o = []
                    for g in gs:
                        try:
                            build_runner(w, [g])
                            o.append(None)
                        except vb.BuildBroken as x:
                            o.append(x.what + "\n" + x.text)
                    return o
                bad = next(((g, m) for g, m in zip(groups, ev(groups)) if m), None)
                g, m = bad or (groups[0], e.what + "\n" + e.text)
                rec = finding("C16", g, m, "schema-build")
                return report(rc, "C16", tier, seed, rec, evals, len(texts), samples, t0)
            for pid, cases in RUN_PROPS:
                tmp = tempfile.mkdtemp(prefix="vp-C16")
                try:
                    failures, stats = rc.run_search(exe, pid, seed, vb.NCPU, cases, 60.0, False, tmp)
                    bad = [f for f in failures if "harness:" in f["err"]]
                    if bad and "no type\n" in bad[0]["err"]:
                        continue          # no message of the kind this one is about
                    if bad:
                        raise vb.HarnessBroken(bad[0]["err"])
                    cov, known = rc.merge(stats)
                    runs[pid] = runs.get(pid, 0) + cov["evaluations"]
                    for f in failures:
                        inner = rc.handle_failure(exe, pid, f, seed, vb.NCPU, cases, 60.0, False, tmp)
                        if inner:
                            rec = dict(property="C16", kind="schema-run", groups=groups, schema=[S.render(g) for g in groups], inner=inner, message=inner["message"])
                            return report(rc, "C16", tier, seed, rec, evals, len(texts), samples, t0)
                    if failures:
                        rc.say("error: a failure did not reproduce in three replays")
                        return 2
                finally:
                    shutil.rmtree(tmp, ignore_errors=True)
        cov = dict(evaluations=evals + sum(runs.values()), distinct_nontrivial=len(texts), nontrivial=nontrivial, rule="a schema with a reference, a nested definition, a oneof or a capacity; an evaluation is one compiled combination of schema, compiler and standard, or one generated case of the runner",
                   schemas=nontrivial, compiled=evals, runner_cases=runs, plugin_runs=w.runs, classes=dict(sorted(cls.items(), key=lambda x: -x[1])[:60]), samples=samples, schema_s=round(tg, 1))
        rc.write_evidence("C16", tier, seed, cov, time.time() - t0, 0, ["libprotobuf 3.21.12 and protoc are correct references", "clang 18 and gcc 13 stand for the compilers of users"])
        rc.say("held: C16 %s seed=%d schemas=%d compiled=%d runner cases=%d total=%.1fs" % (tier, seed, len(texts), evals, sum(runs.values()), time.time() - t0))
        return 0
    finally:
        w.close()


def report(rc, pid, tier, seed, rec, evals, distinct, samples, t0):
    path = rc.save_replay(rec)
    rc.say("-- minimal case\n" + (json.dumps(rec.get("schema"), indent=1).replace("\\n", "\n")[:6000]) + "\n" + rec["message"][:4000])
    rc.write_evidence(pid, tier, seed, dict(evaluations=max(1, evals), distinct_nontrivial=distinct, rule="see the full run", samples=samples or ["none"]), time.time() - t0, 1)
    rc.violation(pid, path)
    return 1


# ----------------------------------------------------------------------------- C17
def closed(protos, names):
    """The protos the files names need, in order."""
    by = {proto_name(p): p for p in protos}
    need, out = set(), []

    def add(n):
        if n in need or n not in by:
            return
        need.add(n)
        for k, v in fields(by[n]):
            if k == 3:
                add(v.decode())
        out.append(n)
    for n in names:
        add(n)
    return [by[n] for n in out]


def union(*lists):
    seen, out = set(), []
    for l in lists:
        for p in l:
            n = proto_name(p)
            if n not in seen:
                seen.add(n)
                out.append(p)
    return out


def deterministic(w, groups, others, salt):
    """For each group None or what differs. others: descriptors of unrelated groups."""
    ds = w.all_descriptors(groups)
    jobs, info = [], []
    dirs = [tempfile.mkdtemp(dir=w.dir) for _ in range(2)]
    for i, d in enumerate(ds):
        if d["error"]:
            continue
        r = random.Random("%s/%s" % (salt, groups[i]["k"]))
        base = request(d["names"], d["protos"])
        jobs.append(dict(req=base)); info.append((i, "base", None))
        same = [dict(req=base, hashseed=h) for h in (1, 2, 3, 4, 5)]
        same += [dict(req=base, hashseed=r.randint(6, 9), cwd=dirs[0], env=dict(LC_ALL="C", LANG="C", TZ="Asia/Tokyo", HOME=dirs[1], USER="nobody", EMBEDDED_PROTO="x"))]
        for k, j in enumerate(same):
            jobs.append(j); info.append((i, "same", "hash seed %s, cwd %s, environment %s" % (j["hashseed"], j.get("cwd"), j.get("env"))))
        o = r.choice(others)
        if not o["error"] and not set(o["names"]) & set(d["names"]):
            jobs.append(dict(req=request(o["names"] + d["names"], union(o["protos"], d["protos"])))); info.append((i, "files", "unrelated files before: %s" % o["names"]))
            jobs.append(dict(req=request(d["names"] + o["names"], union(d["protos"], o["protos"])))); info.append((i, "files", "unrelated files after: %s" % o["names"]))
        # The files of the request in another order, and one alone with its imports.
        names = list(d["names"])
        r.shuffle(names)
        jobs.append(dict(req=request(names, closed(d["protos"], names)))); info.append((i, "files", "order of the files: %s" % names))
        one = r.choice(d["names"])
        jobs.append(dict(req=request([one], closed(d["protos"], [one])))); info.append((i, one, "only the file %s with its imports" % one))
    res = w.plugin(jobs)
    out = [None] * len(groups)
    base = {}
    for (i, kind, what), r in zip(info, res):
        if out[i]:
            continue
        p, e, files = judge(r)
        if not p and e:
            p = "the plugin refuses a supported schema: " + e
        if p:
            out[i] = "%s (%s)" % (p, what or "first run")
            continue
        if kind == "base":
            base[i] = (r[1], files)
        elif kind == "same":
            if r[1] != base[i][0]:
                out[i] = "the output of the same request differs: %s\n%s" % (what, diff(base[i][1], files))
        else:
            for n in ds[i]["names"] if kind == "files" else [kind]:
                h = n[:-6] + ".h"
                if h not in files:
                    out[i] = "no output for %s: %s" % (n, what)
                elif files[h] != base[i][1].get(h):
                    out[i] = "the output for %s depends on the other files: %s\n%s" % (n, what, diff({h: base[i][1].get(h, "")}, {h: files[h]}))
                if out[i]:
                    break
    for d in ds:
        shutil.rmtree(d["dir"], ignore_errors=True)
    return out


def diff(a, b):
    import difflib
    if list(a) != list(b):
        return "files %s and %s" % (list(a), list(b))
    for n in a:
        if a[n] != b[n]:
            return n + "\n" + "\n".join(list(difflib.unified_diff(a[n].splitlines(), b[n].splitlines(), lineterm="", n=1))[:30])
    return ""


def refused(w, cases):
    """cases: list of (group, kind, words). None or what is wrong; "skip" when protoc does not accept the schema."""
    ds = w.all_descriptors([c[0] for c in cases])
    live = [i for i, d in enumerate(ds) if not d["error"]]
    out = ["skip"] * len(cases)
    for i, r in zip(live, w.plugin([dict(req=request(ds[i]["names"], ds[i]["protos"])) for i in live])):
        p, e, files = judge(r)
        out[i] = None
        if p:
            out[i] = p
        elif not e:
            out[i] = "a schema which can not be supported (%s) is accepted" % cases[i][1]
        elif not any(x in e.lower() for x in cases[i][2]):
            out[i] = "the error for a schema with %s does not name the cause (one of %s): %s" % (cases[i][1], cases[i][2], e[:500])
    for d in ds:
        shutil.rmtree(d["dir"], ignore_errors=True)
    return out


WORDS = {"circular": ["circular", "recurs"], "recursive": ["recurs", "circular"], "scope": ["template"]}


def reclassify(group, kind):
    """The words for a shrunk unsupported group, or None when it is supported."""
    if kind == "proto2":
        return ["proto2"] if any(f["syntax"] == "proto2" for f in group["files"]) else None
    kinds = {x[0] for x in S.problems(group["files"])}
    return sorted({w for k in kinds for w in WORDS[k]}) if kinds else None


def c17(rc, seed, tier):
    t0 = time.time()
    w = Work()
    try:
        n = 3000 if tier == "thorough" else 100
        nref = 12000 if tier == "thorough" else 800
        budget = t0 + (2400 if tier == "thorough" else 150)
        cls, texts, samples, evals = {}, set(), [], 0
        others = w.all_descriptors([S.gen_group("other%d" % seed, 9000 + k) for k in range(6)])
        for lo in range(0, n, 40):
            if time.time() > budget:
                break
            groups = [S.gen_group("det%d" % seed, k) for k in range(lo, min(n, lo + 40))]
            for g in groups:
                group_classes(g, cls)
                t = json.dumps(S.render(g), sort_keys=True)
                if interesting(g):
                    texts.add(vb.digest(t))
                if len(samples) < 2:
                    samples.append(t[:1500])
            for g, o in zip(groups, deterministic(w, groups, others, seed)):
                if not o:
                    continue
                rc.say("-- schema group %d: %s" % (g["k"], o[:1500]))

                def ev(gs):
                    return deterministic(w, gs, others, seed)
                small, m = shrink(g, ev)
                rec = finding("C17", small, m or o, "determinism", dict(seed=seed))
                if not any(ev([small])[0] for _ in range(3)):
                    rc.say("error: a failure did not reproduce")
                    return 2
                return report(rc, "C17", tier, seed, rec, w.runs, len(texts), samples, t0)
        det_runs = w.runs
        # Refusals.
        budget = t0 + (4800 if tier == "thorough" else 240)
        kinds, k, tried = {}, 0, 0
        while k < nref and time.time() < budget:
            cases = []
            for j in range(100):
                r = random.Random("ref%d/%d" % (seed, k))
                c = S.make_unsupported(r, S.gen_group("ref%d" % seed, k, small=r.randrange(2) == 0))
                k += 1
                if c:
                    cases.append(c)
            for c, o in zip(cases, refused(w, cases)):
                if o == "skip":
                    cls["refused by protoc"] = cls.get("refused by protoc", 0) + 1
                    continue
                kinds[c[1]] = kinds.get(c[1], 0) + 1
                tried += 1
                t = json.dumps(S.render(c[0]), sort_keys=True)
                texts.add(vb.digest(t))
                if len(samples) < 5 and kinds[c[1]] == 1:
                    samples.append(c[1] + ": " + t[:1200])
                if not o:
                    continue
                rc.say("-- unsupported schema (%s): %s" % (c[1], o[:1500]))
                crash = "the plugin ended with" in o or "no message" in o

                def ev(gs):
                    cs = [(g, c[1], reclassify(g, c[1])) for g in gs]
                    rs = refused(w, [x if x[2] else (x[0], c[1], [""]) for x in cs])
                    return [None if x == "skip" or not (y[2]) else x for x, y in zip(rs, cs)]
                small, m = shrink(c[0], ev)
                if not ev([small])[0]:
                    small, m = c[0], o
                rec = finding("C17", small, m or o, "refusal", dict(what=c[1], words=reclassify(small, c[1]) or c[2]))
                return report(rc, "C17", tier, seed, rec, w.runs, len(texts), samples, t0)
        cov = dict(evaluations=w.runs, distinct_nontrivial=len(texts), nontrivial=len(texts), rule="a schema with a reference, a nested definition, a oneof or a capacity, or one which has to be refused; an evaluation is one run of the plugin",
                   determinism_runs=det_runs, refusals=kinds, classes=dict(sorted(cls.items(), key=lambda x: -x[1])[:60]), samples=samples)
        rc.write_evidence("C17", tier, seed, cov, time.time() - t0, 0, ["protoc 3.21.12 builds correct descriptors"])
        rc.say("held: C17 %s seed=%d plugin runs=%d schemas=%d refusals=%s total=%.1fs" % (tier, seed, w.runs, len(texts), kinds, time.time() - t0))
        return 0
    finally:
        w.close()


def broken(rc, pid, tier, seed, e):
    rec = dict(property=pid, kind="build", message=e.what + "\n" + e.text)
    rc.say("-- %s\n%s" % (e.what, e.text[:4000]))
    rc.write_evidence(pid, tier, seed, dict(evaluations=1, distinct_nontrivial=0, rule="the generator has to run", samples=[e.what]), 0, 1)
    rc.violation(pid, rc.save_replay(rec))
    return 1


def search(rc, pid, seed, tier):
    try:
        return c16(rc, seed, tier) if pid == "C16" else c17(rc, seed, tier)
    except vb.BuildBroken as e:
        return broken(rc, pid, tier, seed, e)


def replay(rc, pid, path):
    rec = json.load(open(path))
    if rec["kind"] == "build":
        try:
            vb.plugin()
        except vb.BuildBroken as e:
            rc.say(e.what + "\n" + e.text)
            return 1
        return 0
    w = Work()
    try:
        if rec["kind"] == "schema":
            cfgs = [tuple([c[0], c[1], tuple(c[2])]) for c in rec["configs"]]
            o = supported(w, [rec["group"]], [cfgs or CONFIGS])[0]
            o = o[1] if o else None
        elif rec["kind"] == "schema-build":
            try:
                build_runner(w, [rec["group"]])
                o = None
            except vb.BuildBroken as e:
                o = e.what + "\n" + e.text
        elif rec["kind"] == "schema-run":
            failed, out = rc.replay_once(build_runner(w, rec["groups"]), rec["inner"])
            o = out if failed else None
        elif rec["kind"] == "determinism":
            others = w.all_descriptors([S.gen_group("other%d" % rec["seed"], 9000 + k) for k in range(6)])
            o = deterministic(w, [rec["group"]], others, rec["seed"])[0]
        else:
            o = refused(w, [(rec["group"], rec["what"], rec["words"])])[0]
        rc.say(o or "held")
        return 1 if o else 0
    finally:
        w.close()
