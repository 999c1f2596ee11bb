#!/usr/bin/env python3
"""Development aid: random mutants of /repo in a copy; those which pass the repository's tests are given to the checks.

  mutate.py COPY SEED COUNT [REGEX of files]      log: COPY/../mut-SEED.log
"""
import glob, json, os, random, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
copy, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
pat = sys.argv[4] if len(sys.argv) > 4 else "."
os.environ["VP_REPO"] = copy
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import vpbuild as vb
import run_check as rc
LOG = os.path.join(os.path.dirname(copy), "mut-%d.log" % seed)


def log(*a):
    s = " ".join(str(x) for x in a)
    print(s); sys.stdout.flush()
    open(LOG, "a").write(s + "\n")


def prepare():
    if not os.path.exists(copy):
        subprocess.run(["cp", "-a", "/repo", copy], check=True)
        for f in glob.glob(copy + "/venv/lib/python*/site-packages/__editable__*finder.py") + [copy + "/venv/bin/protoc-gen-eams", copy + "/protoc-gen-eams"]:
            s = open(f).read()
            open(f, "w").write(s.replace("/repo/", copy + "/"))
        subprocess.run(["git", "-C", copy, "commit", "-qam", "copy"])
        shutil.rmtree(copy + "/build/test")
    for n in ("build.sh", "test.sh"):
        s = open("/opt/vp/" + n).read().replace("/repo", copy).replace("/opt/vp/build.sh", copy + "/../build.sh")
        open(copy + "/../" + n, "w").write(s)
    s = open("/opt/vp/results.py").read()


OPS = [(r"<=", "<"), (r">=", ">"), (r"(?<![<\-=])<(?![<=])(?= )", "<="), (r"(?<= )>(?![>=])(?= )", ">="), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"), (r"(?<=[\w\)] )\+(?= )", "-"), (r"(?<=[\w\)] )-(?= )", "+"),
       (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"\+\+", "--"), (r"if\((?=[^)])", "if(!("), (r"Error::\w+", "Error::NO_ERRORS"), (r"Error::NO_ERRORS", "Error::END_OF_BUFFER"),
       (r"<<", ">>"), (r"(?<=[^>])>>(?=[^>])", "<<"), (r"\b(MAX_LENGTH|LENGTH|max_size_|size_)\b", r"(\1 - 1)"), (r"\bmin\b", "max"), (r" \+ 1\b", ""), (r" - 1\b", ""), (r"uint64_t", "uint32_t"), (r"uint32_t", "uint16_t"), (r"const auto", "auto"), (r"current_length_", "MAX_LENGTH"), (r"\breturn_value\b", "Error::NO_ERRORS"), (r"\bnot\b ", ""), (r"\.endswith\(", ".startswith("), (r"\band\b", "or"), (r"\bor\b", "and"), (r"\bTrue\b", "False"), (r"\bFalse\b", "True")]


def mutants():
    out = []
    fs = sorted(glob.glob(copy + "/src/*.h") + glob.glob(copy + "/src/*.cpp") + glob.glob(copy + "/generator/EmbeddedProto/templates/*.h") + glob.glob(copy + "/generator/EmbeddedProto/[A-Z]*.py"))
    for f in fs:
        rel = os.path.relpath(f, copy)
        if not re.search(pat, rel):
            continue
        lines = open(f).read().split("\n")
        com = False
        for i, l in enumerate(lines):
            t = l.strip()
            if "/*" in t or "{#" in t: com = True
            skip = com or t.startswith(("//", "#", "*", "{#")) or not t
            if "*/" in t or "#}" in t: com = False
            if skip:
                continue
            for a, b in OPS:
                for m in re.finditer(a, l):
                    n = l[:m.start()] + m.expand(b) + l[m.end():]
                    if b.endswith("(!("):
                        if not l.rstrip().endswith(")"):
                            continue
                        n = n.rstrip() + ")"
                    out.append((rel, i, n))
            if t.endswith(";") and not t.startswith(("return", "using", "typedef", "static", "const ", "uint", "bool", "int", "Error ", "auto", "}")) and "(" in t or t.endswith(";") and " = " in t and t.split()[0].count("::") == 0 and len(t.split(" = ")[0].split()) == 1:
                out.append((rel, i, "//"))
    return out


UNITS = rc.ENGINE + ["p_codec.cpp", "p_decode.cpp", "p_state.cpp", "p_fields.cpp", "p_buffers.cpp", "p_wire.cpp", "p_fault.cpp", "sweep.cpp"]
ORDER = ["C15", "C13", "C12", "C01", "C02", "C05", "C04", "C03", "C08", "C09", "C10", "C11", "C07", "C06", "C14"]


def checks(rel):
    try:
        exe = vb.build("mut", UNITS)
    except vb.BuildBroken as e:
        return "BUILD " + e.what
    for p in ORDER:
        import tempfile
        tmp = tempfile.mkdtemp(prefix="vp-mut")
        f, st = rc.run_search(exe, p, 1, vb.NCPU, max(50, rc.PROPS[p]["cases"] // 4), 60.0, False, tmp)
        shutil.rmtree(tmp)
        if f:
            return p + (" HARNESS" if "harness:" in f[0]["err"] else "")
    rest = ["C18"] + (["C16"] if rel.endswith(".py") else [])
    for p in rest:
        r = subprocess.run([sys.executable, os.path.join(V, "run_check.py"), p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            return p + (" rc%d" % r.returncode if r.returncode != 1 else "")
    return None


def main():
    prepare()
    ms = mutants()
    random.Random(seed).shuffle(ms)
    log("#", len(ms), "mutants; taking", count, time.ctime())
    done = 0
    for rel, i, n in ms:
        if done >= count:
            break
        f = os.path.join(copy, rel)
        subprocess.run(["git", "-C", copy, "checkout", "-q", "--", "src", "generator"])
        lines = open(f).read().split("\n")
        old = lines[i]
        lines[i] = n if n != "//" else ""
        open(f, "w").write("\n".join(lines))
        t0 = time.time()
        if subprocess.run(["timeout", "200", "bash", copy + "/../build.sh"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
            continue
        subprocess.run(["timeout", "300", "bash", copy + "/../test.sh", copy + "/../o.json"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        try:
            o = json.load(open(copy + "/../o.json"))
        except Exception:
            continue
        b = json.load(open("/opt/vp/BASELINE.json"))
        if set(b["stable"]) - set(o["passed"]):
            continue
        done += 1
        t1 = time.time()
        r = checks(rel)
        log("%-9s %s:%d | %s | %s  (%.0f+%.0fs)" % (r or "SURVIVED", rel, i + 1, old.strip(), n.strip() if n != "//" else "(deleted)", t1 - t0, time.time() - t1))
        vb.prune_cache()
    subprocess.run(["git", "-C", copy, "checkout", "-q", "--", "src", "generator"])
    log("# end", time.ctime())


main()
