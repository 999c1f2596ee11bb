"""Building of harness binaries from the working tree of /repo, with a content addressed object cache."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import threading

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
HARNESS = os.path.join(VERIF, "harness")
SCHEMAS = os.path.join(VERIF, "schemas")
NCPU = int(os.environ.get("VP_JOBS", "8"))


class BuildBroken(Exception):
    """The code under test does not generate or compile: text is what the tool said, what says which."""

    def __init__(self, what, text):
        Exception.__init__(self, what)
        self.what, self.text = what, text


class HarnessBroken(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def hash_files(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:24]


def tree(d, pats):
    r = []
    for root, _, files in os.walk(d):
        for f in files:
            if any(f.endswith(p) for p in pats):
                r.append(os.path.join(root, f))
    return sorted(r)


def python_with_protobuf():
    for p in (os.path.join(REPO, "venv/bin/python"), "/repo/venv/bin/python"):
        if os.path.exists(p):
            return p
    return sys.executable


_plugin_lock = threading.Lock()


def plugin():
    """A private copy of the generator; returns the path of an executable for protoc."""
    with _plugin_lock:
        srcs = tree(os.path.join(REPO, "generator"), [".py", ".proto", ".h", ".cpp", ".jinja2", ".j2", ".txt", ".in", ""])
        srcs = [s for s in srcs if "__pycache__" not in s and not s.endswith("_pb2.py")]
        key = hash_files(srcs)
        d = os.path.join(BUILD, "plugin", key)
        exe = os.path.join(d, "protoc-gen-eams")
        if os.path.exists(exe):
            return exe
        tmp = d + ".tmp%d" % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        shutil.copytree(os.path.join(REPO, "generator"), tmp, ignore=shutil.ignore_patterns("__pycache__", "*_pb2.py"))
        r = sh(["protoc", "-I", tmp, "--python_out=" + os.path.join(tmp, "EmbeddedProto"), os.path.join(tmp, "embedded_proto_options.proto")])
        if r.returncode:
            raise BuildBroken("embedded_proto_options.proto is refused by protoc", r.stdout.decode("utf-8", "replace"))
        with open(os.path.join(tmp, "protoc-gen-eams"), "w") as f:
            f.write("#!/bin/sh\nexport PYTHONPATH='%s'\nexport PYTHONDONTWRITEBYTECODE=1\nexec '%s' -m EmbeddedProto --protoc-plugin\n" % (d, python_with_protobuf()))
        os.chmod(os.path.join(tmp, "protoc-gen-eams"), 0o755)
        shutil.rmtree(d, ignore_errors=True)
        os.rename(tmp, d)
        return exe


def protos(schema_dir):
    return [os.path.relpath(p, schema_dir) for p in tree(schema_dir, [".proto"])]


def generate(schema_dir, inst=1, flags=(), name="schemas"):
    """Run protoc, the plugin and the glue generator. Returns (ep dir, glue dir, list of units)."""
    exe = plugin()
    files = protos(schema_dir)
    key = digest(hash_files([os.path.join(schema_dir, f) for f in files]), hash_files([os.path.join(HARNESS, "gen_glue.py")]), exe, inst, flags)
    d = os.path.join(BUILD, "gen", key)
    if os.path.exists(os.path.join(d, "units.json")):
        return os.path.join(d, "ep"), os.path.join(d, "gl"), json.load(open(os.path.join(d, "units.json")))
    tmp = d + ".tmp%d" % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(os.path.join(tmp, "ep"))
    gen = os.path.join(REPO, "generator")
    r = sh(["protoc", "-I", schema_dir, "-I", gen, "--include_imports", "--descriptor_set_out=" + os.path.join(tmp, "x.fds")] + files, cwd=schema_dir)
    if r.returncode:
        raise HarnessBroken("protoc: " + r.stdout.decode("utf-8", "replace"))
    r = sh(["protoc", "--plugin=protoc-gen-eams=" + exe, "-I", schema_dir, "-I", gen, "--eams_out=" + os.path.join(tmp, "ep")] + files, cwd=schema_dir)
    if r.returncode:
        raise BuildBroken("the plugin fails on supported schemas", r.stdout.decode("utf-8", "replace"))
    missing = [f for f in files if not os.path.exists(os.path.join(tmp, "ep", f[:-6] + ".h"))]
    if missing:
        raise BuildBroken("the plugin gives no output for %s" % missing, r.stdout.decode("utf-8", "replace"))
    r = subprocess.run([python_with_protobuf(), os.path.join(HARNESS, "gen_glue.py"), os.path.join(tmp, "x.fds"), os.path.join(tmp, "gl"), "--inst", str(inst)],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
    if r.returncode:
        raise HarnessBroken("gen_glue: " + r.stderr.decode("utf-8", "replace"))
    open(os.path.join(tmp, "units.json"), "wb").write(r.stdout)
    try:
        os.rename(tmp, d)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return os.path.join(d, "ep"), os.path.join(d, "gl"), json.loads(r.stdout)


CXX = "clang++-18" if shutil.which("clang++-18") else "clang++"
SAN = ["-fsanitize=address,undefined", "-ftrivial-auto-var-init=pattern", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]


class Job:
    def __init__(self, src, flags, incs, deps, code):
        """code: a failure to compile is the code's, not the harness'."""
        self.src, self.flags, self.incs, self.deps, self.code = src, list(flags), list(incs), deps, code


def compile_job(job, cxx=CXX):
    key = digest(cxx, job.flags, job.incs, job.deps, hash_files([job.src]))
    obj = os.path.join(BUILD, "obj", key + ".o")
    if os.path.exists(obj):
        return obj
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = obj + ".tmp%d_%d" % (os.getpid(), threading.get_ident())
    cmd = [cxx] + job.flags + ["-I" + i for i in job.incs] + ["-c", job.src, "-o", tmp]
    r = sh(cmd)
    if r.returncode:
        text = r.stdout.decode("utf-8", "replace")
        if r.returncode < 0 or "LLVM ERROR" in text or "Killed" in text:
            r = sh(cmd)
            text = r.stdout.decode("utf-8", "replace")
        if r.returncode:
            if job.code:
                raise BuildBroken("%s does not compile" % os.path.basename(job.src), " ".join(cmd) + "\n" + text[:6000])
            raise HarnessBroken("compile %s:\n%s\n%s" % (job.src, " ".join(cmd), text[:6000]))
    os.rename(tmp, obj)
    return obj


def link(objs, out_name, flags, libs=("-lprotobuf", "-lpthread"), cxx=CXX):
    key = digest(cxx, [os.path.basename(o) for o in objs], flags, libs)
    out = os.path.join(BUILD, "bin", out_name + "-" + key)
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".tmp%d" % os.getpid()
    r = sh([cxx] + list(flags) + objs + ["-o", tmp] + list(libs))
    if r.returncode:
        raise BuildBroken("linking fails", r.stdout.decode("utf-8", "replace")[-6000:])
    os.rename(tmp, out)
    return out


def repo_src_hash():
    return hash_files(tree(os.path.join(REPO, "src"), [".h", ".cpp", ".hpp", ".inl", ".tpp", ".ipp"]))


def harness_hash():
    return hash_files(tree(HARNESS, [".h"]))


def lib_sources():
    return sorted(glob.glob(os.path.join(REPO, "src", "*.cpp")))


def build(name, prop_units, schema=True, schema_dir=SCHEMAS, inst=1, std="c++14", defines=(), san=SAN, cxx=CXX, opt="-O1", glue_opt="-O0", harness_std="c++17", extra_libs=(), extra_flags=()):
    """Build one runner. prop_units: harness sources holding the properties (and whatever they need)."""
    src_inc = os.path.join(REPO, "src")
    rh, hh = repo_src_hash(), harness_hash()
    defs = ["-D" + d for d in defines]
    base = ["-w", "-g1"] + defs + list(san) + list(extra_flags)
    jobs = []
    ex = cf.ThreadPoolExecutor(NCPU)
    futs = []
    # The harness' own translation units which see Embedded Proto headers count as code: they only use its public interface.
    for u in prop_units:
        futs.append(ex.submit(compile_job, Job(os.path.join(HARNESS, u), ["-std=" + harness_std, opt] + base, [HARNESS, src_inc], rh + hh, True), cxx))
    for s in lib_sources():
        futs.append(ex.submit(compile_job, Job(s, ["-std=" + std, opt] + base, [src_inc], rh, True), cxx))
    err = None
    try:
        if schema:
            ep, gl, units = generate(schema_dir, inst)
            gh = digest(hash_files(tree(ep, [".h"])), hash_files(tree(gl, [".h"])))
            for u in units:
                futs.append(ex.submit(compile_job, Job(os.path.join(gl, u), ["-std=" + std, glue_opt] + base + ["-g0"], [HARNESS, gl, src_inc, ep], rh + hh + gh, True), cxx))
    except (BuildBroken, HarnessBroken) as e:
        err = e
    objs = []
    for f in futs:
        try:
            objs.append(f.result())
        except (BuildBroken, HarnessBroken) as e:
            err = err or e
    ex.shutdown()
    if err:
        raise err
    return link(objs, name, list(san) + list(extra_flags), tuple(extra_libs) + ("-lprotobuf", "-lpthread"), cxx)


def prune_cache(limit=3 << 30):
    """Keep the cache small (only matters for a directory which is used many times)."""
    items = []
    for d in ("obj", "bin", "gen", "plugin", "run"):
        for p in glob.glob(os.path.join(BUILD, d, "*")):
            try:
                if os.path.isdir(p):
                    size = sum(os.path.getsize(os.path.join(r, f)) for r, _, fs in os.walk(p) for f in fs)
                else:
                    size = os.path.getsize(p)
                items.append((os.path.getmtime(p), size, p))
            except OSError:
                pass
    total = sum(i[1] for i in items)
    for _, size, p in sorted(items):
        if total <= limit:
            break
        total -= size
        if os.path.isdir(p):
            shutil.rmtree(p, ignore_errors=True)
        else:
            try:
                os.unlink(p)
            except OSError:
                pass
