"""Runs the plugin on many requests, each in a process of its own forked from one with the third party modules loaded.

usage: zygote.py JOBS.json   jobs: list of {"req", "out", "err", "cwd", "env"}; writes JOBS.json.done: list of exit states
"""
import json
import os
import sys
sys.dont_write_bytecode = True
import runpy  # noqa
import io  # noqa
import copy  # noqa
import google.protobuf.descriptor_pb2  # noqa
import google.protobuf.compiler.plugin_pb2  # noqa
import jinja2  # noqa
import toposort  # noqa
import importlib.resources  # noqa


def child(j):
    fd = os.open(j["req"], os.O_RDONLY)
    os.dup2(fd, 0)
    fd = os.open(j["out"], os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
    os.dup2(fd, 1)
    fd = os.open(j["err"], os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
    os.dup2(fd, 2)
    if j.get("env"):
        os.environ.update(j["env"])
    if j.get("cwd"):
        os.chdir(j["cwd"])
    sys.argv = ["EmbeddedProto", "--protoc-plugin"]
    code = 0
    try:
        runpy.run_module("EmbeddedProto", run_name="__main__", alter_sys=True)
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 1
    try:
        sys.stdout.flush()
        sys.stderr.flush()
    except Exception:
        pass
    os._exit(code)


def main():
    jobs = json.load(open(sys.argv[1]))
    res = []
    for j in jobs:
        pid = os.fork()
        if pid == 0:
            child(j)
        _, st = os.waitpid(pid, 0)
        res.append(os.waitstatus_to_exitcode(st))
    json.dump(res, open(sys.argv[1] + ".done", "w"))


main()
