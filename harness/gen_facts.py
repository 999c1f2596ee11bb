#!/usr/bin/env python3
"""Facts which the generated classes have to fulfil, derived from the descriptors alone, as static assertions (C++11).

usage: gen_facts.py LIST   with lines "descriptor_set<TAB>output.cpp"
"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import gen_glue as G  # noqa: E402
F = G.F
CPP = {F.TYPE_DOUBLE: "double", F.TYPE_FLOAT: "float", F.TYPE_INT64: "int64_t", F.TYPE_UINT64: "uint64_t", F.TYPE_INT32: "int32_t", F.TYPE_FIXED64: "uint64_t", F.TYPE_FIXED32: "uint32_t", F.TYPE_BOOL: "bool",
       F.TYPE_UINT32: "uint32_t", F.TYPE_SFIXED32: "int32_t", F.TYPE_SFIXED64: "int64_t", F.TYPE_SINT32: "int32_t", F.TYPE_SINT64: "int64_t"}


def own_args(msgs, m):
    """Values of the template parameters of m, all different where possible, and the capacity of each path."""
    args, vals = [], {}
    n = 1
    for path, kind, fixed in G.caps(msgs, m):
        v = fixed
        if v is None:
            v = 1 + (n * 3) % 23
            n += 1
            args.append(v)
        vals[(path, kind)] = v
    return args, vals


def inst(msgs, m):
    """C++ type of an instance of m."""
    def one(x):
        a, _ = own_args(msgs, x)
        return x.d.name + ("<%s>" % ", ".join(map(str, a)) if a else "")
    base = m.cpp if not m.parents else m.parents[0].cpp
    ns = base[:base.rindex("::") + 2]
    return ns + "::".join(one(x) for x in m.parents + [m])


def facts(fds_path):
    fds, keep, msgs = G.load(fds_path)
    o = []
    names = [f.name for f in fds.file if not f.name.endswith("embedded_proto_options.proto") and not f.name.startswith("google/protobuf/descriptor")]
    # Every header has to stand on its own: each is the first one in some configuration, and users come before what they use.
    heads = ['#include "%s.h"' % os.path.splitext(n)[0] for n in names]
    for i, h in enumerate(heads):
        o += ["#if VP_FIRST %% %d == %d" % (len(heads), i), h, "#endif"]
    o += heads[::-1] + ['#include "facts.h"']
    body = []

    def enum(scope, e):
        for v in e.value:
            body.append('static_assert(static_cast<uint32_t>(%s%s::%s) == %du, "enum value %s");' % (scope, e.name, v.name, v.number, v.name))
        body.append('static_assert(std::is_same<std::underlying_type<%s%s>::type, uint32_t>::value, "enum type");' % (scope, e.name))
    raw = G.D.FileDescriptorSet()
    raw.ParseFromString(open(fds_path, "rb").read())
    for f in raw.file:
        if f.name in names:
            for e in f.enum_type:
                enum("::" + (f.package.replace(".", "::") + "::" if f.package else ""), e)
    rawmsg = {}

    def walk(d, full):
        rawmsg[full] = d
        for n in d.nested_type:
            walk(n, full + "." + n.name)
    for f in raw.file:
        for d in f.message_type:
            walk(d, ("." + f.package if f.package else "") + "." + d.name)
    k = 0
    for m in msgs.values():
        T = inst(msgs, m)
        t = "T%d" % k
        k += 1
        args, vals = own_args(msgs, m)
        if args:
            body.append("template class %s;" % T)
        body.append("typedef %s %s;" % (T, t))
        body.append('static_assert(std::is_base_of<::EmbeddedProto::MessageInterface, %s>::value, "message");' % t)
        body.append('static_assert(static_cast<uint32_t>(%s::FieldNumber::NOT_SET) == 0u, "NOT_SET");' % t)
        for e in rawmsg[m.full].enum_type:
            enum(t + "::", e)
        for f in m.d.field:
            u = f.name.upper()
            body.append('static_assert(static_cast<uint32_t>(%s::FieldNumber::%s) == %du, "number of %s");' % (t, u, f.number, f.name))
            body.append('static_assert(facts::same(%s::%s_NAME, "%s"), "name");' % (t, u, f.name))
            g = "facts::decay<decltype(std::declval<const %s&>().get_%s())>::type" % (t, f.name)
            r = f.label == F.LABEL_REPEATED
            if r:
                body.append('static_assert(facts::rep<%s>::N == %du, "capacity of %s");' % (g, vals[((f.number,), "r")], f.name))
                g = "facts::rep<%s>::elem" % g
            if f.type in (F.TYPE_STRING, F.TYPE_BYTES):
                body.append('static_assert(facts::str<%s>::N == %du && facts::str<%s>::text == %s, "string %s");' % (g, vals[((f.number,), "l")], g, "true" if f.type == F.TYPE_STRING else "false", f.name))
            elif f.type == F.TYPE_MESSAGE:
                s = msgs[f.type_name]
                a = [vals[(p, kd)] for p, kd, fx in G.caps(msgs, s, (f.number,)) if fx is None]
                # The type of a message inside a templated parent is only known relative to it.
                if not any(G.has_params(msgs, p) for p in s.parents):
                    body.append('static_assert(std::is_same<%s, %s%s>::value, "message type of %s");' % (g, s.cpp, "<%s>" % ", ".join(map(str, a)) if a else "", f.name))
            elif f.type == F.TYPE_ENUM:
                body.append('static_assert(std::is_enum<facts::value<%s>::type>::value, "enum %s");' % (g, f.name))
            else:
                body.append('static_assert(std::is_same<facts::value<%s>::type, %s>::value, "type of %s");' % (g, CPP[f.type], f.name))
            if G.in_oneof(f) or G.is_optional(f):
                body.append('static_assert(std::is_same<decltype(std::declval<const %s&>().has_%s()), bool>::value, "has_%s");' % (t, f.name, f.name))
    used = "use"
    return "\n".join(o + ["namespace facts_%s {}" % used] + body) + "\n"


def main():
    for line in open(sys.argv[1]):
        line = line.rstrip("\n")
        if line:
            src, dst = line.split("\t")
            open(dst, "w").write(facts(src))


if __name__ == "__main__":
    main()
