#!/usr/bin/env python3
"""Generate reflection glue for the classes which Embedded Proto generates from a FileDescriptorSet.

usage: gen_glue.py DESCRIPTOR_SET OUTDIR [--inst N] [--only file.proto,...]
Writes glue_<stem>.h, inst_<stem>.cpp per proto file and fds.cpp (descriptors for the oracle).
Expected capacities are derived here from the schema alone (documented template parameter order), independent of the generator.
Runs under the venv python, which has google.protobuf.
"""
import sys, os, hashlib, json
from google.protobuf import descriptor_pb2 as D

F = D.FieldDescriptorProto
SCALAR = {F.TYPE_DOUBLE, F.TYPE_FLOAT, F.TYPE_INT64, F.TYPE_UINT64, F.TYPE_INT32, F.TYPE_FIXED64, F.TYPE_FIXED32, F.TYPE_BOOL,
          F.TYPE_UINT32, F.TYPE_SFIXED32, F.TYPE_SFIXED64, F.TYPE_SINT32, F.TYPE_SINT64, F.TYPE_ENUM}
RCAPS = [1, 2, 3, 5, 9, 18]
LCAPS = [1, 2, 5, 8, 31, 130]


def varint(b, i):
    r = s = 0
    while True:
        c = b[i]; i += 1
        r |= (c & 127) << s; s += 7
        if c < 128:
            return r, i


def fields_of(b):
    i = 0
    while i < len(b):
        t, i = varint(b, i)
        w = t & 7
        if w == 0:
            v, i = varint(b, i)
        elif w == 2:
            n, i = varint(b, i); v = b[i:i + n]; i += n
        elif w == 5:
            v = b[i:i + 4]; i += 4
        else:
            v = b[i:i + 8]; i += 8
        yield t >> 3, v


def max_length(f):
    for num, v in fields_of(f.options.SerializeToString()):
        if num == 1141:
            for n2, v2 in fields_of(v):
                if n2 == 1 and v2:
                    return v2
    return None


class Msg:
    def __init__(self, d, full, cpp, parents, file):
        self.d, self.full, self.cpp, self.parents, self.file = d, full, cpp, parents, file


def load(path):
    fds = D.FileDescriptorSet()
    fds.ParseFromString(open(path, "rb").read())
    msgs = {}
    keep = D.FileDescriptorSet()
    def skip(name):
        return name.endswith("embedded_proto_options.proto") or name.startswith("google/protobuf/descriptor")
    for fd in fds.file:
        if skip(fd.name):
            continue
        pk = ("." + fd.package) if fd.package else ""
        ns = "::" + (fd.package.replace(".", "::") + "::" if fd.package else "")

        def walk(d, full, cpp, parents):
            m = Msg(d, full, cpp, parents, fd.name)
            # Fields of the own type are left out by the generator by design.
            for i in reversed([i for i, f in enumerate(d.field) if f.type_name == full]):
                del d.field[i]
            msgs[full] = m
            for n in d.nested_type:
                walk(n, full + "." + n.name, cpp + "::" + n.name, parents + [m])
        for d in fd.message_type:
            walk(d, pk + "." + d.name, ns + d.name, [])
        keep.file.add().CopyFrom(fd)
    # the descriptors for the oracle
    for fd in keep.file:
        deps = [d for d in fd.dependency if not skip(d)]
        del fd.dependency[:]; fd.dependency.extend(deps)
        del fd.public_dependency[:]; del fd.weak_dependency[:]
        fd.ClearField("source_code_info")
        def conv(d):
            for f in d.field:
                f.ClearField("options")
                if f.type == F.TYPE_STRING:
                    f.type = F.TYPE_BYTES; f.json_name = "vpString" + f.name
                if f.type == F.TYPE_ENUM:
                    f.type = F.TYPE_UINT32; f.ClearField("type_name"); f.json_name = "vpEnum" + f.name
            del d.enum_type[:]
            for n in d.nested_type:
                conv(n)
        del fd.enum_type[:]
        for d in fd.message_type:
            conv(d)
    return fds, keep, msgs


def is_optional(f): return f.proto3_optional
def in_oneof(f): return f.HasField("oneof_index") and not f.proto3_optional
def ordered_fields(d):
    """Declaration order of plain fields, then the members of each oneof."""
    plain = [f for f in d.field if not in_oneof(f)]
    res = list(plain)
    for i in range(len(d.oneof_decl)):
        res += [f for f in d.field if in_oneof(f) and f.oneof_index == i]
    return res


def caps(msgs, m, path=()):
    """All capacities of a message: list of [path, kind, fixed value or None] in template parameter order."""
    out = []
    for f in ordered_fields(m.d):
        p = path + (f.number,)
        ml = max_length(f)
        if f.label == F.LABEL_REPEATED:
            out.append([p, "r", ml])
        if f.type in (F.TYPE_STRING, F.TYPE_BYTES):
            out.append([p, "l", ml])
        elif f.type == F.TYPE_MESSAGE:
            out += caps(msgs, msgs[f.type_name], p)
    return out


def has_params(msgs, m):
    return any(c[2] is None for c in caps(msgs, m))


def nfields(msgs, m):
    n = 0
    for f in m.d.field:
        n += 2 if f.label == F.LABEL_REPEATED else 1
        if f.type == F.TYPE_MESSAGE:
            n += nfields(msgs, msgs[f.type_name])
    return n


# Proto types which have the same C++ type.
CTYPE = {F.TYPE_INT32: "i32", F.TYPE_SINT32: "i32", F.TYPE_SFIXED32: "i32", F.TYPE_INT64: "i64", F.TYPE_SINT64: "i64", F.TYPE_SFIXED64: "i64",
         F.TYPE_UINT32: "u32", F.TYPE_FIXED32: "u32", F.TYPE_UINT64: "u64", F.TYPE_FIXED64: "u64", F.TYPE_BOOL: "b", F.TYPE_FLOAT: "f", F.TYPE_DOUBLE: "d"}


def gname(m): return "Glue" + m.full.replace("_", "_u").replace(".", "_d")


def emit_glue(msgs, m):
    d = m.d
    N = gname(m)
    o = []
    w = o.append
    w("template<class M> struct %s : gl::Base<M> {" % N)
    w("  using gl::Base<M>::m; using gl::Base<M>::c; explicit %s(M* x) : gl::Base<M>(x) {}" % N)
    w('  const char* type() const override { return "%s"; }' % m.full[1:])
    cases = {k: [] for k in "has clear get set mut_str get_str raw_str set_str mut_sub get_sub set_sub mut_rep get_rep set_rep alias rep_add rep_set rep_put rep_scalar rep_str rep_msg number cname".split()}
    for i, f in enumerate(d.field):
        x = f.name
        one, opt, rep = in_oneof(f), is_optional(f), f.label == F.LABEL_REPEATED
        def case(k, body): cases[k].append("case %d: { %s }" % (i, body))
        case("number", "return static_cast<uint32_t>(M::FieldNumber::%s);" % x.upper())
        case("cname", "return M::%s_NAME;" % x.upper())
        if one or opt:
            case("has", "return c().has_%s();" % x)
        case("clear", "m->clear_%s(); return;" % x)
        # Set a field from the reference its own getter, or that of another scalar member of the oneof, returns.
        scalar = not rep and f.type not in (F.TYPE_MESSAGE, F.TYPE_STRING, F.TYPE_BYTES)
        body = "if(g == %d) { m->set_%s(c().get_%s()); return true; }" % (i, x, x)
        if scalar and one:
            for j, h in enumerate(d.field):
                if j != i and in_oneof(h) and h.oneof_index == f.oneof_index and CTYPE.get(h.type, h.type_name) == CTYPE.get(f.type, f.type_name):
                    body += " if(g == %d) { m->set_%s(c().get_%s()); return true; }" % (j, x, h.name)
        case("alias", body + " return false;")
        if f.type == F.TYPE_MESSAGE:
            kind = "gl::KMsg, " + gname(msgs[f.type_name])
        elif f.type in (F.TYPE_STRING, F.TYPE_BYTES):
            kind = "gl::KStr, gl::NoGlue"
        else:
            kind = "gl::KScalar, gl::NoGlue"
        if rep:
            R = "typename std::decay<decltype(c().get_%s())>::type" % x
            case("mut_rep", "return gl::repview<%s>(EPC(m->mutable_%s()));" % (kind, x))
            case("get_rep", "return v ? gl::repview<%s>(EPC(c().%s())) : gl::repview<%s>(EPC(c().get_%s()));" % (kind, x, kind, x))
            case("set_rep", "typedef %s R; std::unique_ptr<R> r(new R()); { auto v = gl::repview<%s>(*r); fill(*v); } EpScope e; m->set_%s(*r); return;" % (R, kind, x))
            E = "typename gl::rep_elem<%s>::type" % R
            case("rep_add", "typedef %s E; std::unique_ptr<E> e(gl::mkelem<%s>(c().get_%s(), v)); EpScope s; m->add_%s(*e); return;" % (E, kind, x, x))
            case("rep_set", "typedef %s E; std::unique_ptr<E> e(gl::mkelem<%s>(c().get_%s(), v)); EpScope s; if(var) m->set_%s(i, std::move(*e)); else { const E& k = *e; m->set_%s(i, k); } return;" % (E, kind, x, x, x))
            case("rep_put", "gl::put_elem<%s>(EPC(m->mutable_%s(i)), v); return;" % (kind, x))
            if f.type == F.TYPE_MESSAGE:
                case("rep_msg", "return gl::e_msg<%s>(EPC(c().%s(i)));" % (kind, x))
            elif f.type in (F.TYPE_STRING, F.TYPE_BYTES):
                case("rep_str", "return gl::e_str<%s>(EPC(c().%s(i)));" % (kind, x))
            else:
                case("rep_scalar", "return gl::e_scalar<%s>(EPC(c().%s(i)));" % (kind, x))
        elif f.type == F.TYPE_MESSAGE:
            T = "typename std::decay<decltype(c().get_%s())>::type" % x
            G = gname(msgs[f.type_name])
            case("mut_sub", "return IMsgP(new %s<%s>(&EPC(m->mutable_%s())));" % (G, T, x))
            case("get_sub", "typedef %s T; return IMsgP(new %s<T>(const_cast<T*>(v ? &EPC(c().%s()) : &EPC(c().get_%s()))));" % (T, G, x, x))
            case("set_sub", "typedef %s T; std::unique_ptr<T> t(new T()); { %s<T> g(t.get()); fill(g); } EpScope e; if(v) m->set_%s(std::move(*t)); else { const T& k = *t; m->set_%s(k); } return;" % (T, G, x, x))
        elif f.type in (F.TYPE_STRING, F.TYPE_BYTES):
            T = "typename std::decay<decltype(c().get_%s())>::type" % x
            case("mut_str", "return gl::strview(EPC(m->mutable_%s()));" % x)
            case("get_str", "return gl::strview(EPC(c().get_%s()));" % x)
            case("raw_str", "return reinterpret_cast<const char*>(c().%s());" % x)
            case("set_str", "typedef %s T; std::unique_ptr<T> t(new T()); gl::str_set(*t, s); EpScope e; m->set_%s(*t); return;" % (T, x))
        else:
            T = "typename std::decay<decltype(c().get_%s())>::type" % x
            case("get", "return v ? gl::from(c().%s()) : gl::from(c().get_%s());" % (x, x))
            mut = "if(v == 2) { m->mutable_%s() = t; return; }" % x if (f.type != F.TYPE_ENUM and not one) else ""
            case("set", "typedef %s T; T t = gl::bits<T>::to(u); EpScope e; %s if(v == 1) m->set_%s(std::move(t)); else { const T& k = t; m->set_%s(k); } return;" % (T, mut, x, x))
    def fn(sig, key, scope=True):
        body = " ".join(cases[key])
        sc = "EpScope s_; " if scope else ""
        w("  %s override { %s%s gl::unsupported(\"%s\"); }" % (sig, sc if body else "", ("switch(f) { %s default: break; }" % body) if body else "", key))
    fn("bool has(int f) const", "has")
    fn("void clear_field(int f)", "clear")
    fn("uint64_t get(int f, int v) const", "get")
    fn("void set(int f, uint64_t u, int v)", "set", False)
    fn("IStrP mut_str(int f)", "mut_str", False)
    fn("IStrP get_str(int f) const", "get_str", False)
    fn("const char* raw_str(int f) const", "raw_str")
    fn("void set_str(int f, const std::string& s)", "set_str", False)
    fn("IMsgP mut_sub(int f)", "mut_sub", False)
    fn("IMsgP get_sub(int f, int v) const", "get_sub", False)
    fn("void set_sub(int f, const Fill& fill, int v)", "set_sub", False)
    fn("IRepP mut_rep(int f)", "mut_rep", False)
    fn("IRepP get_rep(int f, int v) const", "get_rep", False)
    fn("void set_rep(int f, const FillRep& fill)", "set_rep", False)
    fn("bool alias_set(int f, int g)", "alias")
    fn("void rep_add(int f, const Elem& v)", "rep_add", False)
    fn("void rep_set(int f, uint32_t i, const Elem& v, int var)", "rep_set", False)
    fn("void rep_put(int f, uint32_t i, const Elem& v)", "rep_put", False)
    fn("uint64_t rep_scalar(int f, uint32_t i) const", "rep_scalar", False)
    fn("std::string rep_str(int f, uint32_t i) const", "rep_str", False)
    fn("IMsgP rep_msg(int f, uint32_t i) const", "rep_msg", False)
    fn("uint32_t field_number(int f) const", "number")
    fn("const char* name_const(int f) const", "cname")
    ones = [i for i in range(len(d.oneof_decl)) if any(in_oneof(f) and f.oneof_index == i for f in d.field)]
    w("  uint32_t which(int o) const override { %s gl::unsupported(\"which\"); }" %
      (("switch(o) { " + " ".join("case %d: return static_cast<uint32_t>(EPC(c().get_which_%s()));" % (i, d.oneof_decl[i].name) for i in ones) + " default: break; }") if ones else ""))
    w("};")
    return "\n".join(o)


def cap_value(full, inst, path, kind):
    h = int(hashlib.sha256(("%s/%d/%s/%s" % (full, inst, path, kind)).encode()).hexdigest(), 16)
    return (RCAPS if kind == "r" else LCAPS)[h % 6]


def main():
    fdspath, out = sys.argv[1], sys.argv[2]
    ninst = 1
    if "--inst" in sys.argv:
        ninst = int(sys.argv[sys.argv.index("--inst") + 1])
    fds, keep, msgs = load(fdspath)
    files = {}
    for m in msgs.values():
        files.setdefault(m.file, []).append(m)
    # Order of glue: submessages first.
    def stem(f): return os.path.splitext(f)[0].replace("/", "_")
    os.makedirs(out, exist_ok=True)
    def write(name, text):
        p = os.path.join(out, name)
        if not os.path.exists(p) or open(p).read() != text:
            open(p, "w").write(text)
    deps = {fd.name: list(fd.dependency) for fd in keep.file}
    units = []
    for fname in deps:
        ms = files.get(fname, [])
        h = ["#pragma once", '#include "gluelib.h"', '#include "%s.h"' % os.path.splitext(fname)[0]]
        h += ['#include "glue_%s.h"' % stem(d) for d in deps[fname]]
        for m in ms:
            h.append("template<class M> struct %s;" % gname(m))
        done = set()
        def rec(m):
            if m.full in done:
                return
            done.add(m.full)
            for f in m.d.field:
                if f.type == F.TYPE_MESSAGE and msgs[f.type_name].file == fname:
                    rec(msgs[f.type_name])
            h.append(emit_glue(msgs, m))
        for m in ms:
            rec(m)
        write("glue_%s.h" % stem(fname), "\n".join(h) + "\n")
        # Spread over several translation units, such that they compile in parallel.
        tus, weight = [], 0
        n = 0
        for m in ms:
            # Types nested in a templated parent can only be reached through their parent.
            if any(has_params(msgs, p) for p in m.parents):
                continue
            for k in range(ninst if has_params(msgs, m) else 1):
                cl, args = [], []
                for path, kind, fixed in caps(msgs, m):
                    v = fixed if fixed is not None else cap_value(m.full, k, path, kind)
                    if fixed is None:
                        args.append(v)
                    cl.append("%s:%s%d" % (".".join(map(str, path)), kind, v))
                ty = m.cpp + ("<%s>" % ", ".join(map(str, args)) if args else "")
                w = nfields(msgs, m)
                if not tus or weight + w > 60:
                    tus.append([])
                    weight = 0
                weight += w
                tus[-1].append('static TypeReg r%d(gl::Ops<%s, %s>::ops("%s", "%s", "%s"));' % (n, ty, gname(m), m.full[1:], ty, " ".join(cl)))
                n += 1
        for i, t in enumerate(tus):
            write("inst_%s_%d.cpp" % (stem(fname), i), "\n".join(['#include "glue_%s.h"' % stem(fname)] + t) + "\n")
            units.append("inst_%s_%d.cpp" % (stem(fname), i))
    b = keep.SerializeToString(deterministic=True)
    write("fds.cpp", "extern const unsigned char g_fds[]; extern const unsigned long g_fds_len;\nconst unsigned char g_fds[] = {%s};\nconst unsigned long g_fds_len = %d;\n" % (",".join(map(str, b)) or "0", len(b)))
    units.append("fds.cpp")
    print(json.dumps(units))


if __name__ == "__main__":
    main()
