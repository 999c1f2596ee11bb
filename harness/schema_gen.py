"""Random proto3 schemas within (or, by choice, just outside) what Embedded Proto supports, as plain data which can be shrunk.

group: {"k": number, "files": [file]}
file:  {"name", "package", "syntax", "enums", "msgs", "order"}
msg:   {"name", "enums", "msgs", "fields", "oneofs", "order"}
field: {"name", "num", "type" (scalar name or None), "ref" ([file index, [names]] or None), "kind" ("m" or "e" for refs), "label", "oneof", "maxlen"}
"""
import copy
import random

SCALARS = ["double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool"]
MSG_NAMES = ["Alpha", "Beta", "Node", "Item", "ItemList", "Item2", "Data", "DataX", "Config", "Config_Old", "A", "B", "AB", "ABC", "Reading", "Status", "Packet", "Pack", "X", "Y1", "Error", "Message", "FieldString", "EmbeddedProto", "std"]
ENUM_NAMES = ["Mode", "ModeX", "State", "Color", "Kind", "Level", "Err", "Flag_Set", "WireType", "boolean"]
FIELD_NAMES = ["fields", "tag", "result", "return_value", "wire_type", "rhs", "values", "mask", "field_name", "id_tag", "str", "a", "b", "c", "x", "y", "z", "value", "index", "length", "data", "size", "name", "id", "type", "buffer", "status", "mode", "level", "temperature", "x_pos", "y_pos", "list_of_items", "camelCase", "text",
               "payload", "count", "f1", "f2", "f3", "f_4", "rhs", "result", "field", "number", "error", "flags", "mask", "bytes_left", "state", "msg", "first", "left_chars", "tag"]
ONEOF_NAMES = ["choice", "kind_of", "one", "alternative", "oo", "union_", "variant", "pick"]
FILE_NAMES = ["a", "options", "sub/descriptor", "messages", "sub/b", "my-file", "sub/my-file2", "3d", "sub.dir", "CamelCase", "sub/deep/er", "with_underscore"]


def field_number(r, used):
    while True:
        c = r.randrange(10)
        if c < 5:
            n = r.randint(1, 15)
        elif c < 7:
            n = r.randint(16, 300)
        elif c == 7:
            n = r.choice([15, 16, 17, 127, 128, 129, 2047, 2048, 18999, 20000, 262143, 262144, 33554431, 33554432, 536870910, 536870911])
        else:
            n = r.randint(1, 536870911)
        if n not in used and not 19000 <= n <= 19999:
            used.add(n)
            return n


def new_enum(r, name):
    n = r.randint(1, 5)
    vals = [0]
    for _ in range(n - 1):
        vals.append(r.choice([r.randint(1, 9), r.randint(10, 300), 127, 128, 255, 256, 2147483647, r.randint(1, 2147483647)]))
    alias = len(set(vals)) != len(vals)
    up = name.upper() if r.randrange(3) else name.lower()
    out = [["%s_V%d" % (up, i), v] for i, v in enumerate(vals)]
    rest = out[1:]
    r.shuffle(rest)
    return {"name": name, "values": out[:1] + rest, "alias": alias}


def skeleton(r, names, enames, depth):
    m = {"name": names.pop(), "enums": [], "msgs": [], "fields": [], "oneofs": []}
    if depth < 3:
        for _ in range(r.choice([0, 0, 0, 1, 1, 2] if depth else [0, 0, 1, 1, 2, 3])):
            if names:
                m["msgs"].append(skeleton(r, names, enames, depth + 1))
    for _ in range(r.choice([0, 0, 0, 1, 2])):
        if enames:
            m["enums"].append(new_enum(r, enames.pop()))
    return m


def walk(files):
    """Yields (file index, path, msg)."""
    def rec(i, path, m):
        yield i, path, m
        for n in m["msgs"]:
            yield from rec(i, path + [n["name"]], n)
    for i, f in enumerate(files):
        for m in f["msgs"]:
            yield from rec(i, [m["name"]], m)


def find(files, ref):
    i, path = ref
    cur = files[i]
    for n in path[:-1]:
        cur = next((m for m in cur["msgs"] if m["name"] == n), None)
        if cur is None:
            return None
    return next((m for m in cur["msgs"] + cur["enums"] if m["name"] == path[-1]), None)


def plain_then_oneofs(m):
    out = [f for f in m["fields"] if f["oneof"] is None]
    for k in range(len(m["oneofs"])):
        out += [f for f in m["fields"] if f["oneof"] == k]
    return out


def templated(files, ref, seen=()):
    """Does this message need template parameters?"""
    m = find(files, ref)
    key = (ref[0], tuple(ref[1]))
    if m is None or key in seen:
        return False
    for f in m["fields"]:
        if f["ref"] and [f["ref"][0], f["ref"][1]] == [ref[0], list(ref[1])]:
            continue          # recursive, left out
        if not f["maxlen"] and (f["label"] == "repeated" or f["type"] in ("string", "bytes")):
            return True
        if f["ref"] and f["kind"] == "m" and templated(files, f["ref"], seen + (key,)):
            return True
    return False


def edge(at, ref):
    """The constraint on the order of class definitions which a field in message at, of type ref, gives: None, or a pair of paths."""
    if at[0] != ref[0]:
        return None
    a, t = at[1], ref[1]
    n = 0
    while n < len(a) and n < len(t) and a[n] == t[n]:
        n += 1
    if n == len(t) or n == len(a):
        return None            # an enclosing message (judged elsewhere) or defined inside
    if n == len(t) - 1 and n == 0:
        pass
    return (at[0], tuple(a[:n + 1])), (at[0], tuple(t[:n + 1]))


def problems(files):
    """Fields which make the schema unsupported: (kind, file, path, field)."""
    out = []
    edges = {}
    for i, path, m in walk(files):
        for f in m["fields"]:
            if not f["ref"]:
                continue
            ref = f["ref"]
            if find(files, ref) is None:
                out.append(("dangling", i, path, f))
                continue
            if ref[0] == i and f["kind"] == "m":
                if ref[1] == path:
                    if f["oneof"] is not None or f["label"] == "optional":
                        out.append(("recursive", i, path, f))
                    continue
                if path[:len(ref[1])] == ref[1]:
                    out.append(("circular", i, path, f))
                    continue
            e = edge((i, path), ref)
            if e and e[0] != e[1] and not (f["kind"] == "e" and len(ref[1]) == len(e[1][1])):   # an enum next to it comes first anyway
                edges.setdefault(e[0], []).append((e[1], i, path, f))
            # Scopes with templates which do not surround the field.
            for n in range(1, len(ref[1])):
                scope = ref[1][:n]
                if not (ref[0] == i and path[:n] == scope) and templated(files, [ref[0], scope]):
                    out.append(("scope", i, path, f))
                    break
    # Cycles: repeatedly search one.
    removed = set()

    def cycle():
        color, st = {}, []

        def dfs(v):
            color[v] = 1
            for (w, i, path, f) in edges.get(v, []):
                if id(f) in removed:
                    continue
                if color.get(w) == 1:
                    return (i, path, f)
                if not color.get(w):
                    c = dfs(w)
                    if c:
                        return c
            color[v] = 2
            return None
        for v in list(edges):
            if not color.get(v):
                c = dfs(v)
                if c:
                    return c
        return None
    while True:
        c = cycle()
        if not c:
            break
        removed.add(id(c[2]))
        out.append(("circular",) + c)
    return out


def drop(m, f):
    m["fields"] = [x for x in m["fields"] if x is not f]


def prune_oneofs(m):
    used = [k for k in range(len(m["oneofs"])) if any(f["oneof"] == k for f in m["fields"])]
    m["oneofs"] = [m["oneofs"][k] for k in used]
    for f in m["fields"]:
        if f["oneof"] is not None:
            f["oneof"] = used.index(f["oneof"])


def repair(files):
    while True:
        p = problems(files)
        if not p:
            break
        for _, i, path, f in p:
            drop(find(files, [i, path]), f)
    for _, _, m in walk(files):
        prune_oneofs(m)


def all_refs(files):
    ms, es = [], []
    for i, f in enumerate(files):
        es += [[i, [e["name"]]] for e in f["enums"]]
    for i, path, m in walk(files):
        ms.append([i, path])
        es += [[i, path + [e["name"]]] for e in m["enums"]]
    return ms, es


def add_field(r, files, i, path, m, ms, es, used, nums, small):
    names = [n for n in FIELD_NAMES if n.upper() not in used]
    if not names:
        return None
    name = r.choice(names)
    used.add(name.upper())
    f = {"name": name, "num": field_number(r, nums), "type": None, "ref": None, "kind": None, "label": "", "oneof": None, "maxlen": 0}
    c = r.randrange(20)
    vis_m = [x for x in ms if x[0] <= i]
    vis_e = [x for x in es if x[0] <= i]
    if c < 9:
        f["type"] = r.choice(SCALARS)
    elif c < 13:
        f["type"] = r.choice(["string", "bytes"])
    elif c < 15 and vis_e:
        f["ref"], f["kind"] = copy.deepcopy(r.choice(vis_e)), "e"
    elif vis_m:
        near = [x for x in vis_m if x[0] == i]
        f["ref"], f["kind"] = copy.deepcopy(r.choice(near if near and r.randrange(3) else vis_m)), "m"
    else:
        f["type"] = r.choice(SCALARS)
    if m["oneofs"] and r.randrange(4) == 0:
        f["oneof"] = r.randrange(len(m["oneofs"]))
    else:
        f["label"] = r.choice(["", "", "", "optional", "repeated", "repeated"])
    if f["label"] == "repeated" or f["type"] in ("string", "bytes"):
        if r.randrange(3) == 0:
            f["maxlen"] = r.choice([1, 2, 3, 4, 7, 8, 16, 31, 127, 128] if not small else [1, 2, 3, 4, 7])
    m["fields"].append(f)
    return f


def gen_group(seed, k, small=False, fix=True):
    r = random.Random("%s/%s" % (seed, k))
    nf = r.choice([1, 1, 2, 2, 3])
    fnames = r.sample(FILE_NAMES, nf)
    pk = ["g%s" % k, "g%s.common%s" % (k, k), "common%s" % k, "g%s.b.c" % k, ""]
    # Names the library uses as well: either in packages or for messages.
    named_pk = r.randrange(3) == 0
    if named_pk:
        pk += ["g%s.EmbeddedProto" % k, "g%s.std" % k]
    files = []
    flat = r.random() < 0.15
    for i in range(nf):
        package = r.choice(pk)
        names, enames = [n for n in MSG_NAMES if not (named_pk and n in ("EmbeddedProto", "std"))], list(ENUM_NAMES)
        if any(f["package"] == package for f in files) or package == "":
            names = [n + "F%dG%s" % (i, k) for n in names]
            enames = [n + "F%dG%s" % (i, k) for n in enames]
        r.shuffle(names)
        r.shuffle(enames)
        f = {"name": "g%s/%s.proto" % (k, fnames[i]) if r.randrange(4) else "g%s_%s.proto" % (k, fnames[i].replace("/", "_") + str(i)), "package": package, "syntax": "proto3", "enums": [], "msgs": []}
        if files and r.randrange(3) == 0:
            # A name which resembles that of an earlier file.
            other = r.choice(files)["name"][:-6]
            base = other.split("/")[-1]
            name = r.choice(["g%s/alt/%s" % (k, base), "g%s/alt/%s" % (k, base), other.replace("/", "_"), other.replace("/", "-"), other.replace("-", "_"), other.upper(), other + "_h"]) + ".proto"
            # As with other generators the compiler looks for an include next to the including file first, so names
            # which are found there by mistake are left out.
            all_names = [x["name"] for x in files] + [name]
            near = any("/" in x and x.rsplit("/", 1)[0] + "/" + y in all_names for x in all_names for y in all_names)
            if not near and all(x["name"] != name and not x["name"].startswith(name[:-6] + "/") for x in files):
                f["name"] = name
        top = list(names)
        for _ in range(r.choice([0, 1, 2])):
            f["enums"].append(new_enum(r, enames.pop()))
        for _ in range(r.randint(1, 5 if small else 6)):
            n = top.pop()
            # Nested names are unique within one top level message, but may equal those of other messages.
            inner = [x for x in names if x != n]
            r.shuffle(inner)
            ein = list(enames)
            r.shuffle(ein)
            tree = [n] + inner
            pool = inner[:6] + [n]
            f["msgs"].append(skeleton(r, pool, ein[:4], 2 if flat else 0))
        files.append(f)
    ms, es = all_refs(files)
    for i, path, m in walk(files):
        if r.randrange(3) == 0:
            m["oneofs"] = r.sample(ONEOF_NAMES, r.choice([1, 1, 1, 2, 2, 3, 5, 7]))
        # Names of nested types and of the message itself are not used for fields.
        used = {path[-1].upper(), "NOT_SET"} | {o.upper() for o in m["oneofs"]} | {n["name"].upper() for n in m["msgs"] + m["enums"]}
        nums = set()
        n = r.choice([0, 1, 2, 3, 4, 5, 6] if small else [0, 1, 2, 3, 4, 5, 6, 8, 12])
        if r.random() < 0.02:
            n = 36
        for _ in range(n):
            add_field(r, files, i, path, m, ms, es, used, nums, small)
    if fix:
        repair(files)
        limit(files)
    for i, path, m in walk(files):
        m["seed"] = r.randrange(1 << 30)
    for f in files:
        f["seed"] = r.randrange(1 << 30)
    return {"k": k, "files": files, "extras": r.randrange(2) == 0}


def weight(files, ref, seen=()):
    key = (ref[0], tuple(ref[1]))
    if key in seen:
        return 0
    w = 1
    for f in find(files, ref)["fields"]:
        n = (f["maxlen"] or 4) if f["label"] == "repeated" else 1
        w += n * (weight(files, f["ref"], seen + (key,)) if f["kind"] == "m" else 1)
    return w


def limit(files):
    """Keep the nested repetition small, objects have a fixed size."""
    for i, path, m in walk(files):
        while weight(files, [i, path]) > 600:
            c = [f for f in m["fields"] if f["kind"] == "m"]
            if not c:
                break
            drop(m, c[-1])
    repair(files)


def full(files, ref):
    p = files[ref[0]]["package"]
    return "." + (p + "." if p else "") + ".".join(ref[1])


def render_enum(e, ind):
    s = ind + "enum %s {\n" % e["name"]
    if e["alias"]:
        s += ind + "  option allow_alias = true;\n"
    for n, v in e["values"]:
        s += ind + "  %s = %d;\n" % (n, v)
    return s + ind + "}\n"


COMMENTS = ["the value", "{{ field }} {% if %} {# x", "\\\\ back \\", '"quotes" and \'c\'', "*/ end".replace("*/", "* /"), "#endif", "caf\u00e9 \u2192 \u4e16"]
WKT = ["timestamp", "duration", "empty", "wrappers"]


def render_field(files, f, ind, x=None):
    t = f["type"] or full(files, f["ref"])
    lab = f["label"] + " " if f["label"] and f["oneof"] is None else ""
    opts = ["(.EmbeddedProto.options).maxLength = %d" % f["maxlen"]] if f["maxlen"] else []
    note = ""
    if x:
        if x.randrange(6) == 0:
            opts.append("deprecated = true")
        if lab == "repeated " and f["type"] not in ("string", "bytes") and f["kind"] != "m" and x.randrange(3) == 0:
            opts.append(x.choice(["packed = true", "packed = false"]))
        x.shuffle(opts)
        if x.randrange(4) == 0:
            note = x.choice(["  // %s", "  /* %s */"]) % x.choice(COMMENTS)
    return ind + "%s%s %s = %d%s;%s\n" % (lab, t, f["name"], f["num"], " [%s]" % ", ".join(opts) if opts else "", note)


def render_msg(files, m, ind, x=None):
    """x: source of choices for the parts which have no meaning for the code (comments, reserved names, options)."""
    r = random.Random(m.get("seed", 0))
    items = [render_enum(e, ind + "  ") for e in m["enums"]] + [render_msg(files, n, ind + "  ", x) for n in m["msgs"]]
    items += [render_field(files, f, ind + "  ", x) for f in m["fields"] if f["oneof"] is None]
    for k, o in enumerate(m["oneofs"]):
        fs = [f for f in m["fields"] if f["oneof"] == k]
        if fs:
            items.append(ind + "  oneof %s {\n" % o + "".join(render_field(files, f, ind + "    ", x) for f in fs) + ind + "  }\n")
    r.shuffle(items)
    if x:
        if x.randrange(3) == 0:
            items.append(ind + '  reserved "old_one", "removed";\n')
        if x.randrange(3) == 0:
            used = {f["num"] for f in m["fields"]}
            n = next(n for n in range(x.randint(1, 20), 1000) if n not in used)
            items.append(ind + "  reserved %d;\n" % n)
        if x.randrange(4) == 0:
            items.insert(0, ind + "  option deprecated = true;\n")
        if x.randrange(3) == 0:
            items.insert(0, ind + "  // %s\n" % x.choice(COMMENTS))
    return ind + "message %s {\n" % m["name"] + "".join(items) + ind + "}\n"


def render(group):
    """File name -> text."""
    files = group["files"]
    out = {}
    for i, f in enumerate(files):
        imports = set()
        x = random.Random(f.get("seed", 0)) if group.get("extras") else None

        def scan(m):
            for x in m["fields"]:
                if x["ref"] and x["ref"][0] != i:
                    imports.add(files[x["ref"][0]]["name"])
            for n in m["msgs"]:
                scan(n)
        for m in f["msgs"]:
            scan(m)
        s = 'syntax = "%s";\n' % f["syntax"]
        if x and x.randrange(3) == 0:
            s = "// %s\n" % x.choice(COMMENTS) + s
        if f["package"]:
            s += "package %s;\n" % f["package"]
        if x and x.randrange(3) == 0:
            s += x.choice(["option optimize_for = CODE_SIZE;\n", 'option java_package = "com.example";\n', "option deprecated = true;\n"])
        names = [("public " if x and x.randrange(4) == 0 else "") + '"%s"' % n for n in sorted(imports)]
        if x and x.randrange(3) == 0:
            # Files which are not used.
            names += ['"google/protobuf/%s.proto"' % n for n in x.sample(WKT, x.randint(1, 2))]
            x.shuffle(names)
        s += 'import "embedded_proto_options.proto";\n' + "".join("import %s;\n" % n for n in names)
        items = [render_enum(e, "") for e in f["enums"]] + [render_msg(files, m, "", x) for m in f["msgs"]]
        random.Random(f.get("seed", 0)).shuffle(items)
        if x and f["msgs"] and x.randrange(4) == 0:
            items.append("service Calls%d {\n  rpc Get(%s) returns (%s);\n}\n" % (f["seed"] % 1000, full(files, [i, [f["msgs"][0]["name"]]]), full(files, [i, [f["msgs"][-1]["name"]]])))
        out[f["name"]] = s + "".join(items)
    return out


def variants(group):
    """Smaller groups, for shrinking."""
    files = group["files"]

    def done(g):
        repair_dangling(g["files"])
        return g
    if group.get("extras"):
        g = copy.deepcopy(group)
        g["extras"] = False
        yield done(g)
    for i in range(len(files)):
        if len(files) > 1 and not any(f["ref"] and f["ref"][0] == i for j, p, m in walk(files) if j != i for f in m["fields"]):
            g = copy.deepcopy(group)
            del g["files"][i]
            for _, _, m in walk(g["files"]):
                for f in m["fields"]:
                    if f["ref"] and f["ref"][0] > i:
                        f["ref"][0] -= 1
            yield done(g)
    for i, path, m in list(walk(files)):
        g = copy.deepcopy(group)
        parent = g["files"][i] if len(path) == 1 else find(g["files"], [i, path[:-1]])
        parent["msgs"] = [x for x in parent["msgs"] if x["name"] != path[-1]]
        yield done(g)
    for i, path, m in list(walk(files)):
        for k in range(len(m["fields"])):
            g = copy.deepcopy(group)
            del find(g["files"], [i, path])["fields"][k]
            yield done(g)
        for k in range(len(m["enums"])):
            g = copy.deepcopy(group)
            del find(g["files"], [i, path])["enums"][k]
            yield done(g)
    for i, f in enumerate(files):
        for k in range(len(f["enums"])):
            g = copy.deepcopy(group)
            del g["files"][i]["enums"][k]
            yield done(g)
    for i, path, m in list(walk(files)):
        for k, f in enumerate(m["fields"]):
            for key, v in (("maxlen", 0), ("label", ""), ("oneof", None)):
                if f[key] != v:
                    g = copy.deepcopy(group)
                    find(g["files"], [i, path])["fields"][k][key] = v
                    yield done(g)


def repair_dangling(files):
    for i, path, m in walk(files):
        m["fields"] = [f for f in m["fields"] if not f["ref"] or find(files, f["ref"]) is not None]
        prune_oneofs(m)


# ------------------------------------------------------------------------------------------ unsupported schemas
def make_unsupported(r, group):
    """Change a supported group into one which has to be refused; returns (group, kind, words one of which the error has to contain) or None."""
    g = copy.deepcopy(group)
    files = g["files"]
    kind = r.choice(["proto2", "cycle", "cycle", "cycle", "enclosing", "scope", "recursive"])
    ms = [(i, p, m) for i, p, m in walk(files)]
    if not ms:
        return None

    def field(m, ref, k="m", label=None, oneof=False):
        used = {f["name"].upper() for f in m["fields"]} | {o.upper() for o in m["oneofs"]} | {n["name"].upper() for n in m["msgs"] + m["enums"]} | {m["name"].upper()}
        names = [n for n in FIELD_NAMES if n.upper() not in used]
        f = {"name": r.choice(names), "num": field_number(r, {f["num"] for f in m["fields"]}), "type": None, "ref": copy.deepcopy(ref), "kind": k, "label": r.choice(["", "", "repeated", "optional"]) if label is None else label, "oneof": None, "maxlen": 0}
        if oneof or (label is None and r.randrange(4) == 0):
            if not m["oneofs"]:
                m["oneofs"] = [r.choice([o for o in ONEOF_NAMES if o.upper() not in used])]
            f["oneof"], f["label"] = r.randrange(len(m["oneofs"])), ""
        m["fields"].insert(r.randint(0, len(m["fields"])), f)
        return f
    if kind == "proto2":
        # A file of the other syntax, with something in it.
        i = r.randrange(len(files))
        f = files[i]
        f["syntax"] = "proto2"
        for _, _, m in walk([f]):
            for x in m["fields"]:
                if x["oneof"] is None and x["label"] == "":
                    x["label"] = r.choice(["optional", "required"])
        return g, kind, ["proto2"]
    if kind == "recursive":
        i, p, m = r.choice(ms)
        if r.randrange(2):
            field(m, [i, p], label="optional")
        else:
            field(m, [i, p], label="", oneof=True)
    elif kind == "enclosing":
        c = [(i, p, m) for i, p, m in ms if len(p) > 1]
        if not c:
            return None
        i, p, m = r.choice(c)
        field(m, [i, p[:r.randint(1, len(p) - 1)]])
    elif kind == "scope":
        c = [(i, p, n["name"], "m") for i, p, m in ms for n in m["msgs"] if templated(files, [i, p])] + [(i, p, n["name"], "e") for i, p, m in ms for n in m["enums"] if templated(files, [i, p])]
        if not c:
            return None
        i, p, n, k = r.choice(c)
        users = [(j, q, m) for j, q, m in ms if j >= i and not (j == i and q[:len(p)] == p)]
        if not users:
            return None
        j, q, m = r.choice(users)
        field(m, [i, p + [n]], k)
    else:
        i = r.randrange(len(files))
        tops = [m["name"] for m in files[i]["msgs"]]
        n = r.randint(2, 5)
        if r.randrange(3) == 0:
            # Between siblings inside one message.
            c = [(p, m) for j, p, m in ms if j == i and len(m["msgs"]) >= 2]
            if not c:
                return None
            p, m = r.choice(c)
            tops, base = [x["name"] for x in m["msgs"]], p
        else:
            base = []
        if len(tops) < 2:
            return None
        ring = r.sample(tops, min(n, len(tops)))
        for a, b in zip(ring, ring[1:] + ring[:1]):
            # From inside a (itself or something nested in it) to b or something nested in it.
            src = [(q, m) for j, q, m in walk(files) if j == i and q[:len(base) + 1] == base + [a]]
            dst = [(q, m) for j, q, m in walk(files) if j == i and q[:len(base) + 1] == base + [b]]
            q, m = r.choice(src) if r.randrange(3) == 0 else src[0]
            t, _ = r.choice(dst) if r.randrange(4) == 0 else dst[0]
            field(m, [i, t])
    p = problems(files)
    kinds = {x[0] for x in p}
    if not kinds:
        return None
    words = {"circular": ["circular", "recurs"], "recursive": ["recurs", "circular"], "scope": ["template"]}
    return g, kind, sorted({w for k in kinds for w in words[k]})
