"""Generates the per-struct visits used by harness/proto.h from golden/protocol.json."""
import json, os
from . import build

OUT = os.path.join(build.CACHE, "gen")
N = 8


def generate():
    """Writes the files (only when they differ); returns the sources."""
    with open(os.path.join(build.VERIF, "golden", "protocol.json")) as f:
        structs = json.load(f)
    os.makedirs(OUT, exist_ok=True)
    names = sorted(structs)
    h = ["#include \"proto.h\"", "namespace proto {"]
    for n in names:
        h.append(f"template <> struct Visit<dap::{n}> {{ template <typename F> static void go(dap::{n}& s, F& f) {{ (void)s; (void)f;")
        for f in structs[n]["fields"]:
            h.append(f"  f({json.dumps(f['wire'])}, s.{f['member']});")
        h.append("} };")
    h.append("}  // namespace proto")
    files = {"visits.h": "\n".join(h) + "\n"}
    parts = {i: [] for i in range(N)}
    for k, n in enumerate(names):
        parts[k % N].append(n)
    for i in range(N):
        c = ['#include "visits.h"', "namespace proto {",
             f"void add{i}(std::vector<Type>* t, std::vector<Request>* q, std::vector<Event>* e) {{", "(void)q; (void)e;"]
        for n in parts[i]:
            c.append(f"  t->push_back(makeType<dap::{n}>(\"{n}\"));")
            s = structs[n]
            if s["kind"] == "request":
                c.append(f"  q->push_back(makeRequest<dap::{n}>(\"{n}\", \"{s['response']}\"));")
            if s["kind"] == "event":
                c.append(f"  e->push_back(makeEvent<dap::{n}>(\"{n}\"));")
        c.append("}\n}  // namespace proto")
        files[f"part{i}.cpp"] = "\n".join(c) + "\n"
    c = ['#include "proto.h"', "namespace proto {"]
    for i in range(N):
        c.append(f"void add{i}(std::vector<Type>*, std::vector<Request>*, std::vector<Event>*);")
    c.append("struct All { std::vector<Type> t; std::vector<Request> q; std::vector<Event> e; All() {")
    for i in range(N):
        c.append(f"add{i}(&t, &q, &e);")
    c.append("} };\nstatic const All& all() { static All* a = new All(); return *a; }")
    c.append("const std::vector<Type>& types() { return all().t; }\nconst std::vector<Request>& requests() { return all().q; }\nconst std::vector<Event>& events() { return all().e; }\n}")
    files["table.cpp"] = "\n".join(c) + "\n"
    for n, t in files.items():
        p = os.path.join(OUT, n)
        if not os.path.exists(p) or open(p).read() != t:
            with open(p + ".tmp", "w") as f:
                f.write(t)
            os.replace(p + ".tmp", p)
    return [os.path.join(OUT, f"part{i}.cpp") for i in range(N)] + [os.path.join(OUT, "table.cpp")]
