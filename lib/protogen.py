#!/usr/bin/env python3
"""Drives the protocol generator (tools/protocol_gen) with generated schemas.

The generator is copied with the tree it writes into to a scratch folder, gets
its two downloads from local files (a stand-in for the HTTP transport, linked
in), and is run. Its output is compiled and run against a table of what the
schema says, made here without the generator. Run as a job:
  protogen.py --seed N --shard K --mode M --iters N --stats F --tmp D"""
import hashlib, json, os, random, re, shutil, struct, subprocess, sys, time

if __name__ == "__main__":
    sys.dont_write_bytecode = True
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import build

STUB = '''package main

import (
	"bytes"
	"errors"
	"io"
	"net/http"
	"os"
	"strings"
)

type verifTransport struct{}

func (verifTransport) RoundTrip(r *http.Request) (*http.Response, error) {
	p := os.Getenv("VERIF_SCHEMA")
	if strings.HasSuffix(r.URL.Path, "package.json") {
		p = os.Getenv("VERIF_PACKAGE")
	}
	if p == "" {
		return nil, errors.New("no network")
	}
	b, err := os.ReadFile(p)
	if err != nil {
		return nil, err
	}
	return &http.Response{Status: "200 OK", StatusCode: 200, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, Body: io.NopCloser(bytes.NewReader(b)), ContentLength: int64(len(b)), Request: r}, nil
}

func init() { http.DefaultTransport = verifTransport{} }
'''


class Violation(Exception):
    pass


class NoAnswer(Exception):
    pass


# ---- schemas -------------------------------------------------------------

WORDS = ("line column offset count name label path kind hint source module thread frame scope value start end total filter "
         "mode level message detail url icon address memory range target parent child group order reason origin checksum "
         "presentation condition hit expression language width height encoding charset digest token stamp query answer").split()
SUFFIX = ["Info", "Spec", "Item", "Entry", "Data", "Hint", "Block", "Node"]
SCALARS = ["string", "integer", "number", "boolean", "object"]
ALTS = ["array", "boolean", "integer", "null", "number", "object", "string"]


def roots():
    D = {"ProtocolMessage": {"type": "object", "title": "Base Protocol", "properties": {"seq": {"type": "integer"}, "type": {"type": "string", "_enum": ["request", "response", "event"]}}, "required": ["seq", "type"]}}
    for k in ("Request", "Event", "Response"):
        D[k] = {"allOf": [{"$ref": "#/definitions/ProtocolMessage"}, {"type": "object", "properties": {"type": {"type": "string", "enum": [k.lower()]}}, "required": ["type"]}]}
    return D


class Maker:
    """A schema of the protocol's kind, and the table of what it declares."""

    def __init__(self, rng):
        self.r = rng
        self.defs = {}
        self.enums = {}    # name -> default or None
        self.structs = {}  # name -> (fields, base); fields: dicts as in the table
        self.messages = {}
        self.words = set()  # everything the fuzzer's dictionary must have
        self.used = set()

    def chance(self, p):
        return self.r.random() * 100 < p

    def camel(self, n):
        w = [self.r.choice(WORDS) for _ in range(n)]
        return w[0] + "".join(x.capitalize() for x in w[1:])

    def name(self, suffix):
        while True:
            n = self.camel(self.r.choice([1, 2, 2, 3]))
            n = n[0].upper() + n[1:] + suffix
            if n.lower() not in self.used:
                self.used.add(n.lower())
                return n

    def text(self):
        s = " ".join(self.r.choice(WORDS) for _ in range(self.r.randrange(1, 14)))
        if self.chance(25):
            s += "\n" + self.r.choice(["", "\n", "- "]) + self.camel(3) + ";"
        if self.chance(15):
            s += " `" + self.camel(2) + "` \"quoted\" (e.g. 'x', 1 < 2) // */ /*"
        return s

    def desc(self, d):
        if self.chance(80):
            d["description"] = self.text()
        if self.chance(20):
            d["title"] = self.camel(2)
        return d

    def enum_values(self):
        n = self.r.randrange(1, 6)
        out = []
        while len(out) < n:
            v = self.r.choice([self.camel(1), self.camel(2), self.camel(2) + " " + self.camel(1), "0x" + self.camel(1), self.camel(1).upper()])
            if v not in out:
                out.append(v)
        return out

    def type(self, depth=0, inside=None):
        """Returns (schema, type expression, default)."""
        k = self.r.random() * 100
        if k < 45:
            t = self.r.choice(SCALARS)
            d = {"type": t}
            default = None
            if t == "string" and self.chance(45):
                v = self.enum_values()
                if self.chance(60):
                    d["enum"] = v
                    default = v[0]
                else:
                    d["_enum"] = v
                if depth == 0:
                    self.pending += v
                if self.chance(30):
                    d["enumDescriptions"] = [self.text() for _ in v]
            elif t == "object" and self.chance(40):
                d["additionalProperties"] = {"type": ["string", "null"]}
            return self.desc(d), t, default
        if k < 62:
            done = [s for s in self.structs]
            if done:
                n = self.r.choice(done)
                self.refs.add(n)
                return {"$ref": "#/definitions/" + n}, n, None
        if k < 70 and self.enums:
            n = self.r.choice(sorted(self.enums))
            self.refs.add(n)
            d = {"$ref": "#/definitions/" + n}
            return d, "string", self.enums[n]
        if k < 86:
            if self.chance(12):
                return self.desc({"type": "array"}), "array<any>", None
            if inside and depth == 0 and self.chance(12):
                self.refs.add(inside)
                return self.desc({"type": "array", "items": {"$ref": "#/definitions/" + inside}}), f"array<{inside}>", None
            if depth < 2:
                s, t, _ = self.type(depth + 1)
                return self.desc({"type": "array", "items": s}), f"array<{t}>", None
        if k < 94:
            alts = self.r.sample(ALTS, self.r.choice([2, 2, 3, 7]))
            if self.chance(30):
                alts = sorted(alts)
            d = {"type": alts}
            return self.desc(d), "variant<" + ",".join("array<any>" if a == "array" else a for a in alts) + ">", None
        if k < 97 and self.structs:
            n = [self.r.choice(sorted(self.structs)) for _ in range(self.r.randrange(1, 3))]
            # Held as an object: whether the alternatives are declared is not judged.
            return {"oneOf": [{"$ref": "#/definitions/" + x} for x in n] + [{"type": "string"}]}, "object", None
        return self.desc({"type": "boolean"}), "boolean", None

    def body(self, inside=None, taken=()):
        """An object definition with properties; returns (schema, fields, refs, words)."""
        self.pending, self.refs = [], set()
        props, fields, names = {}, [], set(taken)
        n = self.r.choice([1 if inside else 0, 1, 2, 3, 4, 6, 9])
        for _ in range(n):
            w = self.camel(self.r.choice([1, 2, 2, 3]))
            if self.chance(6):
                w = "default"
            elif self.chance(6):
                w = "__" + w
            elif self.chance(3):
                w = "_" + w + "_"
            elif self.chance(4):
                w = w + self.r.choice(["_id", "2", "_2b"])
            member = w.strip("_")
            member = "def" if member == "default" else member
            if member in names:
                continue
            names.add(member)
            s, t, default = self.type(0, inside)
            props[w] = s
            fields.append(dict(wire=w, member=member, type=t, default=default))
            self.pending.append(w)
        keys = list(props)
        self.r.shuffle(keys)
        d = self.desc({"type": "object", "properties": {k: props[k] for k in keys}})
        req = [f["wire"] for f in fields if self.chance(45)]
        self.r.shuffle(req)
        if req or self.chance(20):
            d["required"] = req
        for f in fields:
            f["optional"] = f["wire"] not in req
        return d, fields, self.refs, self.pending

    def make(self, size):
        r, D = self.r, self.defs
        D.update(roots())
        for _ in range(r.randrange(0, 5)):
            n = self.name("Kind")
            v = self.enum_values()
            closed = self.chance(60)
            D[n] = self.desc({"type": "string", "enum" if closed else "_enum": v})
            self.enums[n] = v[0] if closed else None
            self.words_of(n, v, set())
        for _ in range(size):
            n = self.name(r.choice(SUFFIX))
            base, taken = None, ()
            bases = list(self.structs)
            if bases and self.chance(15):
                base = r.choice(bases)
                taken = [f["member"] for f in self.structs[base]["fields"]]
            d, f, refs, words = self.body(n, taken)
            if base:
                d = {"allOf": [{"$ref": "#/definitions/" + base}, d]}
                refs = refs | {base}
            D[n] = d
            self.structs[n] = dict(fields=f, base=base)
            self.words_of(n, words, refs)
        for _ in range(max(1, size // 2)):
            stem = self.name("")
            cmd = stem[0].lower() + stem[1:]
            if self.chance(20):
                cmd = self.name("").lower()
            if self.chance(5):
                cmd += "/" + self.camel(1)
            args, f, refs, words = self.body()
            q = {"command": {"type": "string", "enum": [cmd]}}
            reqd = ["command"]
            if f or self.chance(50):
                if self.chance(60):
                    D[stem + "Arguments"] = args
                    args = {"$ref": f"#/definitions/{stem}Arguments"}
                q["arguments"] = args
                if self.chance(70):
                    reqd.append("arguments")
            D[stem + "Request"] = {"allOf": [{"$ref": "#/definitions/Request"}, self.desc({"type": "object", "properties": q, "required": reqd})]}
            self.messages[stem + "Request"] = dict(kind="request", name=cmd, fields=f, response=stem + "Response", base="Request")
            self.words_of(stem + "Request", words + [cmd], refs)
            body, f, refs, words = self.body()
            q, reqd = {}, []
            if f or self.chance(40):
                plain = [s for s in self.structs if not self.structs[s]["base"]]
                if plain and self.chance(15):  # the body is a type of the protocol
                    n = r.choice(plain)
                    body, f = {"$ref": "#/definitions/" + n}, self.structs[n]["fields"]
                    refs, words = set(self.deps[n]), list(self.wordsof[n])
                q["body"] = body
                if self.chance(60):
                    reqd.append("body")
            d = self.desc({"type": "object", "properties": q})
            if reqd:
                d["required"] = reqd
            if not q and self.chance(50):
                d = {"type": "object", "description": self.text()}
            D[stem + "Response"] = {"allOf": [{"$ref": "#/definitions/Response"}, d]}
            self.messages[stem + "Response"] = dict(kind="response", name="", fields=f, base="Response")
            self.words_of(stem + "Response", words, refs)
        for _ in range(r.randrange(0, max(2, size // 3))):
            stem = self.name("Event")
            ev = stem[0].lower() + stem[1:-5]
            if self.chance(20):
                ev = self.name("").lower()
            body, f, refs, words = self.body()
            q = {"event": {"type": "string", "enum": [ev]}}
            if f or self.chance(50):
                q["body"] = body
            D[stem] = {"allOf": [{"$ref": "#/definitions/Event"}, self.desc({"type": "object", "properties": q, "required": sorted(q)})]}
            self.messages[stem] = dict(kind="event", name=ev, fields=f, base="Event")
            self.words_of(stem, words + [ev], refs)
        return self

    deps = wordsof = None

    def words_of(self, n, words, refs):
        if self.deps is None:
            self.deps, self.wordsof = {}, {}
        self.deps[n] = set(refs)
        self.wordsof[n] = list(words)

    def result(self):
        """(schema, table): the table has the messages and what they need."""
        reach, todo = set(), list(self.messages)
        while todo:
            n = todo.pop()
            if n not in reach:
                reach.add(n)
                todo += list(self.deps[n])
        table = {}
        for n, m in self.messages.items():
            table[n] = {k: v for k, v in m.items() if v is not None}
        def chain(s):
            return (chain(s["base"] and self.structs[s["base"]]) if s["base"] else []) + s["fields"]
        for n in reach:
            if n in self.structs:
                s = self.structs[n]
                table[n] = dict(kind="type", name="", fields=chain(s))
                if s["base"]:
                    table[n]["base"] = s["base"]
        self.words = {w for n in reach for w in self.wordsof[n]}
        keys = list(self.defs)
        self.r.shuffle(keys)
        schema = {"$schema": "http://json-schema.org/draft-04/schema#", "title": "Debug Adapter Protocol", "type": "object", "definitions": {k: self.defs[k] for k in keys}}
        return schema, table, self.words, [n for n in reach if n in self.enums]


def parse_type(s):
    m = re.match(r"^([\w]+)<(.*)>$", s)
    if not m:
        return s, []
    args, depth, cur = [], 0, ""
    for c in m.group(2):
        if c == "," and depth == 0:
            args.append(cur)
            cur = ""
            continue
        depth += (c == "<") - (c == ">")
        cur += c
    return m.group(1), args + [cur]


def golden_schema(rng):
    """The schema of the protocol as recorded (names, types, what is required)."""
    table = json.load(open(os.path.join(build.VERIF, "golden", "protocol.json")))
    D, words = {}, set()

    def ty(t):
        n, args = parse_type(t)
        if n == "array":
            return {"type": "array"} if args == ["any"] else {"type": "array", "items": ty(args[0])}
        if n == "variant":
            d = {"type": [parse_type(a)[0] for a in args]}
            for a in args:
                if a.startswith("array<") and a != "array<any>":
                    d["items"] = ty(parse_type(a)[1][0])
            return d
        return {"$ref": "#/definitions/" + n} if n in table else {"type": n}
    for n, s in table.items():
        obj = {"type": "object", "properties": {f["wire"]: ty(f["type"]) for f in s["fields"]}, "required": [f["wire"] for f in s["fields"] if not f["optional"]]}
        words |= {f["wire"] for f in s["fields"]}
        if s["kind"] == "type":
            D[n] = obj
            continue
        q = {}
        if s["kind"] == "request":
            q["command"] = {"type": "string", "enum": [s["name"]]}
        if s["kind"] == "event":
            q["event"] = {"type": "string", "enum": [s["name"]]}
        if s["name"]:
            words.add(s["name"])
        if s["fields"] or rng.random() < 0.5:
            if s["kind"] == "request" and rng.random() < 0.5:
                D[n[:-7] + "Arguments"] = obj
                obj = {"$ref": "#/definitions/" + n[:-7] + "Arguments"}
            q["arguments" if s["kind"] == "request" else "body"] = obj
        D[n] = {"allOf": [{"$ref": "#/definitions/" + s["kind"].capitalize()}, {"type": "object", "properties": q}]}
    D.update(roots())
    return {"definitions": D}, table, words, []


# ---- the expectation as C++ ----------------------------------------------

def cpp_type(t):
    n, args = parse_type(t)
    return "dap::" + n + ("<" + ", ".join(map(cpp_type, args)) + ">" if args else "")


def harness_sources(table, enums, fuzz_h):
    """Sources that only compile if every member has its type, and list the types."""
    h = ['#include "proto.h"', "#include <type_traits>", "namespace proto {"]
    for n in sorted(table):
        h.append(f"template <> struct Visit<dap::{n}> {{ template <typename F> static void go(dap::{n}& s, F& f) {{ (void)s; (void)f;")
        for f in table[n]["fields"]:
            h.append(f"  f({json.dumps(f['wire'])}, s.{f['member']});")
        h.append("} };")
    h.append("}")
    for n in sorted(table):
        for f in table[n]["fields"]:
            t = cpp_type(f["type"])
            if f["optional"]:
                t = f"dap::optional<{t}>"
            h.append(f"static_assert(std::is_same<decltype(dap::{n}::{f['member']}), {t}>::value, \"VERIF: the type of {n}.{f['member']} is not that of the schema\");")
        if "base" in table[n]:
            h.append(f"static_assert(std::is_base_of<dap::{table[n]['base']}, dap::{n}>::value, \"VERIF: {n} does not have its base\");")
        if table[n]["kind"] == "request":
            h.append(f"static_assert(std::is_same<dap::{n}::Response, dap::{table[n]['response']}>::value, \"VERIF: the response of {n}\");")
    for n in enums:
        h.append(f"static_assert(std::is_same<dap::{n}, dap::string>::value, \"VERIF: {n} is not a string\");")
    c = ['#include "table.h"', f'#include "{fuzz_h}"', "#include <vector>", "namespace proto {", "const std::vector<Type>& types() { static std::vector<Type>* t = [] { auto v = new std::vector<Type>();"]
    for n in sorted(table):
        c.append(f"  v->push_back(makeType<dap::{n}>(\"{n}\"));")
    c.append("return v; }(); return *t; }")
    c.append("std::vector<std::string> fuzzRequests() { std::vector<std::string> out;")
    c.append("#define DAP_REQUEST(REQ, RES) static_assert(std::is_same<REQ::Response, RES>::value, \"VERIF: the fuzzer's response\"); out.push_back(dap::TypeOf<REQ>::type()->name());")
    c.append("DAP_REQUEST_LIST();\nreturn out; }\n}")
    return {"table.h": "\n".join(h) + "\n", "table.cpp": "\n".join(c) + "\n"}


# ---- building and running ------------------------------------------------

def go_env(cache):
    e = dict(os.environ)
    e.update(GOCACHE=cache, GOPATH=os.path.join(cache, "path"), GO111MODULE="off", GOFLAGS="", GOPROXY="off", GOTOOLCHAIN="local", CGO_ENABLED="0", GOWORK="off", GOTELEMETRY="off", GOENV="off")
    return e


GOCACHE = os.path.join(build.CACHE, "gocache")


def make_tree(d):
    """Copies what the generator reads and writes, with the stand-in for the network."""
    os.makedirs(d)
    for sub in ("include", "src", "tools/protocol_gen"):
        shutil.copytree(os.path.join(build.REPO, sub), os.path.join(d, sub))
    os.makedirs(os.path.join(d, "fuzz"))
    for f in ("CMakeLists.txt", ".clang-format"):
        if os.path.exists(os.path.join(build.REPO, f)):
            shutil.copy(os.path.join(build.REPO, f), d)
    g = os.path.join(d, "tools", "protocol_gen")
    with open(os.path.join(g, "zz_verif_stub.go"), "w") as f:
        f.write(STUB)
    srcs = sorted(os.path.join(g, f) for f in os.listdir(g) if f.endswith(".go") and not f.endswith("_test.go"))
    out = os.path.join(d, "gen")
    p = subprocess.run(["go", "build", "-o", out] + srcs, cwd=g, env=go_env(GOCACHE), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise build.BuildError("the generator does not build:\n" + p.stdout[-3000:])
    return out


FLAGS = build.SANS["asan"].split()


def prepare():
    """What all shards share: the library without its protocol, the harness, a warm Go cache."""
    import concurrent.futures
    d = os.path.join(build.CACHE, "protogen")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        go = ex.submit(make_tree, os.path.join(d, "warm"))
        lib = ex.submit(build.build_lib, "nl", "asan")
        flags = build._base_flags("asan") + ["-D" + build.BACKENDS["nl"]["define"], "-I" + os.path.join(build.REPO, "src")]
        build._compile([(os.path.join(build.HARNESS, s + ".cpp"), os.path.join(d, s + ".o"), flags) for s in ("h_c26", "codec", "perturb")])
        a = os.path.join(d, "libcppdap.a")
        shutil.copy(os.path.join(lib.result(), "libcppdap.a"), a)
        objs = [o for o in build.run(["ar", "t", a]).split() if o.startswith("protocol_")]
        build.run(["ar", "d", a] + objs)
        go.result()
    shutil.rmtree(os.path.join(d, "warm"), ignore_errors=True)
    return d


OUTPUTS = ["include/dap/protocol.h", "src/protocol_requests.cpp", "src/protocol_response.cpp", "src/protocol_events.cpp", "src/protocol_types.cpp", "fuzz/fuzz.h", "fuzz/dictionary.txt", "CMakeLists.txt"]


def outputs(tree):
    out = {}
    for f in OUTPUTS:
        p = os.path.join(tree, f)
        out[f] = open(p, "rb").read() if os.path.exists(p) else None
    return out


class Run:
    def __init__(self, a):
        self.a = a
        self.stats = dict(evaluations=0, counters={}, maxima={}, samples=[])
        self.hashes = set()
        self.shared = os.path.join(build.CACHE, "protogen")
        self.tree = os.path.join(a.tmp, "tree")
        self.gen = make_tree(self.tree)
        self.pristine = open(os.path.join(self.tree, "CMakeLists.txt")).read()

    def count(self, k, n=1):
        self.stats["counters"][k] = self.stats["counters"].get(k, 0) + n

    def top(self, k, n):
        self.stats["maxima"][k] = max(self.stats["maxima"].get(k, 0), n)

    def generate(self, schema, version, fmt, expect=True):
        tree, tmp = self.tree, self.a.tmp
        sp, pp = os.path.join(tmp, "schema.json"), os.path.join(tmp, "package.json")
        for p, v in ((sp, schema), (pp, version and {"name": "p", "version": version})):
            if v is None:
                if os.path.exists(p):
                    os.unlink(p)
            else:
                with open(p, "w") as f:
                    f.write(v if isinstance(v, str) else json.dumps(v, indent=1))
        env = dict(os.environ, VERIF_SCHEMA=sp, VERIF_PACKAGE=pp)
        if not fmt:
            env["PATH"] = os.path.join(tmp, "nopath")
        try:
            p = subprocess.run([self.gen], cwd=tree, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=120)
        except subprocess.TimeoutExpired:
            raise NoAnswer("the generator took more than 120 s")
        self.count("generator runs")
        if expect and p.returncode != 0:
            raise Violation(f"the generator failed with status {p.returncode} on a schema of the protocol's kind: {p.stdout[-1500:]}")
        return p

    def check(self, name, schema, table, words, enums, rng, build_it=True):
        version = f"{rng.randrange(3)}.{rng.randrange(100)}.{rng.randrange(10)}"
        with open(os.path.join(self.tree, "CMakeLists.txt"), "w") as f:
            f.write(self.pristine)
        fmt = rng.random() < 0.3
        self.generate(schema, version, fmt)
        out = outputs(self.tree)
        for f, b in out.items():
            if b is None:
                raise Violation(f"{f} was not written")
        for _ in range(2):
            # What was there before, and the order of the schema's members, do not matter.
            keys = list(schema["definitions"])
            rng.shuffle(keys)
            self.generate(dict(schema, definitions={k: schema["definitions"][k] for k in keys}), version, fmt)
            again = outputs(self.tree)
            for f in OUTPUTS:
                if out[f] != again[f]:
                    raise Violation(f"{f} differs between two runs over the same schema")
        # CMakeLists.txt: the version, and nothing else.
        a, b = self.pristine.split("\n"), out["CMakeLists.txt"].decode().split("\n")
        if len(a) != len(b):
            raise Violation("CMakeLists.txt has another number of lines after the update of the version")
        for x, y in zip(a, b):
            if re.match(r"\s*project\s*\(", x):
                m = re.search(r"VERSION\s+([\w.\-]+)", y)
                if not m or m.group(1) != version or re.sub(r"VERSION\s+[\w.\-]+", "", x) != re.sub(r"VERSION\s+[\w.\-]+", "", y):
                    raise Violation(f"CMakeLists.txt: the project line became '{y}', the version is {version}")
            elif x != y:
                raise Violation(f"CMakeLists.txt: the line '{x}' became '{y}'")
        # The fuzzer's dictionary.
        lines = [l for l in out["fuzz/dictionary.txt"].decode().split("\n") if l]
        if len(set(lines)) != len(lines):
            raise Violation("the fuzzer's dictionary has a line twice")
        for l in lines:
            if not re.match(r'^"[^"]*"$', l):
                raise Violation(f"the fuzzer's dictionary has the line {l!r}")
        missing = {w for w in words if f'"{w}"' not in set(lines)}
        if missing:
            raise Violation(f"the fuzzer's dictionary lacks {sorted(missing)[:5]}")
        self.count("names and enumerators looked up in the dictionary", len(words))
        self.compile(table, enums, name)
        self.stats["evaluations"] += 1
        self.hashes.add(int.from_bytes(hashlib.sha256(json.dumps(schema, sort_keys=True).encode()).digest()[:8], "little"))
        self.count("structs compared", len(table))
        self.count("members compared", sum(len(s["fields"]) for s in table.values()))
        self.count("defaults compared", sum(1 for s in table.values() for f in s["fields"] if f.get("default") and not f["optional"]))
        for k in ("request", "response", "event", "type"):
            self.count(f"{k}s", sum(1 for s in table.values() if s["kind"] == k))
        self.count("structs with a base of the schema", sum(1 for s in table.values() if s.get("base", "Request") not in ("Request", "Response", "Event")))
        self.top("definitions in a schema", len(schema["definitions"]))
        if len(self.stats["samples"]) < 2:
            n = sorted(table)[rng.randrange(len(table))]
            self.stats["samples"].append(f"{name}: {n} {json.dumps(table[n])[:300]}")

    def compile(self, table, enums, name):
        w = os.path.join(self.a.tmp, "w")
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        for f, t in harness_sources(table, enums, os.path.join(self.tree, "fuzz", "fuzz.h")).items():
            with open(os.path.join(w, f), "w") as fh:
                fh.write(t)
        with open(os.path.join(w, "table.json"), "w") as f:
            json.dump(table, f)
        flags = ["-std=c++14", "-I" + os.path.join(self.tree, "include"), "-I" + build.HARNESS, "-I" + w] + FLAGS
        srcs = [os.path.join(self.tree, "src", f"protocol_{k}.cpp") for k in ("requests", "response", "events", "types")] + [os.path.join(w, "table.cpp")]
        objs = []
        for s in srcs:
            o = os.path.join(w, os.path.basename(s) + ".o")
            p = subprocess.run(["clang++", "-c"] + flags + [s, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if p.returncode < 0:
                raise NoAnswer("the compiler was ended by a signal")
            if p.returncode != 0:
                err = [l for l in p.stdout.splitlines() if "error:" in l]
                raise Violation("the generated sources do not compile as the schema says: " + "; ".join(err[:3])[:1500])
            objs.append(o)
        exe = os.path.join(w, "run")
        d = self.shared
        p = subprocess.run(["clang++"] + FLAGS + objs + [os.path.join(d, x) for x in ("h_c26.o", "codec.o", "perturb.o", "libcppdap.a")] +
                           ["-Wl,--wrap=" + x for x in build.WRAPS] + ["-lpthread", "-o", exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode != 0:
            if "undefined reference" in p.stdout or "multiple definition" in p.stdout:
                raise Violation("the generated sources do not link: " + p.stdout[-1500:])
            raise NoAnswer("linking failed: " + p.stdout[-1500:])
        env = dict(os.environ, VERIF_GOLDEN=os.path.join(w, "table.json"))
        st = os.path.join(w, "stats.json")
        p = subprocess.run([exe, "--seed", str(self.a.seed), "--iters", "6", "--stats", st], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode != 0 or "MONITOR-DONE" not in p.stdout:
            for l in p.stdout.splitlines():
                if "MONITOR-VIOLATION:" in l:
                    raise Violation(l.split("MONITOR-VIOLATION:", 1)[1].strip())
                if "SUMMARY:" in l or "runtime error:" in l:
                    raise Violation(l.strip())
            raise NoAnswer("the generated types' run gave no answer: " + p.stdout[-1500:])
        for k, v in json.load(open(st))["counters"].items():
            self.count(k, v)

    def refusals(self, rng):
        """No schema, or half of one: the generator says so and leaves the sources alone."""
        with open(os.path.join(self.tree, "CMakeLists.txt"), "w") as f:
            f.write(self.pristine)
        before = outputs(self.tree)
        text = json.dumps(Maker(random.Random(rng.random())).make(4).result()[0])
        for what, schema, ver in (("no schema", None, "1.2.3"), ("no version", text, None), ("half a schema", text[:len(text) // 2], "1.2.3"), ("no JSON", "404: Not Found", "1.2.3")):
            p = self.generate(schema, ver, False, expect=False)
            if p.returncode == 0:
                raise Violation(f"the generator reports success with {what}")
            if outputs(self.tree) != before:
                raise Violation(f"the generator touched the sources with {what}")
            self.count("refusals")
        for what, ref in (("an unknown reference", "#/definitions/Nowhere"), ("a reference of another form", "other.json#/x")):
            s = json.loads(text)
            s["definitions"]["BrokenInfo"] = {"type": "object", "properties": {"x": {"$ref": ref}}}
            if self.generate(s, "1.2.3", False, expect=False).returncode == 0:
                raise Violation(f"the generator reports success with {what}")
            self.count("refusals")


def main():
    import argparse
    ap = argparse.ArgumentParser()
    for o in ("--seed", "--shard", "--iters"):
        ap.add_argument(o, type=int, default=1)
    ap.add_argument("--mode", default="")
    ap.add_argument("--stats", default="")
    ap.add_argument("--tmp", default="")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--keep", default="")
    a = ap.parse_args()
    name = ""
    try:
        run = Run(a)
        for i in range(a.iters):
            rng = random.Random(f"{a.seed}/{a.shard}/{i}")
            name = f"schema {a.seed}/{a.shard}/{i}"
            if i == 0 and a.shard == 0:
                run.refusals(rng)
                name = "the recorded protocol"
                run.check(name, *golden_schema(rng), rng)
                continue
            run.check(name, *Maker(rng).make(rng.choice([2, 5, 9, 14])).result(), rng)
    except Violation as e:
        print(f"MONITOR-CASE {name}")
        print(f"MONITOR-VIOLATION: {name}: {e}")
        print((open(os.path.join(a.tmp, "schema.json")).read() if os.path.exists(os.path.join(a.tmp, "schema.json")) else "")[:15000])
        return 1
    except (NoAnswer, build.BuildError) as e:
        print(f"MONITOR-INCONCLUSIVE {name}: {e}")
        return 3
    with open(a.stats, "w") as f:
        json.dump(run.stats, f)
    with open(a.stats + ".hashes", "wb") as f:
        f.write(struct.pack("<%dQ" % len(run.hashes), *run.hashes))
    print("MONITOR-DONE c26")
    return 0


if __name__ == "__main__":
    sys.exit(main())
