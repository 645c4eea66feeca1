"""C08, C10-C14, C16, C17, C19: what stays the same, what is written where, and the other outputs."""
from check import prop
from apps import *
import re, stat


def tier(q, t):
    return t if THOROUGH else q


def texts(e):
    """What a step wrote, byte for byte."""
    return {k: (v or {}).get("text") for k, v in (e.get("files") or {}).items()}


def failed(check, run, gid, ev=None):
    """The reason why a step did not end well, or None."""
    e = (ev or run.ev).gen.get(gid)
    if e is None:
        x = ev or run.ev
        return "the process ended (%s) before step %s finished (last begun: %s): %s" % (x.rc, gid, x.last, x.out[-1200:])
    if e.get("panic"):
        return "step %s panicked: %s\n%s" % (gid, e["panic"], e.get("stack", "")[:2500])
    if e.get("err"):
        return "step %s failed: %s" % (gid, e["err"])
    return None


# ---------------------------------------------------------------- C08
@prop("C08", "The same application generated many times in one process, in other processes with other numbers of processors and in a copy of it in another directory, to all "
             "outputs; all bytes are compared. Distinct: (output, step) pairs compared.")
def c08(check):
    outs = [["openapi", "o.json"], ["openapi", "o.yaml"], ["json", "d.json"], ["azure", "az"]]
    reads = [o[1] for o in outs]
    n = tier(8, 40)

    def one(i):
        p = Program(rng("C08", i), dict(handlers=60, per_pkg=9))
        files = p.emit()
        # The debugging output and the directories of the Azure output are named after handlers: those have to be unique
        keys = [h.key for h in p.handlers if h.form == "named"]
        full = [h.key for h in p.handlers]
        plan = []
        for k in range(n):
            plan.append(route_step("n%d" % k, keys, outputs=outs, read=reads, remove=reads))
            plan.append(route_step("f%d" % k, full, outputs=outs[:3], read=reads[:3], remove=reads))
        d, b = build_app(files, "c08-%d" % i)
        d2 = os.path.join(scratch(), "another place", "%d" % i, "app")
        shutil.copytree(d, d2)
        b2 = os.path.join(scratch(), "c08-%d-2.bin" % i)
        rc, out = run(["go", "build", "-o", b2, "."], d2)
        if rc != 0:
            raise Inconclusive(out[-2000:])
        # Processes that share a directory can't run at the same time
        d3 = os.path.join(scratch(), "third", "%d" % i)
        shutil.copytree(d, d3)
        b3 = os.path.join(scratch(), "c08-%d-3.bin" % i)
        rc, out = run(["go", "build", "-o", b3, "."], d3)
        if rc != 0:
            raise Inconclusive(out[-2000:])
        evs = parallel([lambda: ("first process", run_app(d, b, plan, "c08-%d-a" % i)),
                        lambda: ("two processors", run_app(d3, b3, plan[:4], "c08-%d-b" % i, env=dict(GOMAXPROCS="2"))),
                        lambda: ("another directory", run_app(d2, b2, plan[:6], "c08-%d-c" % i, env=dict(GOMAXPROCS="5")))])
        evs.append(("second process", run_app(d, b, plan[:4], "c08-%d-d" % i)))
        return i, p, plan, evs

    for i, p, plan, evs in parallel([lambda i=i: one(i) for i in range(tier(1, 6))]):
        base = {}
        for name, ev in evs:
            for s in plan:
                e = ev.gen.get(s["id"])
                if e is None:
                    if name == "first process" or s in plan[:4]:
                        check.violation("program %d: %s, step %s: %s" % (i, name, s["id"], failed(check, None, s["id"], ev)))
                    continue
                why = failed(check, None, s["id"], ev)
                if why:
                    check.violation("program %d, %s: %s" % (i, name, why))
                    continue
                kind = s["id"][0]
                t = texts(e)
                if not t or not all(t.values()):
                    check.violation("program %d, %s, step %s: outputs are missing: %s" % (i, name, s["id"], sorted(k for k in t if not t[k])))
                if kind not in base:
                    base[kind] = (name, s["id"], t)
                for f in sorted(set(t) | set(base[kind][2])):
                    a, b = base[kind][2].get(f), t.get(f)
                    check.saw("%d %s %s %s" % (i, name, s["id"], f.split("/")[0]))
                    check.count("bytes_compared", len(b or ""))
                    if a != b:
                        la, lb = (a or "").split("\n"), (b or "").split("\n")
                        x = [(k, u, v) for k, (u, v) in enumerate(zip(la, lb)) if u != v][:3]
                        check.violation("program %d: %s of step %s (%s) differs from that of step %s (%s): %s" % (i, f, s["id"], name, base[kind][1], base[kind][0], x))
        check.sample({f: hashlib.sha256((t or "").encode()).hexdigest()[:16] for f, t in sorted(base.get("f", (0, 0, {}))[2].items())})


# ---------------------------------------------------------------- C12
def oracle_info(cfg):
    info = dict(title=cfg["title"], version=cfg["version"], description=cfg["description"] or "Generated by astra")
    for k, fs in (("contact", ("name", "url", "email")), ("license", ("name", "url"))):
        d = {f: v for f, v in zip(fs, cfg[k]) if v}
        if d:
            info[k] = d
    return info


@prop("C12", "Random configurations (any text, secure or not, hosts, ports, base paths, contacts, licences) given as a struct or through the configuration builder in random call "
             "orders with repeated calls; info and servers of the document and the result of the builder are compared with what was configured. Distinct: configurations.")
def c12(check):
    STR = ["", "API", "My API", "Ümläut – ✓", "quote \" and \\ back", "a: b # c", "line\nbreak", "<html> & co", "true", "1.0", "null", "- x", "{x}", "%d", "tab\there", " lead", "0x1F", "2020-01-01", "~", "*a", "&a", "'"]

    def cfg(r):
        c = dict(title=r.choice(STR), description=r.choice(STR), version=r.choice(["1.0.0", "v2", "1", "0.0.1-beta+x", "2024-01-01"] + STR),
                 contact=[r.choice(STR), r.choice(["", "https://x.y/z?a=b&c=d"]), r.choice(["", "a@b.c"])] if r.random() < 0.6 else ["", "", ""],
                 license=[r.choice(["", "MIT", "Apache 2.0"] + STR[:4]), r.choice(["", "https://l.m"])] if r.random() < 0.6 else ["", ""],
                 secure=r.random() < 0.5, host=r.choice(["localhost", "api.example.com", "127.0.0.1", "[::1]", "h"]), port=r.choice([80, 443, 8000, 1, 65535, 3000]),
                 basePath=r.choice(["", "/", "/api", "/api/v1", "/api/", "/a b", "/{x}"]))
        return c

    def go(c):
        return dict(title=c["title"], description=c["description"], version=c["version"], contact=dict(zip(("name", "url", "email"), c["contact"])),
                    license=dict(zip(("name", "url"), c["license"])), secure=c["secure"], host=c["host"], basePath=c["basePath"], port=c["port"])

    def url(c):
        return "http%s://%s:%d%s" % ("s" if c["secure"] else "", c["host"], c["port"], c["basePath"])

    cases, builds = {}, {}

    def plan(run):
        r = rng("C12plan", run.i)
        keys = [h.key for h in run.p.handlers]
        steps = []
        for k in range(tier(60, 400)):
            c = cfg(r)
            f = r.choice(["o.json", "o.yaml"])
            sid = "c%d.%d" % (run.i, k)
            cases[sid] = (c, f)
            steps.append(route_step(sid, keys[:k % 3 + 1], outputs=[["openapi", f]], config=go(c), remove=[f]))
        for k in range(tier(120, 800)):
            c, calls, want = cfg(r), [], dict(title="", description="", version="", contact=["", "", ""], license=["", ""], secure=False, host="", basePath="", port=0)
            for s in range(r.randint(0, 12)):
                f = r.choice(sorted(want))
                v = cfg(r)[f]
                if f == "port" and r.random() < 0.15:
                    v = 0
                calls.append([f] + (v if isinstance(v, list) else [v]))
                want[f] = v
            sid = "b%d.%d" % (run.i, k)
            builds[sid] = (calls, want)
            steps.append(dict(op="builder", id=sid, calls=calls))
        steps.append(route_step("noconfig%d" % run.i, keys, noconfig=True, remove=["o.json"]))
        return steps

    for run in corpus("C12", tier(1, 3), lambda r, i: dict(handlers=6, per_pkg=2), plan):
        for sid, (c, f) in cases.items():
            if not sid.startswith("c%d." % run.i):
                continue
            doc = doc_of(check, run, sid, f)
            if doc is None:
                continue
            info = {k: v for k, v in (doc.get("info") or {}).items() if v not in ({}, None)}
            want = oracle_info(c)
            # Empty parts of contact and licence may be there
            for k in ("contact", "license"):
                if isinstance(info.get(k), dict):
                    info[k] = {a: b for a, b in info[k].items() if b}
                    if not info[k]:
                        del info[k]
            if info != want:
                check.violation("configuration %s: info is %s" % (json.dumps(c), json.dumps(info)), dict(want=want))
            sv = doc.get("servers")
            if not isinstance(sv, list) or [x.get("url") for x in sv] != [url(c)]:
                check.violation("configuration %s: servers are %s instead of %s" % (json.dumps(c), sv, url(c)))
            check.saw(json.dumps(c, sort_keys=True))
            check.count("documents")
        for sid, (calls, want) in builds.items():
            if not sid.startswith("b%d." % run.i):
                continue
            e = run.ev.builder.get(sid)
            if e is None or e.get("panic"):
                check.violation("builder calls %s: %s" % (calls, (e or {}).get("panic") or "the process ended: " + run.ev.out[-500:]))
                continue
            check.saw(json.dumps(calls))
            check.count("builds")
            if want["port"] == 0:
                if not e.get("err") or e.get("config"):
                    check.violation("builder calls %s: a configuration without a port was accepted: %s" % (calls, e.get("config")))
                continue
            w = dict(go(want), host=want["host"] or "localhost", basePath=want["basePath"] or "/")
            if e.get("err") or e.get("config") != w:
                check.violation("builder calls %s: built %s (%s) instead of %s" % (calls, json.dumps(e.get("config")), e.get("err"), json.dumps(w)))
        e = run.ev.gen.get("noconfig%d" % run.i) or {}
        if e.get("panic") or not e.get("done"):
            check.violation("without a configuration: %s" % (e.get("panic") or run.ev.out[-500:]))
        elif not e.get("err") or (e["files"] or {}).get("o.json"):
            check.violation("a document was written without a configuration")
        check.sample(list(cases.values())[0][0])


# ---------------------------------------------------------------- C13
@prop("C13", "Documents written in the same run under many file names (extensions in every position, sub-directories, dots, no extension); the file that appears, its syntax and "
             "the equality of all contents after decoding are checked. Distinct: (file name kind, program) pairs.")
def c13(check):
    import yaml

    class Loader(yaml.SafeLoader):
        """The numbers of YAML 1.2, which has some that are strings for YAML 1.1."""

    Loader.add_implicit_resolver("tag:yaml.org,2002:float", re.compile(r"^[-+]?([0-9]+|\.[0-9]+|[0-9]+\.[0-9]*)([eE][-+]?[0-9]+)$"), list("-+.0123456789"))
    names = ["o.json", "o.yaml", "o.yml", "plain", "out.v1", "sub/dir/o.yaml", "sub/dir/o.json", "./dot.yml", "a.yaml.json", "a.json.yaml", "with space.yaml", "sub/../up.json", ".hidden", "yaml", "x.YAML", "x.txt", "json"]

    def file_of(n):
        return n if n.endswith((".json", ".yaml", ".yml")) else n + ".json"

    def plan(run):
        r, keys = rng("C13plan", run.i), [h.key for h in run.p.handlers]
        steps = []
        fs = [file_of(n) for n in names]
        # Directories for outputs belong to the user
        steps.append(route_step("all", keys, outputs=[["openapi", n] for n in names], read=fs))
        for k in range(tier(12, 60)):
            s = r.sample(keys, r.randint(1, 12))
            two = r.sample(names, 3)
            steps.append(route_step("s%d" % k, s, outputs=[["openapi", n] for n in ["o.json", "o.yaml"] + [x for x in two if x not in ("o.json", "o.yaml")]], remove=fs,
                                    read=[file_of(x) for x in ["o.json", "o.yaml"] + two],
                                    config=dict(title=r.choice(["1.0", "yes", "T: x", "\u00fc\u2713", "# no", "null"]), version=r.choice(["1.10", "2", "v1"]), host="localhost",
                                                port=80, description=r.choice(["", "multi\nline\n", " x ", "'q'"]))))
        return steps

    def more(p):
        return {"sub/dir/keep.txt": "x"}

    for run in corpus("C13", tier(2, 8), lambda r, i: dict(handlers=60, per_pkg=9, types=dict(kinds=["enum", "struct", "enum", "struct", "enum", "basic"])), plan, more=more):
        for s in run.plan:
            why = failed(check, run, s["id"])
            if why:
                check.violation("program %d: %s" % (run.i, why))
                continue
            docs = {}
            for f, v in run.ev.gen[s["id"]]["files"].items():
                if v is None:
                    check.violation("program %d step %s: %s was not written for the outputs %s" % (run.i, s["id"], f, [o[1] for o in s["outputs"]]))
                    continue
                try:
                    if f.endswith(".json"):
                        docs[f] = json.loads(v["text"])
                    else:
                        docs[f] = yaml.load(v["text"], Loader)
                        # A YAML document that is JSON is the wrong syntax for its name
                        if v["text"].lstrip().startswith("{"):
                            check.violation("program %d: %s is written as JSON" % (run.i, f))
                except Exception as x:
                    check.violation("program %d step %s: %s can't be read: %s" % (run.i, s["id"], f, x))
            if not docs:
                continue
            f0 = "o.json" if "o.json" in docs else sorted(docs)[0]
            for f in sorted(docs):
                check.saw("%d %s %s" % (run.i, s["id"], f))
                check.count("files")
                a, b = noempty(json.loads(json.dumps(docs[f0]))), noempty(json.loads(json.dumps(docs[f], default=str)))
                if a != b:
                    check.violation("program %d step %s: %s and %s differ: %s" % (run.i, s["id"], f0, f, diff(a, b)[:4]))
        check.sample(sorted(docs))


def noempty(x):
    """A media type without a schema and one with an empty schema say the same, and so do no components and an empty section of components."""
    if isinstance(x, dict):
        return {k: noempty(v) for k, v in x.items() if not (k in ("schema", "components") and v == {})}
    if isinstance(x, list):
        return [noempty(v) for v in x]
    return x


# ---------------------------------------------------------------- C14
@prop("C14", "The operations of generated applications in documents of random subsets and permutations of their routes, generated one after another in one process and in fresh "
             "processes; every operation, with all it refers to, is compared with itself in the full document. Distinct: (subset, operation) pairs.")
def c14(check):
    def plan(run):
        r, keys = rng("C14plan", run.i), [h.key for h in run.p.handlers]
        run.subsets = []
        steps = [route_step("all", keys)]
        for k in range(tier(40, 200)):
            s = r.sample(keys, r.choice([1, 1, 1, 2, 3, 10, len(keys) // 2, len(keys)]))
            run.subsets.append(("s%d" % k, s))
            if r.random() < 0.3:
                # What was generated before had other options
                ts = r.sample([t.key for t in run.p.types.all if not getattr(t, "input", False)] + ["time.Time", "string", "int", "github.com/gin-gonic/gin.H"], 12)
                other = {t: [r.choice(["string", "integer", "boolean"]), r.choice(["", "other"])] for t in ts}
                half = dict(list(other.items())[:r.choice([0, 6, 12])])
                steps.append(route_step("o%d" % k, r.sample(keys, 5), mapping=half, single=[[a] + b for a, b in other.items() if a not in half],
                                        customs=r.choice([[], ["fixed/Reply/text/x-fixed"], ["drop/JSON"], ["claim/String/application/x-mine"]])))
            steps.append(route_step("s%d" % k, s, group=r.choice([0, 0, 1, 4])))
        steps.append(route_step("end", keys))
        return steps

    runs = corpus("C14", tier(1, 6), lambda r, i: dict(DENSE, per_pkg=11), plan)
    for run in runs:
        full = doc_of(check, run, "all")
        if full is None:
            continue
        fops = ops_of(full)
        want = {k: canon(full, op) for k, op in fops.items()}
        hs = {h.key: h for h in run.p.handlers}

        def compare(gid, doc, keys, ev=None):
            ops = ops_of(doc)
            exp = {(template(hs[k].path), hs[k].method.lower()) for k in keys}
            for k in sorted(exp):
                if k not in ops:
                    check.violation("program %d step %s: %s %s is missing among %d routes" % (run.i, gid, k[1].upper(), k[0], len(keys)))
                elif canon(doc, ops[k]) != want.get(k):
                    check.violation("program %d step %s: %s %s depends on the %d routes it is documented with: %s" % (
                        run.i, gid, k[1].upper(), k[0], len(keys), diff(resolve(fops.get(k), full), resolve(ops[k], doc))[:3]))
                check.saw("%d %s %s" % (run.i, len(keys), k))
            # Nothing is documented that no operation of the document needs, besides what belongs to its types
            check.count("documents")

        for gid, s in run.subsets + [("end", list(hs))]:
            doc = doc_of(check, run, gid)
            if doc is not None:
                compare(gid, doc, s)
                if len(s) == len(hs) and doc != full:
                    check.violation("program %d step %s: the order of the routes changes the document: %s" % (run.i, gid, diff(full, doc)[:3]))
        check.sample([(g, len(s)) for g, s in run.subsets[:10]])
    # A fresh process for some subsets
    run = runs[0]
    d, b = build_app(run.files, "c14-fresh")
    fresh = run.subsets[:tier(2, 8)] + run.subsets[-1:]
    evs = parallel([lambda g=g, s=s: (g, s, run_app(d, b, [route_step(g, s, outputs=[["openapi", "fresh-%s.json" % g]])], "c14-" + g)) for g, s in fresh[:1]], 1)
    for g, s, ev in evs:
        doc, why = ev.doc(g, "fresh-%s.json" % g)
        if doc is None:
            check.violation("program 0 in a fresh process: %s" % why)
            continue
        old = doc_of(check, run, g)
        if old is not None and old != doc:
            check.violation("program 0 step %s: a fresh process documents it differently: %s" % (g, diff(old, doc)[:3]))
        check.count("fresh_processes")


# ---------------------------------------------------------------- C16
@prop("C16", "Handlers and types with doc comments of every layout (none, one line, several lines, paragraphs, indentation, quotes, grouped declarations, decoys of the same name), "
             "as functions, methods and closures in several packages; descriptions and operation ids are compared. Distinct: (lines of the comment, handler form, package) and types.")
def c16(check):
    def plan(run):
        keys = [h.key for h in run.p.handlers]
        return [route_step("g", keys), route_step("y", keys, outputs=[["openapi", "o.yaml"]])]

    for run in corpus("C16", tier(2, 8), lambda r, i: dict(handlers=80, per_pkg=12, forms=["method"] * 6 + ["factory", "var", "server"]), plan):
        for gid, f in (("g", "o.json"), ("y", "o.yaml")):
            doc = doc_of(check, run, gid, f)
            if doc is None:
                continue
            t = Truth(doc)
            for h in run.p.handlers:
                t.handler(h)
            for e in t.errors.get("doc", []):
                check.violation("program %d: %s" % (run.i, e))
            facts(check, t, "doc")
            n = 0
            for m in t.m.values():
                for ty, comp in m.by_type.items():
                    check.saw("%s %d" % (ty.kind, ty.doc.count("\n") if ty.doc else -1))
                    n += 1
            check.count("type_comments", n)
            check.count("handler_comments", len(run.p.handlers))
            ids = [op.get("operationId") for op in ops_of(doc).values() if op.get("operationId")]
            dup = {x for x in ids if ids.count(x) > 1}
            # Generated handlers have names of their own
            if dup:
                check.violation("program %d: operation ids are not unique: %s" % (run.i, sorted(dup)))
        check.sample([(h.func, h.doc) for h in run.p.handlers[:5]])


def facts(check, t, aspect):
    for f in t.facts.get(aspect, ()):
        check.saw(json.dumps(f, default=str))


# ---------------------------------------------------------------- C17
@prop("C17", "The debugging JSON output and the Azure Functions output of generated applications, next to the OpenAPI document of the same run; routes, statuses, inputs, bindings, "
             "components and source positions are compared. Distinct: (output, method, path shape).")
def c17(check):
    def plan(run):
        r = rng("C17plan", run.i)
        named = [h.key for h in run.p.handlers if h.form == "named"]
        allk = [h.key for h in run.p.handlers]
        steps = [route_step("named", named, outputs=[["openapi", "o.json"], ["json", "d"], ["azure", "az"]], read=["o.json", "d.json", "az"]),
                 route_step("all", allk, outputs=[["json", "d2.json"], ["openapi", "o2.json"]])]
        for k in range(tier(10, 60)):
            s = r.sample(named, r.randint(1, len(named)))
            steps.append(route_step("s%d" % k, s, outputs=r.sample([["azure", "az%d" % k], ["json", "d%d.json" % k], ["openapi", "o%d.json" % k]], 3)))
        # One handler for several methods of a path, and for several paths
        for k in range(tier(4, 20)):
            hs = r.sample(run.p.twice, min(len(run.p.twice), 5))
            steps.append(route_step("twice%d" % k, r.sample(allk, 4) + [x for a, b in hs for x in (a.key, b.key)], outputs=[["json", "t%d.json" % k]]))
            steps[-1]["routers"][0]["routes"] = list(dict.fromkeys(steps[-1]["routers"][0]["routes"]))
        # A directory that has functions already is replaced by the new ones
        steps.append(route_step("again", named[:5], outputs=[["azure", "az"]]))
        return steps

    def mutate(p):
        import copy
        from gen import RT, q
        r, used, p.twice = rng("C17twice", p.index), {(h.path, h.method) for h in p.handlers}, []
        for h in [h for h in p.handlers if h.form == "named"][:20]:
            free = [m for m in ("GET", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS") if (h.path, m) not in used]
            if not free:
                continue
            g = copy.copy(h)
            g.key = "twice" + h.key
            if r.random() < 0.7 or h.path == "/":
                g.method = r.choice(free)
            else:
                g.path = "/tw" + h.path
            used.add((g.path, g.method))
            p.twice.append((h, g))
        p.extra_main = [lambda f: ["%sHandle(%s, %s, %s, %s%s)" % (f.ref(RT), q(g.key), q(g.method), q(g.path), f.ref(g.pkg), g.func) for _, g in p.twice]]

    for run in corpus("C17", tier(1, 6), lambda r, i: dict(DENSE), plan, mutate=mutate):
        hs = {h.key: h for h in run.p.handlers + [g for _, g in run.p.twice]}
        for s in run.plan:
            why = failed(check, run, s["id"])
            if why:
                check.violation("program %d: %s" % (run.i, why))
                continue
            files = texts(run.ev.gen[s["id"]])
            keys = s["routers"][0]["routes"]
            for kind, name in s["outputs"]:
                if kind == "azure":
                    azure(check, run, s["id"], {f: v for f, v in files.items() if f.startswith(name + "/")}, name, [hs[k] for k in keys])
                elif kind == "json":
                    f = name if name.endswith(".json") else name + ".json"
                    debug(check, run, s["id"], files.get(f), [hs[k] for k in keys])
        check.sample(sorted(texts(run.ev.gen.get("named") or {}))[:6])


def azure(check, run, sid, files, dir, hs):
    want = {dir + "/" + h.func + "/function.json": h for h in hs}
    if set(files) != set(want):
        check.violation("program %d step %s: Azure functions missing %s, extra %s" % (run.i, sid, sorted(set(want) - set(files))[:5], sorted(set(files) - set(want))[:5]))
    for f in sorted(set(want) & set(files)):
        h = want[f]
        try:
            bs = json.loads(files[f])["bindings"]
            trig = [b for b in bs if b.get("type") == "httpTrigger"]
            out = [b for b in bs if b.get("type") == "http" and b.get("direction") == "out"]
        except Exception as x:
            check.violation("program %d step %s: %s is not a function: %s" % (run.i, sid, f, x))
            continue
        route = h.path
        segs = []
        for seg in route.split("/"):
            i = min([x for x in (seg.find(":"), seg.find("*")) if x >= 0], default=-1)
            if i >= 0 and len(seg) > i + 1:
                seg = seg[:i] + "{" + seg[i + 1:] + ":alpha" + ("?" if seg[i] == "*" else "") + "}"
            segs.append(seg)
        route = "/".join(segs)
        if len(trig) != 1 or len(out) != 1 or trig[0].get("direction") != "in":
            check.violation("program %d step %s: %s has the bindings %s" % (run.i, sid, f, short(bs)))
            continue
        if sorted(trig[0].get("methods") or []) != sorted({h.method.lower(), "options"}) and sorted(trig[0].get("methods") or []) != sorted([h.method.lower(), "options"]):
            check.violation("program %d step %s: %s %s has the methods %s" % (run.i, sid, h.method, h.path, trig[0].get("methods")))
        if trig[0].get("route") != route:
            check.violation("program %d step %s: %s %s has the route %s instead of %s" % (run.i, sid, h.method, h.path, trig[0].get("route"), route))
        check.saw("azure %s %s" % (h.method, shape(h.path)))
        check.count("functions")


ACCEPTED = set(TABLE) | {"struct", "map", "slice", "array", "any", "nil", "file", "", "interface", "error"}


def debug(check, run, sid, text, hs):
    try:
        d = json.loads(text)
        routes = d["routes"] or []
    except Exception as x:
        check.violation("program %d step %s: the JSON output can't be read: %s" % (run.i, sid, x))
        return
    by = {}
    for r in routes:
        by.setdefault((r.get("method"), r.get("path")), []).append(r)
    want = {(h.method, h.path): h for h in hs}
    if set(by) != set(want) or any(len(v) > 1 for v in by.values()):
        check.violation("program %d step %s: JSON routes missing %s, extra %s, repeated %s" % (
            run.i, sid, sorted(set(want) - set(by))[:5], sorted(set(by) - set(want))[:5], sorted(k for k, v in by.items() if len(v) > 1)[:5]))
    comps = {}
    for c in d.get("components") or []:
        k = (c.get("package", ""), c.get("name", ""))
        if k in comps:
            check.violation("program %d step %s: the JSON output has two components %s" % (run.i, sid, k))
        comps[k] = c
    for k in sorted(set(by) & set(want)):
        h, r = want[k], by[k][0]
        w = "program %d step %s: JSON route %s %s" % (run.i, sid, h.method, h.path)
        got = sorted({(str(x.get("statusCode")), x.get("contentType", "")) for x in r.get("returnTypes") or []})
        exp = sorted({(str(c_.status), c_.ct or "") for c_ in h.selectors()} | {(str(x[0]), x[1]) for c_ in h.chunks for x in __import__("gen").c_responses(c_)})
        if got != exp:
            check.violation("%s answers %s instead of %s" % (w, got, exp))
        for n, where, kind in (("params", "path", None), ("queryParams", "query", None), ("requestHeaders", "header", None)):
            names = sorted({p.get("name") for p in r.get(n) or [] if not p.get("isBound")})
            bound = sum(1 for p in r.get(n) or [] if p.get("isBound"))
            direct = sorted({c_.name for c_ in h.chunks if c_.kind in {"query": ("query", "queryarray", "querymap"), "header": ("getheader",), "path": ()}[where]} |
                            ({x for x, _ in path_params(h.path)} if where == "path" else set()))
            if names != direct:
                check.violation("%s has the %s parameters %s instead of %s" % (w, where, names, direct))
            nb = len({c_.t.key for c_ in h.chunks if c_.kind == "bind" and c_.what == where})
            if where != "path" and not any(c_.kind == "bind" and c_.what == "auto" for c_ in h.chunks) and bound != nb:
                check.violation("%s has %d bound %s parameters instead of %d" % (w, bound, where, nb))
        if r.get("doc", "") .strip() != h.doc.strip():
            check.violation("%s is described by %r instead of %r" % (w, r.get("doc"), h.doc))
        if h.form == "named":
            # The position is that of the handler, relative to the application
            src = run.files.get(r.get("file", ""))
            if src is None:
                check.violation("%s lies in %r, which is not a file of the application" % (w, r.get("file")))
            else:
                lines = src.split("\n")
                n = r.get("lineNo", 0)
                head = next((i for i, l in enumerate(lines) if l.startswith("func %s(" % h.func)), None)
                if head is None or not (head <= n - 1 <= head + 200 and not any(l.startswith("func ") for l in lines[head + 1:n])):
                    check.violation("%s lies at %s:%s, which is not in %s" % (w, r.get("file"), n, h.func))
            if not str(r.get("handler", "")).endswith("." + h.func):
                check.violation("%s is handled by %r instead of %s" % (w, r.get("handler"), h.func))
        for x in r.get("returnTypes") or []:
            resolve_field(check, w, x.get("field") or {}, comps)
        for n in ("queryParams", "requestHeaders", "body"):
            for x in r.get(n) or []:
                resolve_field(check, w, x.get("type") or {}, comps)
        check.saw("json %s %s" % (h.method, shape(h.path)))
        check.count("json_routes")
    for k, c in comps.items():
        for n, f in (c.get("structFields") or {}).items():
            resolve_field(check, "program %d step %s: JSON component %s.%s field %s" % (run.i, sid, k[0], k[1], n), f, comps)
    for t in run.p.types.all:
        c = comps.get((t.pkg.path, t.name))
        if c is None:
            continue
        if (c.get("doc") or "").strip() != t.doc.strip():
            check.violation("program %d step %s: JSON component %s is described by %r instead of %r" % (run.i, sid, t.key, c.get("doc"), t.doc))
        for f in t.fields if t.kind == "struct" else []:
            g = (c.get("structFields") or {}).get(f.name)
            if f.exported and g is None:
                check.violation("program %d step %s: JSON component %s has no field %s" % (run.i, sid, t.key, f.name))
            elif g is not None and (g.get("doc") or "") != f.doc:
                check.violation("program %d step %s: JSON component %s field %s is described by %r instead of %r" % (run.i, sid, t.key, f.name, g.get("doc"), f.doc))
            elif g is not None:
                check.count("json_fields")
    check.count("json_components", len(comps))


def resolve_field(check, w, f, comps):
    """A named type of the JSON output has to be one of its components."""
    t, p = f.get("type", ""), f.get("package", "")
    if t in ("slice", "array", "map"):
        t = f.get({"slice": "sliceType", "array": "arrayType", "map": "mapValueType"}[t], "")
        p = f.get("elementPackage") or p
    if not t or t in ACCEPTED:
        return
    if (p, t) not in comps:
        check.violation("%s refers to %s.%s, which is not a component" % (w, p, t))


# ---------------------------------------------------------------- C19
@prop("C19", "The same handlers laid out differently (other helpers, files, packages of helpers, nesting, branch statements, variable and context names, payload expressions): the "
             "documents of both applications are compared operation by operation. Distinct: (handler, layout pair).")
def c19(check):
    def one(i):
        r = rng("C19", i)
        p = Program(r, dict(handlers=110, per_pkg=8))
        out = []
        state = r.getstate()
        apps = []
        for v in range(3):
            # Everything but the layout is drawn from the same numbers
            r.setstate(state)
            lr = rng("C19", i, v)
            lay = {h.key: p.layout(h, lr) for h in p.handlers}
            if v == 0:
                for h in p.handlers:
                    lay[h.key]["where"] = ["here"] * len(h.chunks)
            files = p.emit(relayout=lay)
            name = "c19-%d-%d" % (i, v)
            d, b = build_app(files, name)
            apps.append((lay, d, b, name))
        steps = [route_step("g", [h.key for h in p.handlers])]
        return i, p, parallel([lambda a=a: (a[0], run_app(a[1], a[2], steps, a[3])) for a in apps])

    for i in range(tier(1, 6)):
        i, p, out = one(i)
        docs = []
        for v, (lay, ev) in enumerate(out):
            doc, why = ev.doc("g", "o.json")
            if doc is None:
                check.violation("program %d layout %d: %s" % (i, v, why))
            docs.append(doc)
        if any(d is None for d in docs):
            continue
        a = ops_of(docs[0])
        for v in range(1, len(docs)):
            b = ops_of(docs[v])
            for h in p.handlers:
                k = (template(h.path), h.method.lower())
                if k not in a or k not in b:
                    check.violation("program %d: %s %s is missing" % (i, h.method, h.path))
                    continue
                x, y = loose(resolve(a[k], docs[0])), loose(resolve(b[k], docs[v]))
                if x != y:
                    check.violation("program %d layout %d: %s %s is documented differently when its parts are %s instead of inline: %s" % (
                        i, v, h.method, h.path, out[v][0][h.key]["where"], diff(x, y)[:3]))
                check.saw("%d %s %s" % (i, h.key, out[v][0][h.key]["where"]), nontrivial=any(w != "here" for w in out[v][0][h.key]["where"]))
                check.count("handlers_compared")
        check.sample({h.key: out[1][0][h.key]["where"] for h in p.handlers[:4]})


def loose(x):
    """The order of alternatives has no meaning, nor do the formats of direct payloads (which depend on how the payload is written)."""
    if isinstance(x, dict):
        out = {k: loose(v) for k, v in x.items()}
        for k in ("anyOf", "oneOf"):
            if isinstance(out.get(k), list):
                out[k] = sorted(out[k], key=lambda v: json.dumps(v, sort_keys=True))
        return out
    if isinstance(x, list):
        return [loose(v) for v in x]
    return x
