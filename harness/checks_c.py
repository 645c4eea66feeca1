"""C09, C10, C11, C15, C18: odd programs, caches and the command, the file system, customisation, concurrency."""
from check import prop
from apps import *
from checks_b import failed, texts, tier
import odd, re, stat


# ---------------------------------------------------------------- C09
@prop("C09", "Applications of ordinary handlers to which handlers of valid but odd Go are added: one at a time, mixed in one body in random scopes, handlers of gin and of other "
             "packages, and all at once. Watched: panics, errors, the time of the step, the operations of the ordinary handlers (compared with those of the application without odd "
             "handlers), the answers the odd handlers are understood to give, and the validity of the document. Distinct: odd handlers by what they consist of.")
def c09(check):
    info = {}

    def more(p):
        r = rng("C09odd", p.index)
        text, routes, natives = odd.package(r, tier(14, 120))
        info[p.index] = (routes, natives)
        return dict(odd.OTHER, **{"odd.go": text})

    def plan(run):
        keys = [h.key for h in run.p.handlers]
        routes, natives = info[run.p.index]
        run.odd, run.nat = routes, natives
        ks = ["odd%d" % i if not n.startswith("mixed") else n for i, (n, *_ ) in enumerate(routes)]
        steps = [route_step("base", keys)]
        few = keys[:3]
        for k, rt_ in zip(ks, routes):
            steps.append(route_step("o:" + rt_[0], few[:1] + [k] + few[1:]))
        for n, m, p, f, _ in natives:
            steps.append(dict(op="gen", id="n:" + n, routers=[dict(routes=few, natives=[f])], outputs=[["openapi", "o.json"]], read=["o.json"]))
        every = []
        for i, k in enumerate(ks):
            every += [k] + keys[i::len(ks)]
        steps.append(dict(op="gen", id="every", routers=[dict(routes=every, natives=[x[3] for x in natives])], outputs=[["openapi", "o.json"]], read=["o.json"]))
        steps.append(route_step("after", keys))
        return steps

    for run in corpus("C09", tier(1, 4), lambda r, i: dict(handlers=24, per_pkg=3), plan, more=more):
        base = doc_of(check, run, "base")
        if base is None:
            continue
        ref = {k: canon(base, op) for k, op in ops_of(base).items()}
        lim = 60000
        for s in run.plan[1:]:
            why = failed(check, run, s["id"])
            if why:
                check.violation("program %d: %s" % (run.i, why))
                continue
            if run.ev.gen[s["id"]]["ms"] > lim:
                check.violation("program %d: step %s took %d ms" % (run.i, s["id"], run.ev.gen[s["id"]]["ms"]))
            doc = doc_of(check, run, s["id"])
            if doc is None:
                continue
            ops = ops_of(doc)
            want = {(template(r["path"]), r["method"].lower()) for r in run.ev.gen[s["id"]]["table"] if r["method"] != "CONNECT"}
            if set(ops) != want:
                check.violation("program %d step %s: operations missing %s, extra %s" % (run.i, s["id"], sorted(want - set(ops))[:5], sorted(set(ops) - want)[:5]))
            for k, op in ops.items():
                if k in ref and canon(doc, op) != ref[k]:
                    check.violation("program %d step %s: %s is documented differently next to it: %s" % (
                        run.i, s["id"], k, diff(json.loads(ref[k]), json.loads(canon(doc, op)))[:3]))
                check.count("operations_compared", 1 if k in ref else 0)
            for e in validity(doc):
                check.violation("program %d step %s: %s" % (run.i, s["id"], e))
            for n, m, p, *_, sts in run.odd + run.nat:
                k = (template(p), m.lower())
                if k not in ops:
                    continue
                got = set(ops[k].get("responses") or {})
                miss = {str(x) for x in sts} - got
                if miss:
                    check.violation("program %d step %s: the odd handler %r is documented without %s (but with %s)" % (run.i, s["id"], n, sorted(miss), sorted(got)))
                check.saw("%s %s" % (n if not n.startswith("mixed") else _[0], s["id"] == "every"))
        check.count("milliseconds", sum(e.get("ms", 0) for e in run.ev.gen.values()))
        check.sample(dict(odd=[x[3] for x in run.odd[-3:]], natives=[x[0] for x in run.nat[:4]]))


# ---------------------------------------------------------------- C10
def cfgs(r):
    return dict(title=r.choice(["API", "T: \"x\"", "no", "Ü"]), version=r.choice(["1.0", "2", "v1"]), host=r.choice(["localhost", "h.example"]), port=r.choice([80, 8443]),
                secure=r.random() < 0.5, basePath=r.choice(["", "/", "/v1"]), description=r.choice(["", "Some: text\nmore"]),
                contact=dict(name=r.choice(["", "Me"]), url="", email=r.choice(["", "a@b.c"])), license=dict(name=r.choice(["", "MIT"]), url=""))


def options_of(r, run, keys, hs):
    """Random outputs and options of a run that the cache has to keep."""
    named = all(hs[k].form == "named" for k in keys)
    outs = r.sample([["openapi", "o.json"], ["openapi", "o.yaml"], ["json", "d.json"], ["openapi", "plain"],
                    ["openapi", "sub/o.yml"], ["json", "sub/dd"], ["openapi", "sub/deep.v1"]] + ([["azure", r.choice(["az", "sub/az"])]] if named else []), r.randint(1, 4))
    reads = [{"plain": "plain.json", "sub/dd": "sub/dd.json", "sub/deep.v1": "sub/deep.v1.json"}.get(o[1], o[1]) for o in outs]
    o = dict(outputs=outs, read=reads, remove=reads + [".astra"], config=cfgs(r))
    if r.random() < 0.6:
        ts = [t for t in run.p.types.all if t.kind != "iface" and t.pkg in run.p.typepkgs]
        o["mapping"] = {t.key: [r.choice(["string", "integer", "object"]), r.choice(["", "custom"])] for t in r.sample(ts, min(len(ts), r.randint(1, 5)))}
    if r.random() < 0.4:
        o["deny"] = [[r.choice(["contains", "contains", "exact", "suffix"]), hs[r.choice(keys)].path] for _ in range(r.choice([1, 1, 2]))]
    return o


_cli = None


def cli_binary():
    global _cli
    if _cli is None:  # Once, before there are threads
        mod = os.path.join(scratch(), "cli.mod")
        shutil.copy(os.path.join(REPO, "cli/astra/go.mod"), mod)
        text = open(mod).read().replace("=> ../../", "=> " + REPO)
        write(mod, text)
        sums = set()
        for p in ("go.sum", "cli/astra/go.sum"):
            sums |= set(open(os.path.join(REPO, p)).read().split("\n"))
        write(mod.replace(".mod", ".sum"), "\n".join(sorted(x for x in sums if x)) + "\n")
        b = os.path.join(scratch(), "astra.bin")
        rc, out = run(["go", "build", "-modfile", mod, "-o", b, "."], os.path.join(REPO, "cli/astra"), timeout=600)
        if rc != 0:
            raise Inconclusive("the command does not build:\n" + out[-3000:])
        _cli = b
    return _cli


def run_cli(args, cwd):
    p = subprocess.run(contained() + [cli_binary()] + args, cwd=cwd, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
    return p.returncode, p.stdout.decode(errors="replace")


@prop("C10", "Random subsets of generated applications with random outputs, configurations, deny lists and type mappings: written by a direct run, by a split run, by a run completed "
             "from a JSON or YAML cache, again from the cache of a finished run, and by the real astra command in its own process from different directories; all outputs are "
             "compared byte for byte, and services before and after the cache field by field. Distinct: (way, options, subset).")
def c10(check):
    n = tier(18, 80)
    ways = [("split", None), ("load", ".astra/cache.json"), ("load", "c.json"), ("load", "c.yaml"), ("load", "sub/c.yml"), ("regen", ".astra/cache.json"), ("regen", "c.yaml"),
            ("roundtrip", ".astra/cache.json"), ("roundtrip", "c.json"), ("roundtrip", "c.yaml")]
    cli = [("default", ".astra/cache.json", "same"), ("default", ".astra/cache.json", "parent"), ("c.json", "c.json", "same"), ("c.yaml", "c.yaml", "other"), ("sub/c.yml", "sub/c.yml", "parent"),
           ("c.yaml", "c.yaml", "same")]

    def plan(run):
        r, hs = rng("C10plan", run.i), {h.key: h for h in run.p.handlers}
        allk = sorted(hs)
        named = [k for k in allk if hs[k].form == "named"]
        steps = []
        run.pairs = []
        for k in range(n):
            keys = r.sample(r.choice([allk, named]), r.randint(1, 14))
            if k == 0:
                keys = allk
            o = options_of(r, run, keys, hs)
            steps.append(route_step("d%d" % k, keys, **dict(o)))
            for w, c in r.sample(ways, tier(4, 8)):
                extra = {} if c is None else dict(cache="default" if c.startswith(".astra") else c, load=c)
                s = route_step("%s%d:%s" % (w, k, c), keys, mode=w, **dict(o, **extra))
                s["remove"] = s["remove"] + ["c.json", "c.yaml", "sub/c.yml"]
                steps.append(s)
                run.pairs.append(("d%d" % k, s["id"], o))
        return steps

    def more(p):
        return {"sub/keep.txt": "x"}

    runs = corpus("C10", tier(1, 5), lambda r, i: dict(SMALL, handlers=50), plan, more=more)
    for run in runs:
        for a, b, o in run.pairs:
            bad = [w for w in (failed(check, run, a), failed(check, run, b)) if w]
            if bad:
                check.violation("program %d: %s" % (run.i, bad[0]), dict(options=o))
                continue
            ta, tb = texts(run.ev.gen[a]), texts(run.ev.gen[b])
            compare(check, "program %d: step %s" % (run.i, b), ta, tb, o)
            e = run.ev.gen[b]
            if "saved" in e:
                d = diff(dict(e["saved"], mapping=e["saved"]["mapping"] or {}), dict(e.get("loaded") or {}, mapping=(e.get("loaded") or {}).get("mapping") or {}))
                if d:
                    check.violation("program %d: step %s: the service that is loaded from the cache is another: %s" % (run.i, b, d[:4]))
                check.count("services_compared")
            check.saw(json.dumps([b.split("%")[0], run.i]))
            check.count("runs_compared")
    # The command
    cli_binary()

    def one(i, run):
        r, hs = rng("C10cli", run.i, i), {h.key: h for h in run.p.handlers}
        given, cache, where = cli[i % len(cli)]
        keys = r.sample(sorted(hs), r.randint(6, 30)) if i else sorted(hs)
        if i % 2:
            keys = [k for k in keys if hs[k].form == "named"] or keys
        o = options_of(r, run, keys, hs)
        name = "c10cli-%d-%d" % (run.i, i)
        d, b = build_app(run.files, name)
        direct = route_step("direct", keys, **dict(o))
        setup = route_step("setup", keys, mode="setup", cli=True, cache=given, **dict(o, read=[cache]))
        clean = dict(op="remove", id="clean", remove=o["read"] + [".astra"])
        ev = run_app(d, b, [direct, clean, setup], name)
        os.remove(b)
        bad = [w for w in (failed(check, run, "direct", ev), failed(check, run, "setup", ev)) if w]
        if bad:
            return i, run, where, given, o, bad[0], None, None
        other = os.path.join(scratch(), "elsewhere-%d-%d" % (run.i, i))
        os.makedirs(other)
        if where == "same":
            args, cwd = ([] if given == "default" else ["-c", cache]), d
        elif where == "parent":
            args, cwd = ["-d", name, "-c", os.path.join(name, cache)], os.path.dirname(d)
        else:
            args, cwd = ["--dir", d, "--cache", os.path.join(d, cache)], other
        rc, out = run_cli(["generate"] + args, cwd)
        got = {}
        for p in o["read"]:
            q = os.path.join(d, p)
            if os.path.isdir(q):
                for root, _, fs in os.walk(q):
                    for f in fs:
                        got[os.path.relpath(os.path.join(root, f), d)] = open(os.path.join(root, f)).read()
            elif os.path.exists(q):
                got[p] = open(q).read()
            else:
                got[p] = None
        why = None if rc == 0 else "the command ended with %d: %s" % (rc, out[-1500:])
        # The command makes nothing in a directory it is not about
        if where == "other" and os.listdir(other):
            why = "the command left %s in the directory it was run in" % os.listdir(other)
        shutil.rmtree(d)
        return i, run, where, given, o, why, texts(ev.gen["direct"]), got

    jobs = [lambda i=i, run=run: one(i, run) for run in runs for i in range(tier(6, 14))]
    for i, run, where, given, o, why, ta, tb in parallel(jobs):
        if why:
            check.violation("program %d: astra generate from %s with cache %s: %s" % (run.i, where, given, why), dict(options=o))
            continue
        compare(check, "program %d: astra generate from %s with cache %s" % (run.i, where, given), ta, tb, o)
        check.saw("cli %s %s %d" % (where, given, i))
        check.count("commands_run")
    check.sample(dict(pair=runs[0].pairs[0][:2]))


def compare(check, what, ta, tb, o):
    for f in sorted(set(ta) | set(tb)):
        if ta.get(f) is None or tb.get(f) is None:
            check.violation("%s: %s is written by %s" % (what, f, "neither run" if not ta.get(f) and not tb.get(f) else "the direct run only" if ta.get(f) else "this run only"), dict(options=o))
        elif ta[f] != tb[f]:
            la, lb = ta[f].split("\n"), tb[f].split("\n")
            x = [(k, u, v) for k, (u, v) in enumerate(zip(la, lb)) if u != v][:3]
            check.violation("%s: %s differs from that of the direct run: %s (%d and %d lines)" % (what, f, x, len(la), len(lb)), dict(options=o))
        check.count("files_compared")


# ---------------------------------------------------------------- C11
KEEP = {"README.md": "readme", ".gitignore": "/x\n", ".hidden/a.txt": "a", "docs/intro.md": "intro", "docs/api.json.bak": "bak", "az2/keep/function.json": "{}", "azure/mine.txt": "mine",
        "astramain/notes.txt": "notes", "cache.json": "[]", "out/keep.txt": "keep", ".git/config": "[core]\n", ".env": "A=1", "o.json.old": "old", ".astra2/x": "x"}
LEFT = {"astramain": [".astra/astramain/main.go", ".astra/astramain/gone.go"], "azure": [".astra/azure/old/function.json", ".astra/azure/Older/function.json"],
        "cache": [".astra/cache.json"], "ignore": [".astra/.gitignore"], "emptyignore": [".astra/.gitignore"], "notes": [".astra/notes.txt"], "outputs": ["o.json", "o.yaml", "docs/api.json", "d.json", "c.json"], "az": ["az/Old/function.json", "az/host.json"]}


def tree(roots):
    """The state of everything below some directories, as rt's snap."""
    out = {}
    for root in roots:
        for d, ds, fs in os.walk(root):
            out[d] = "dir"
            for f in fs + [x for x in ds if os.path.islink(os.path.join(d, x))]:
                q = os.path.join(d, f)
                try:
                    out[q] = "link " + os.readlink(q) if os.path.islink(q) else "file " + hashlib.sha256(open(q, "rb").read()).hexdigest()
                except OSError:
                    out[q] = "gone"
    return out


def under(p, roots):
    return any(p == r or p.startswith(r + "/") for r in roots)


def judge(before, after, app, els, o, ok):
    """What a run has done to the file system that it shouldn't have. o has the outputs, cache and cli of the run, its failure allows more."""
    astra_dir = app + "/.astra"
    own, must = [], []
    azs = []
    for mode, p in o["outputs"]:
        q = os.path.normpath(os.path.join(app, p))
        if mode == "azure":
            azs.append(q)
            continue
        if mode == "openapi" and not re.search(r"\.(json|yaml|yml)$", q) or mode == "json" and not q.endswith(".json"):
            q += ".json"
        own.append(q)
        must.append(q)
    cache = o.get("cache")
    if cache and cache != "default":
        own.append(os.path.normpath(os.path.join(o.get("cwd") or app, cache)))
        must.append(own[-1])
    keep = bool(cache) or o.get("cli")
    if keep:
        must.append(astra_dir + "/.gitignore")
        if not cache or cache == "default":
            must.append(astra_dir + "/cache.json")
    out = []
    for p in sorted(set(before) | set(after)):
        a, b = before.get(p), after.get(p)
        if p in own:
            continue
        if any(under(p, [z]) and z != app for z in azs):
            continue
        if azs and app in azs and b and not a and re.match(re.escape(app) + r"/\w+(/function.json)?$", p):
            continue
        if under(p, [astra_dir]):
            if not ok:
                continue
            if not keep:
                if b:
                    out.append("%s is still there" % p)
            elif b and "astramain" in p[len(astra_dir):]:
                out.append("%s is still there" % p)
            elif b and not a and p not in must and p != astra_dir:
                out.append("%s was made" % p)
            elif a and b and a != b and p.endswith((".gitignore", "notes.txt")):
                out.append("%s was changed" % p)
            elif a and not b and not any(x in p[len(astra_dir):] for x in ("astramain", "azure")):
                out.append("%s was removed" % p)
            continue
        if a != b:
            out.append("%s %s" % (p, "was made" if a is None else "was removed" if b is None else "was changed"))
    if ok:
        out += ["%s was not made" % p for p in must if p not in after]
        for z in azs:
            if z not in after:
                out.append("%s was not made" % z)
            elif z != app:
                # It is replaced as a whole
                out += ["%s of an earlier run is left in the Azure Functions output" % p for p in before if under(p, [z]) and p != z and before[p].startswith("file") and p in after
                        and after[p] == before[p] and o.get("leftovers")]
    return out


@prop("C11", "Real runs over projects full of unrelated files: random outputs, caches, working directories and leftovers, failing runs of several kinds, and processes killed when "
             "a given file appears or at a random moment, each followed by another run. The tree of files and hashes of the project, of the neighbouring directories and of the "
             "temporary directory is recorded before and after each and compared with what the options allow; a run after another writes what the first run of all wrote. "
             "Distinct: (options, leftovers, way it ended).")
def c11(check):
    safe = bool(contained())

    def scenarios(r, i, base, keys, named):
        app, els = base + "/app", base + "/else"
        steps, metas = [], []

        def scen(name, ks, o, left=(), ok=True, mode=None, config=None, noconfig=False, deny=None):
            n = "s%d:%s" % (len(metas), name)
            outs = o["outputs"]
            files = [os.path.join(app, x) for l in left for x in LEFT.get(l, []) if l != "emptyignore"]
            if files:
                steps.append(dict(op="write", id="w" + n, read=files, text="package astramain\n\nfunc stale( {\n"))
            if "emptyignore" in left:
                steps.append(dict(op="write", id="w3" + n, read=[os.path.join(app, x) for x in LEFT["emptyignore"]], text="empty"))
            if "plainfile" in left:
                steps.append(dict(op="write", id="w2" + n, read=[app + "/.astra"]))
            steps.append(dict(op="snap", id="a" + n, read=[app, els, base + "/denied", base + "/tmp"]))
            reads = [os.path.normpath(os.path.join(app, x[1])) for x in outs if x[1] not in (".", "./", "")]
            reads = [q if mode_ == "azure" or re.search(r"\.(json|yaml|yml)$", q) else q + ".json" for q, mode_ in zip(reads, [x[0] for x in outs if x[1] not in (".", "./", "")])]
            st = route_step(n, ks, outputs=outs, read=reads, cache=o.get("cache") or "", cli=bool(o.get("cli")))
            for k_, v in dict(mode=mode, config=config, noconfig=noconfig, deny=deny, workdir=o.get("workdir")).items():
                if v:
                    st[k_] = v
            st["outputs"] = outs
            if o.get("noinputs"):
                st["routers"] = []
            if name == "duplicate":
                # Two directories of one name
                st["routers"] *= 2
            steps.append(st)
            steps.append(dict(op="snap", id="b" + n, read=[app, els, base + "/denied", base + "/tmp"]))
            # Everything as it was
            rm = [app + "/.astra", app + "/az", app + "/c.json", app + "/c.yaml", app + "/docs/c.json", app + "/out/fn", els + "/az", els + "/o.json"]
            rm += [q for q in reads if not under(q, [base + "/denied"])]
            steps.append(dict(op="remove", id="r" + n, remove=rm + o.get("rm", [])))
            metas.append(dict(id=n, o=dict(o, leftovers="az" in left), ok=ok, reads=reads, keys=ks, left=list(left), kind=name))

        J, Y, D = ["openapi", "o.json"], ["openapi", "o.yaml"], ["json", "d.json"]
        pool = [J, Y, D, ["openapi", "docs/api.json"], ["openapi", "plain"], ["json", "debug"], ["openapi", "docs/../o2.yml"], ["azure", "az"], ["azure", "out/fn"], ["openapi", "../else/o.json"],
                ["azure", "../else/az"]]
        scen("clean", named, dict(outputs=[J, Y, D, ["azure", "az"]]))
        for k in range(tier(14, 80)):
            outs = r.sample(pool, r.randint(1, 4))
            if len([x for x in outs if x[0] == "azure"]) > 1:
                outs = [x for x in outs if x[0] != "azure"] + [["azure", "az"]]
            left = [x for x in LEFT if r.random() < 0.3]
            if k == 0:
                left = sorted(set(left) | {"emptyignore"})
            o = dict(outputs=outs, cache=r.choice(["", "", "default", "c.json", "c.yaml", "docs/c.json"] if k else ["default"]), cli=r.random() < 0.2)
            scen("ok", named, o, left, mode=r.choice([None, "split"]))
        if safe:
            for x in [".", "./", ""]:
                scen("root", named, dict(outputs=[J, ["azure", x]], rm=[app + "/" + h.func for h in r.hs if h.key in named]))
        bad = [("nodir", dict(outputs=[["openapi", "nowhere/o.json"]])), ("nodir2", dict(outputs=[J, ["json", "nowhere/o.json"]])), ("isdir", dict(outputs=[["openapi", "docs/intro.md/x.json"]])),
               ("isdir2", dict(outputs=[Y, ["json", "docs.json"]], pre=["docs.json"])), ("noconfig", dict(outputs=[J])), ("nooutputs", dict(outputs=[])), ("noinputs", dict(outputs=[J], noinputs=True)),
               ("duplicate", dict(outputs=[D, ["azure", "az"]])), ("aznodir", dict(outputs=[["azure", "nowhere/az"]])), ("cachenodir", dict(outputs=[J], cache="nowhere/c.json"))]
        if safe:
            bad += [("denied", dict(outputs=[["openapi", "../denied/o.json"]])), ("denied2", dict(outputs=[J, ["azure", "../denied/az"]]))]
        for name, o in bad + (bad if THOROUGH else []):
            left = [x for x in LEFT if r.random() < 0.2]
            if o.get("pre"):
                steps.append(dict(op="mkdir", id="m%d" % len(metas), read=[os.path.join(app, x) for x in o["pre"]]))
                o = dict(o, rm=[os.path.join(app, x) for x in o["pre"]])
            scen(name, named, o, left, ok=False, noconfig=name == "noconfig")
            if name in ("nodir2", "duplicate", "denied2"):
                # The next run is over what it left
                del steps[-1]
                scen("after " + name, named, dict(outputs=[J, Y, D, ["azure", "az"]], rm=[app + "/docs.json"]))
        scen("astrafile", named, dict(outputs=[J]), ["plainfile"], ok=False)
        scen("last", named, dict(outputs=[J, Y, D, ["azure", "az"]]))
        return steps, metas

    def verdict(i, base, ev, metas, why=""):
        app, els = base + "/app", base + "/else"
        ref = None
        for m in metas:
            e = ev.gen.get(m["id"])
            what = "program %d%s: %s (outputs %s, cache %r, leftovers %s)" % (i, why, m["id"], m["o"]["outputs"], m["o"].get("cache"), m["left"])
            if e is None or e.get("panic") or m["ok"] and e.get("err"):
                check.violation("%s: %s" % (what, failed(check, None, m["id"], ev)))
                continue
            if not m["ok"] and not e.get("err"):
                check.violation("%s: the run is reported as successful" % what)
                continue
            a, b = ev.snaps["a" + m["id"]], ev.snaps["b" + m["id"]]
            for x in judge(a, b, app, els, m["o"], m["ok"]):
                check.violation("%s: %s" % (what, x))
            t = texts(e)
            if m["ok"]:
                by = {}
                for q, v in t.items():
                    if v is None:
                        check.violation("%s: %s was not written" % (what, q))
                    k = "azure:" + re.sub(r".*/(az|fn)/", "", q) if q.endswith("function.json") else "json" if re.search(r"/(o|api|plain)\.json$", q) else "yaml" if re.search(r"ya?ml$", q) else "debug"
                    by[k] = v
                ref = ref or (by if m["kind"] == "clean" else None)
                for k in by:
                    if ref and by[k] != ref.get(k):
                        check.violation("%s: its %s output is not that of the first run: %s" % (what, k, diff([ref.get(k)], [by[k]])[:1] if k.startswith("azure") else "%d and %d bytes" % (
                            len(ref.get(k) or ""), len(by[k] or ""))))
                        check.count("outputs_compared")
            check.count("files_watched", len(a))
            check.saw(json.dumps([m["kind"], m["o"]["outputs"], m["o"].get("cache"), m["left"]]))
            check.count("runs_ok" if m["ok"] else "runs_failed")

    def prepare(i, tag):
        r = rng("C11", i)
        p = Program(r, dict(handlers=16, per_pkg=3))
        base = os.path.join(scratch(), tag)
        for d in ("else/deep", "denied", "tmp"):
            os.makedirs(os.path.join(base, d))
        write(base + "/else/other.txt", "other")
        write(base + "/denied/other.txt", "other")
        d, b = build_app(p.emit(), tag + "/app")
        shutil.move(b, base + ".bin")
        for k, v in KEEP.items():
            write(os.path.join(d, k), v)
        os.symlink("../else/other.txt", os.path.join(d, "link"))
        os.symlink("../else", os.path.join(d, "linkdir"))
        seen, named, dup = set(), [], []
        for h in p.handlers:
            if h.form == "named" and h.func not in seen:
                named.append(h.key)
                seen.add(h.func)
        r.hs, r.types = p.handlers, p.files["types_gen.go"]
        return r, p, base, d, base + ".bin", named

    def one(i, where):
        tag = "c11-%d-%s" % (i, where)
        r, p, base, d, b, named = prepare(i, tag)
        steps, metas = scenarios(r, i, base, [h.key for h in p.handlers], named)
        cwd = None
        if where == "else":
            # The process runs somewhere else and names the project
            cwd = base + "/else"
            for s in steps:
                if s["op"] == "gen":
                    s["workdir"] = d
            for m in metas:
                m["o"]["cwd"] = d
                if m["o"].get("cache") not in (None, "", "default"):
                    s = next(s for s in steps if s["id"] == m["id"])
                    s["cache"] = os.path.join(d, s["cache"])
                    m["o"]["cache"] = s["cache"]
        ev = run_app(d, b, steps, tag, cwd=cwd, dirs=[base + "/app", base + "/else", base + "/tmp"] if safe else None, env=dict(TMPDIR=base + "/tmp"))
        verdict(i, base, ev, metas, "" if where == "here" else ", run from another directory")

    # Processes that end in the middle
    def crash(i, k):
        tag = "c11x-%d-%d" % (i, k)
        r, p, base, d, b, named = prepare(i, tag)
        r0, r = r, rng("C11crash", i, k)
        outs = [["openapi", "o.json"], ["openapi", "o.yaml"], ["json", "d.json"], ["azure", "az"]]
        o = dict(outputs=outs, cache=r.choice(["", "default", "c.json"]))
        points = [".astra", ".astra/astramain", ".astra/azure", "o.json", "d.json", "az", ".astra/cache.json" if o["cache"] == "default" else ".astra/.gitignore"]
        first = route_step("ref", named, outputs=outs, read=[d + "/" + x[1] for x in outs], remove=[])
        clean = dict(op="remove", id="clean", remove=[d + "/" + x[1] for x in outs])
        dirs = [base + "/app", base + "/else"] if safe else None
        ev = run_app(d, b, [first, clean], tag, dirs=dirs)
        if failed(check, None, "ref", ev):
            check.violation("program %d: %s" % (i, failed(check, None, "ref", ev)))
            return
        ms = ev.gen["ref"]["ms"]
        ref = texts(ev.gen["ref"])
        for j in range(tier(3, 12)):
            point = points[(k * tier(3, 12) + j) % len(points)] if r.random() < 0.8 else None
            before = tree([base])
            wait, t0 = r.random() * ms / 1000, time.time()
            late = r.choice([0, 0, 0.002, 0.02])
            seen = [None]

            def kill():
                if point is None:
                    return time.time() - t0 > wait
                if seen[0] is None and os.path.lexists(os.path.join(d, point)):
                    seen[0] = time.time()
                return seen[0] is not None and time.time() - seen[0] >= late

            x = run_app(d, b, [route_step("killed", named, outputs=outs, read=[], cache=o["cache"])], tag + "k", kill=kill, dirs=dirs)
            after = tree([base])
            for w in judge(before, after, d, base + "/else", o, x.rc == 0):
                check.violation("program %d: a process that was killed when %s was there: %s" % (i, point or "%.1f s old" % wait, w))
            if j % 2 == 0:
                # What was killed was an older version, the types of which were others
                write(d + "/.astra/astramain/" + r.choice(["aaa.go", "types_gen.go", "zzz.go"]),
                      re.sub(r"struct \{\n", 'struct {\n\tStale string `json:"stale"`\n', r0.types.replace("package main", "package astramain")))
            # The run after it is as if nothing had been there
            again = route_step("again", named, outputs=outs, read=[d + "/" + y[1] for y in outs], cache=o["cache"])
            ev = run_app(d, b, [again], tag + "r", dirs=dirs)
            final = tree([base])
            why = failed(check, None, "again", ev)
            if why:
                check.violation("program %d: the run after one that was killed at %s: %s" % (i, point, why))
            else:
                for w in judge(before, final, d, base + "/else", o, True):
                    check.violation("program %d: the run after one that was killed at %s: %s" % (i, point, w))
                t = texts(ev.gen["again"])
                for q in sorted(set(t) | set(ref)):
                    if t.get(q) != ref.get(q):
                        check.violation("program %d: after a run that was killed at %s, %s is another than without" % (i, point, os.path.relpath(q, d)))
            check.saw(json.dumps(["crash", point, o["cache"], x.rc]))
            check.count("processes_killed" if x.rc == "killed" else "processes_that_ended_before_they_were_killed")
            for q in [".astra", "az"]:
                shutil.rmtree(os.path.join(d, q), ignore_errors=True)
            for q in ["o.json", "o.yaml", "d.json", "c.json"]:
                if os.path.exists(os.path.join(d, q)):
                    os.remove(os.path.join(d, q))

    jobs = [lambda i=i, w=w: one(i, w) for i in range(tier(1, 3)) for w in ("here", "else")] + [lambda k=k: crash(0, k) for k in range(tier(2, 5))]
    parallel(jobs, 3)


# ---------------------------------------------------------------- C15
MAPPED = [("string", ""), ("string", "date"), ("integer", "int64"), ("number", ""), ("boolean", ""), ("object", ""), ("object", "custom"), ("array", ""), ("", "")]


def map_schema(m):
    if m[0] == "":
        return {}
    out = {"type": m[0]}
    if m[1]:
        out["format"] = m[1]
    if m[0] == "array":
        out["items"] = {}
    return out


def name_decoys(p):
    """Structs with fields that are named like mapped types, but are of others of the same package."""
    r, out = rng("C15decoys", p.index), []
    for pkg in p.typepkgs:
        mine = [t for t in p.types.all if t.pkg is pkg and t.name[:1].isupper() and not getattr(t, "input", False) and t.kind != "iface" and not t.name.startswith("Base")]
        if len(mine) < 4:
            continue
        names = r.sample(mine, min(4, len(mine)))
        t = T(pkg, "Decoy%d" % p.uid(), "struct", tagmode="json")
        for i, n in enumerate(names):
            o = r.choice([x for x in mine if x is not n])
            ft = r.choice([("n", o), ("p", ("n", o)), ("s", ("n", o)), ("b", "string"), ("m", ("b", "string"), ("n", o))])
            t.fields.append(Field(n.name, ft, {"json": "d%d" % i}))
        if pkg is p.models:
            t.fields += [Field("Time", ("n", DURATION), {"json": "time"}), Field("Duration", ("n", TIME), {"json": "duration"})]
        p.types.all.append(t)
        out.append(t)
    for t in out:
        # Some handler has to answer with them
        for h in r.sample(p.handlers, 3):
            c = Chunk("response", call="JSON", status=r.choice([200, 201]), ct="application/json", desc=("n", t), ft=("n", t), sel="d%d" % p.uid())
            h.chunks.insert(r.randint(len([x for x in h.chunks if x.kind == "header"]), len(h.chunks) - 1), c)
    p.layouts(p.rng)


CLAIMS = ["claim/String/application/x-mine", "copy/Status/application/x-mine", "claim/JSON/application/x-mine", "drop/AbortWithStatusJSON", "drop/JSON", "fixed/Reply/application/x-reply",
          "copy/AbortWithStatus/text/x-abort", "drop/Query", "drop/GetHeader", "fixed/GetHeader/text/x-header", "claim/Data/text/x-data", "drop/ShouldBindJSON", "copy/XML/application/x-xml",
          "fixed/Reply/text/x-fixed", "drop/Reply"]
RESPOND = ("JSON", "XML", "YAML", "String", "Data", "Status", "AbortWithStatus", "AbortWithStatusJSON", "AbortWithError", "ProtoBuf")


def claimed(h, customs, code):
    """A handler as the custom functions make it: the chunks whose call is claimed are replaced by what the function contributes."""
    import copy
    g = copy.copy(h)
    g.chunks, g.layout = [], {}

    def first(name):
        for w in customs:
            w = w.split("/", 2)
            if w[0] in ("claim", "copy", "drop", "fixed") and name.startswith(w[1]):
                return w
        return None

    def reply(w, status):
        if w[0] != "drop":
            g.chunks.append(Chunk("response", call="String", status=299 if w[0] == "fixed" else status, ct=w[2], desc=("b", "string"), ft=None, sel="x"))

    for c in h.chunks:
        w = first("Reply") if getattr(c, "via", False) else None
        if w:
            reply(w, None)
            continue
        if getattr(c, "traced", False) and first("ReplyTrace"):
            reply(first("ReplyTrace"), None)
        if c.kind == "response":
            w = first(c.call)
            if w:
                reply(w, c.status)
            else:
                g.chunks.append(c)
            continue
        g.chunks.append(c)
    return g


@prop("C15", "Random subsets of the named types of generated applications (declared, predefined, of every kind), with random mappings given by either option and overridden, next to "
             "fields that are named like them, judged by the ground truth; and custom functions that watch, evaluate and decline, claim, drop, replace or copy the calls they are asked "
             "about, alone and one after another, judged by the ground truth with the claimed calls replaced, and by the calls they were asked about. Distinct: (mapped type kind, mapping) "
             "and (custom functions, call).")
def c15(check):
    n = tier(12, 60)

    def plan(run):
        r = rng("C15plan", run.i)
        keys = [h.key for h in run.p.handlers]
        # An embedded type that is mapped has no fields to embed
        emb = {strip(f.ft)[1] for t in run.p.types.all for f in t.fields if f.embedded}
        pool = [t for t in run.p.types.all if t not in emb and not getattr(t, "input", False)] + [TIME, UUID, DURATION, GINH]
        steps = [route_step("base", keys)]
        run.maps = {}
        for k in range(n):
            ts = r.sample(pool, min(len(pool), r.choice([2, 8, 20, 40])))
            first = {t.key: r.choice(MAPPED) for t in ts}
            single = [[t.key] + list(r.choice(MAPPED)) for t in r.sample(ts, r.randint(0, len(ts)))]
            single += [[x[0]] + list(r.choice(MAPPED)) for x in single if r.random() < 0.3]
            if r.random() < 0.3:
                single, first = [[k_] + list(v) for k_, v in first.items()] + single, {}
            final = dict(first)
            for x in single:
                final[x[0]] = tuple(x[1:])
            # Types of other names and packages aren't meant
            noise = {"example.com/genapp/nowhere." + t.name: ["string", "wrong"] for t in r.sample(pool, 2)}
            noise.update({t.name: ["string", "wrong"] for t in r.sample(pool, 2)})
            run.maps["m%d" % k] = {k_: map_schema(v) for k_, v in final.items()}
            steps.append(route_step("m%d" % k, r.sample(keys, len(keys)) if k % 2 else keys, mapping=dict({k_: list(v) for k_, v in first.items()}, **noise), single=single))
        for x in (["watch"], ["look"], ["example"], ["watch", "look", "example", "watch"]):
            steps.append(route_step("c:" + "+".join(x), keys, customs=x))
        run.claims = {}
        for k in range(n):
            cs = r.sample(CLAIMS, r.choice([1, 1, 2, 4]))
            if r.random() < 0.5:
                cs.insert(r.randint(0, len(cs)), r.choice(["watch", "look"]))
            run.claims["x%d" % k] = cs
            steps.append(route_step("x%d" % k, keys, customs=cs))
        return steps

    def build(p):
        name_decoys(p)

    for run in corpus("C15", tier(2, 6), lambda r, i: dict(handlers=60, per_pkg=7), plan, mutate=build):
        base = doc_of(check, run, "base")
        if base is None:
            continue
        types = {t.key: t for t in run.p.types.all}
        for gid, maps in run.maps.items():
            why = failed(check, run, gid)
            if why:
                check.violation("program %d: %s" % (run.i, why))
                continue
            doc = doc_of(check, run, gid)
            t = Truth(doc, maps)
            t.routes(run.p.handlers)
            for h in run.p.handlers:
                t.handler(h)
            for a, es in sorted(t.errors.items()):
                for e in es[:4]:
                    check.violation("program %d step %s (%s): with mappings: %s" % (run.i, gid, a, e))
            for e in validity(doc):
                check.violation("program %d step %s: with mappings: %s" % (run.i, gid, e))
            for m in t.m.values():
                for x in m.by_type:
                    if x.key in maps:
                        check.saw("map %s %s" % (x.kind if x.key in types else x.key, json.dumps(maps[x.key])))
                        check.count("mapped_components")
                    else:
                        check.count("other_components")
        for gid in [s["id"] for s in run.plan if s["id"].startswith("c:")]:
            why = failed(check, run, gid)
            if why:
                check.violation("program %d: %s" % (run.i, why))
                continue
            doc = doc_of(check, run, gid)
            d = diff(base, doc)
            if d:
                check.violation("program %d step %s: custom functions that decline every call change the document: %s" % (run.i, gid, d[:4]))
            by = {}
            for w, m, p, name, has, gin in run.ev.gen[gid]["seen"]:
                if gin:
                    by.setdefault((m, p), []).append(name)
            k = len(gid[2:].split("+"))
            for h in run.p.handlers:
                got = by.get((h.method, h.path), [])
                want = [c.call for c in h.chunks if c.kind == "response"]
                extra_ = sum(1 for c in h.chunks if c.kind == "bind" and c.should)
                cnt = sum(1 for x in got if x in RESPOND)
                if cnt != k * (len(want) + extra_) or any(got.count(x) < k * want.count(x) for x in set(want)):
                    check.violation("program %d step %s: the custom functions of %s %s were asked about %s, it calls %s (and %d answers of bindings)" % (
                        run.i, gid, h.method, h.path, sorted(x for x in got if x in RESPOND), sorted(want), extra_))
                reads = sum(1 for c in h.chunks if c.kind in ("query", "queryarray", "querymap", "getheader", "postform", "postformarray", "postformmap", "formfile", "bind", "header"))
                if len([x for x in got if x not in RESPOND]) < k * reads:
                    check.violation("program %d step %s: the custom functions of %s %s were asked about %s, it makes %d reads" % (run.i, gid, h.method, h.path, sorted(got), reads))
                check.count("calls_seen", len(got))
                check.saw("watch %s %s" % (gid, sorted(set(got))))
        for gid, cs in run.claims.items():
            why = failed(check, run, gid)
            if why:
                check.violation("program %d: %s" % (run.i, why))
                continue
            doc = doc_of(check, run, gid)
            what = "program %d step %s (%s)" % (run.i, gid, " ".join(cs))
            ref = ops_of(base)
            seen = {}
            for w, m, p, name, has, gin in run.ev.gen[gid]["seen"]:
                seen.setdefault((m, p), set()).add(name)
            t = Truth(doc)
            t.routes(run.p.handlers)
            for h in run.p.handlers:
                if not simple(h, cs):
                    continue
                g = claimed(h, cs, None)
                if g.chunks != h.chunks:
                    check.count("handlers_with_claimed_calls")
                t.handler(g)
            for a, es in sorted(t.errors.items()):
                for e in es[:4]:
                    check.violation("%s (%s): %s" % (what, a, e))
            for c in cs:
                check.saw("claim %s" % c)


def simple(h, cs):
    """Whether the generator's record of a handler says which of its calls the custom functions claim."""
    names = [c.split("/")[1] for c in cs if "/" in c]

    def hit(*calls):
        return any(x.startswith(n) for x in calls for n in names)

    for c in h.chunks:
        # Which of several calls makes these reads is not recorded
        if c.kind in ("query", "queryarray", "querymap") and hit("Query", "QueryArray", "QueryMap"):
            return False
        if c.kind == "getheader" and hit("GetHeader"):
            return False
        if c.kind == "bind" and (hit("ShouldBindJSON") or c.should and hit("JSON", "AbortWithStatusJSON")):
            return False
    return True
