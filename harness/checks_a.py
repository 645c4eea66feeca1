"""C01-C07: what a document says about routes, responses, inputs and types."""
from check import prop
from apps import *


def tier(q, t):
    return t if THOROUGH else q


# ---------------------------------------------------------------- C01
NATIVE = '''package main

import (
	"github.com/gin-gonic/gin"

	"example.com/genapp/rt"
)

type nativePing struct {
	Pong string `json:"pong"`
}

func nativeA(c *gin.Context) { c.JSON(200, nativePing{}) }

func nativeB(c *gin.Context) {
	_ = c.Query("nq")
	c.JSON(201, nativePing{})
}

func nativeAuth(c *gin.Context) {
	if c.GetHeader("Authorization") == "" {
		c.AbortWithStatus(401)
		return
	}
	c.Next()
}

func nativeWrap(level int) gin.HandlerFunc {
	return func(c *gin.Context) { c.Next() }
}

func init() {
	rt.Natives["groups"] = func(r *gin.Engine) {
		r.Use(nativeWrap(1))
		g := r.Group("/n", nativeAuth)
		g.GET("/one", nativeA)
		g.GET("/one/", nativeB)
		v := g.Group("/v1").Group("/deep/:tenant")
		v.Use(nativeWrap(2))
		{
			v.GET("", nativeA)
			v.POST("", nativeAuth, nativeWrap(3), nativeB)
			v.PUT("/x/:id", nativeB)
			v.DELETE("/x/:id", nativeA)
			v.PATCH("/x/:id/*tail", nativeA)
		}
	}
	rt.Natives["match"] = func(r *gin.Engine) {
		r.Match([]string{"GET", "POST", "PUT"}, "/m/many", nativeA)
		r.HEAD("/m/many", nativeB)
		r.OPTIONS("/m/other/:p", nativeB)
		r.Handle("TRACE", "/m/trace", nativeA)
	}
	rt.Natives["any"] = func(r *gin.Engine) {
		r.Any("/any/:id", nativeA)
		r.NoRoute(nativeB)
		r.NoMethod(nativeB)
	}
	rt.Natives["root"] = func(r *gin.Engine) { r.GET("/", nativeA) }
	rt.Natives["star"] = func(r *gin.Engine) {
		r.GET("/s/*all", nativeA)
		r.GET("/t/:a/:b/:c/*d", nativeB)
	}
	rt.Natives["shared"] = func(r *gin.Engine) {
		for _, p := range []string{"/sh/a", "/sh/b", "/sh/:c", "/Sh/A", "/sh/a.b", "/sh/a%20b", "/sh/\\u00fc"} {
			r.GET(p, nativeA)
		}
	}
}
'''


def table_ops(table, deny=True):
    return {(template(r["path"]), r["method"].lower()) for r in table if r["method"] != "CONNECT" and not (deny and r["denied"])}


@prop("C01", "Applications with generated handlers in all documented positions (named, inline, method, factory, variable, other packages, main) whose routes are "
             "registered through engines, nested groups, Match, Any and several engines; every route that gin itself reports is compared with the operations of the "
             "document. Distinct: (method, path shape, registration) combinations that were observed in a document.")
def c01(check):
    natives = ["groups", "match", "any", "root", "star", "shared"]

    def plan(run):
        r, keys = rng("C01plan", run.i), [h.key for h in run.p.handlers]
        nokey = [h.key for h in run.p.handlers if h.path != "/"]
        steps = [route_step("all", keys, group=0), route_step("grouped", keys, group=1 + r.randint(0, 5))]
        steps += [dict(op="gen", id="native-" + n, routers=[dict(natives=[n])], outputs=[["openapi", "n.json"]], read=["n.json"]) for n in natives]
        steps.append(dict(op="gen", id="mixed", routers=[dict(routes=nokey, natives=natives)], outputs=[["openapi", "m.json"]], read=["m.json"]))
        half = set(r.sample(nokey, len(nokey) // 2))
        by = {}
        for h in run.p.handlers:
            if h.key in nokey:
                by.setdefault(h.path in {x.path for x in run.p.handlers if x.key in half}, []).append(h.key)
        steps.append(dict(op="gen", id="engines", routers=[dict(routes=by.get(True, [])), dict(routes=by.get(False, []), group=3), dict(natives=natives)],
                          outputs=[["openapi", "e.yaml"]], read=["e.yaml"]))
        steps.append(dict(op="gen", id="none", routers=[dict(routes=[])], outputs=[["openapi", "z.json"]], read=["z.json"]))
        for k in range(tier(6, 30)):
            s = r.sample(keys, r.randint(1, len(keys)))
            steps.append(route_step("sub%d" % k, s, group=r.randint(0, 3)))
        return steps

    for run in corpus("C01", tier(2, 8), lambda r, i: dict(SMALL, handlers=70), plan, more=lambda p: {"natives.go": NATIVE}):
        where = {h.key: h for h in run.p.handlers}
        for s in run.plan:
            e = run.ev.gen.get(s["id"])
            doc = doc_of(check, run, s["id"], s["outputs"][0][1])
            if doc is None:
                continue
            want, got = table_ops(e["table"]), set(ops_of(doc))
            for x in sorted(want - got):
                check.violation("program %d step %s: no operation for %s %s" % (run.i, s["id"], x[1].upper(), x[0]), [t for t in e["table"]][:200])
            for x in sorted(got - want):
                check.violation("program %d step %s: the operation %s %s is not a route" % (run.i, s["id"], x[1].upper(), x[0]))
            for r in e["table"]:
                check.saw("%s %s %s" % (r["method"], shape(r["path"]), s["id"] if s["id"].startswith("native") else s["id"].rstrip("0123456789")))
            check.count("documents")
            check.count("operations", len(got))
            # An operation is that of its own handler: the parameters of generated handlers are unique to them
            if s["id"] in ("all", "grouped"):
                ops = ops_of(doc)
                for h in run.p.handlers:
                    op = ops.get((template(h.path), h.method.lower()))
                    if op is not None and h.opid and op.get("operationId") != h.opid:
                        check.violation("program %d step %s: %s %s is handled by %s, its operation is that of %s" % (
                            run.i, s["id"], h.method, h.path, h.func, op.get("operationId")))
                    if op is not None:
                        check.count("handlers_matched")
                    own = {n for (n, w) in h.params() if w == "query"}
                    have = {p.get("name") for p in (op or {}).get("parameters") or [] if p.get("in") == "query"}
                    alien = have - own
                    if op is not None and alien and any(alien & {n for (n, w) in g.params()} for g in run.p.handlers if g is not h):
                        check.violation("program %d: %s %s has the parameters %s of another handler" % (run.i, h.method, h.path, sorted(alien)))
        check.sample(dict(program=run.i, routes=[(t["method"], t["path"]) for t in run.ev.gen.get("mixed", {}).get("table", [])][:12]))
    check.assumptions.append("CONNECT is left out: OpenAPI 3.0 has no such operation")


# ---------------------------------------------------------------- C02
@prop("C02", "Random deny lists (exact paths, regular expressions, functions; of gin paths, of parameters, overlapping, of everything, of nothing) applied to generated "
             "applications; the document is compared with that of the same application without the denied routes. Distinct: (rule kinds, routes denied) pairs.")
def c02(check):
    def rules(r, paths):
        out = []
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            p = r.choice(paths)
            k = r.choice(["exact", "exact", "regex", "regex", "suffix", "contains"])
            if k == "exact":
                v = r.choice([p, p, p, p + "/", p[:-1] or "/", template(p), p.upper(), p.split("/:")[0] or "/", "/r1"])
            elif k == "regex":
                import re
                v = r.choice(["^" + re.escape(p) + "$", "^/r[0-9]*[13579](/|$)", ":id", "^/$", "(?i)FILES", ".*", "nothing-matches", "^/r1", "/list$", "[*]", re.escape(p)])
            elif k == "suffix":
                v = r.choice(["/", "/:id", "list", p[-3:], p])
            else:
                v = r.choice([":", "*", "/files/", "sub", "r2", p[1:4] or "/"])
            out.append([k, v])
        return out

    def plan(run):
        r = rng("C02plan", run.i)
        hs = run.p.handlers
        steps = [route_step("all", [h.key for h in hs])]
        run.cases = []
        for k in range(tier(24, 120)):
            deny = rules(r, [h.path for h in hs])
            keep = [h.key for h in hs if not py_denied(h.path, deny)]
            run.cases.append((k, deny, keep))
            steps.append(route_step("deny%d" % k, [h.key for h in hs], deny=deny, group=r.choice([0, 0, 2])))
            steps.append(route_step("without%d" % k, keep))
        steps.append(route_step("again", [h.key for h in hs]))
        return steps

    def py_denied(p, deny):
        import re
        for k, v in deny:
            if k == "exact" and p == v or k == "regex" and re.search(v, p) or k == "suffix" and p.endswith(v) or k == "contains" and v in p:
                return True
        return False

    for run in corpus("C02", tier(1, 6), lambda r, i: dict(SMALL), plan):
        full = doc_of(check, run, "all")
        for k, deny, keep in run.cases:
            d, w = doc_of(check, run, "deny%d" % k), doc_of(check, run, "without%d" % k)
            if d is None or w is None:
                continue
            table = run.ev.gen["deny%d" % k]["table"]
            want = table_ops(table)
            n = sum(1 for t in table if t["denied"])
            if set(ops_of(d)) != want:
                for x in sorted(set(ops_of(d)) - want):
                    check.violation("program %d: %s %s is denied by %s but documented" % (run.i, x[1].upper(), x[0], deny))
                for x in sorted(want - set(ops_of(d))):
                    check.violation("program %d: %s %s is not denied by %s but missing" % (run.i, x[1].upper(), x[0], deny))
            elif d != w:
                check.violation("program %d: denying %s is not the same as not registering the routes: %s" % (run.i, deny, diff(w, d)[:4]))
            check.saw("%s %d" % (sorted(x[0] for x in deny), n), nontrivial=0 < n)
            check.count("routes_denied", n)
            check.count("routes_kept", len(table) - n)
            check.sample(dict(deny=deny, denied=[t["path"] for t in table if t["denied"]][:8]))
        a = doc_of(check, run, "again")
        if full is not None and a is not None and a != full:
            check.violation("program %d: a deny list outlives its service: %s" % (run.i, diff(full, a)[:4]))


# ---------------------------------------------------------------- C03, C04
def full_plan(run):
    hs = run.p.handlers
    keys = [h.key for h in hs]
    # The requests of a handler go to a router that has it
    steps = [route_step("g", keys), dict(op="http", id="h", routers=[dict(routes=keys)], reqs=[q[2] for h in hs for q in requests(h)]),
             dict(op="values", id="v")]
    return steps


def truth_of(check, run, gid="g", path="o.json", mappings=None, handlers=None):
    doc = doc_of(check, run, gid, path)
    if doc is None:
        return None, None
    t = Truth(doc, mappings)
    hs = handlers or run.p.handlers
    t.routes(hs)
    for h in hs:
        t.handler(h)
    t.identity()
    return doc, t


def facts(check, t, aspect):
    for f in t.facts.get(aspect, ()):
        check.saw(json.dumps(f, default=str))


@prop("C03", "Handlers generated over every response call of the gin context, status and payload expression form, branch structure and helper layout. Each operation is "
             "compared with what its handler was generated to answer (status, content type, schema, headers), and with what the running handler was observed to answer "
             "over HTTP in every branch. Distinct: (call, position of the call, handler form, payload kind) and (status, content type) observed.")
def c03(check):
    for run in corpus("C03", tier(2, 10), lambda r, i: dict(DENSE), full_plan):
        doc, t = truth_of(check, run)
        if doc is None:
            continue
        for e in t.errors.get("response", []) + t.errors.get("route", []):
            check.violation("program %d: %s" % (run.i, e))
        facts(check, t, "response")
        errs, seen = observe(run.p.handlers, doc, run.ev)
        for e in errs["response"]:
            check.violation("program %d, observed: %s" % (run.i, e))
        if not run.ev.http:
            raise Inconclusive("no requests were observed: %s" % run.ev.out[-500:])
        for s in seen:
            if len(s) == 3:
                check.saw("observed %s %s" % s[1:])
                check.count("responses_observed")
        check.count("branches", sum(len(h.selectors()) for h in run.p.handlers))
        check.sample(dict(program=run.i, handler=run.p.handlers[3].path, responses={k: list(v) for k, v in run.p.handlers[3].responses().items()}))
    check.assumptions.append("the automatic 400 of gin's Bind* functions is not part of what a handler answers")


@prop("C04", "Handlers generated over every way the documentation names to read a request (query, header, form, file, bound structs of all bindings), in any position and "
             "through helpers. Each operation's parameters and bodies are compared with what its handler reads; requests that carry a token in every documented input are "
             "sent to the running handler, which echoes what arrived. Distinct: (kind, position, handler form) and (where, token arrived) observed.")
def c04(check):
    for run in corpus("C04", tier(2, 10), lambda r, i: dict(DENSE), full_plan):
        doc, t = truth_of(check, run)
        if doc is None:
            continue
        for e in t.errors.get("input", []):
            check.violation("program %d: %s" % (run.i, e))
        facts(check, t, "input")
        errs, seen = observe(run.p.handlers, doc, run.ev)
        for e in errs["input"]:
            check.violation("program %d, observed: %s" % (run.i, e))
        arrived = {}
        for s in seen:
            if len(s) == 4:
                k = (s[0].split("/")[0], s[1], s[2])
                arrived[k] = arrived.get(k, False) or s[3]
        for k, v in arrived.items():
            check.count("inputs_that_arrived" if v else "inputs_not_reached")
            check.saw("observed %s %s" % (k[1], v), nontrivial=bool(v))
        check.sample(dict(program=run.i, handler=run.p.handlers[5].path, params=sorted(map(str, run.p.handlers[5].params()))))


# ---------------------------------------------------------------- C05
@prop("C05", "Type universes spread over packages (structs of every tagging style, embedding, enums, slices, arrays, maps, recursion, pointers, special types) used by handlers. "
             "Every component is compared with its Go type, and a populated value of every type is encoded by encoding/json and yaml and compared with the component in both "
             "directions. Distinct: types compared.")
def c05(check):
    for run in corpus("C05", tier(2, 10), lambda r, i: dict(handlers=70, per_pkg=14), full_plan):
        doc, t = truth_of(check, run)
        if doc is None:
            continue
        for e in t.errors.get("component", []):
            check.violation("program %d: %s" % (run.i, e))
        if not run.ev.values:
            raise Inconclusive("no values were observed: %s" % run.ev.out[-500:])
        for b, m in t.m.items():
            for ty, comp in m.by_type.items():
                check.saw("%d %s %s %s" % (run.i, b, ty.kind, ty.key))
                check.count("components_%s" % b)
                v = run.ev.values.get(ty.key)
                if v is None or v.get("err") or b not in ("json", "yaml"):
                    continue
                if ty.kind == "struct" and expected_props(ty, b) is None:
                    continue
                if b == "yaml" and (not binding_ok(ty, "yaml") or "yaml" not in v or any(f.embedded or f.exported and "yaml" not in f.tags for x in closure([ty]) for f in x.fields)):
                    continue
                x = json.loads(v["json"]) if b == "json" else v["yaml"]
                errs = []
                # The value of an enum is one of its constants; bare values of other bindings are read like those of JSON
                conforms(x, {"$ref": "#/components/schemas/" + comp}, doc, "%s (%s value)" % (ty.key, b), errs, two_way=2 if b == "json" else 1, enums=b == "json")
                for e in errs:
                    # Of YAML only the names are promised
                    if b == "json" or "property '" in e:
                        check.violation("program %d, observed: %s" % (run.i, e))
                check.count("values_compared")
        check.sample(dict(program=run.i, types=[ty.key for ty in run.p.types.all][:10]))


# ---------------------------------------------------------------- C06
@prop("C06", "Documents of generated applications, of random subsets of their routes, in JSON and YAML, with and without configuration; each is checked for dangling references, "
             "duplicate or nameless parameters, path parameters that do not match the template, invalid status codes, media types, schemas and names. Distinct: documents "
             "by their set of operations and components.")
def c06(check):
    def plan(run):
        r, keys = rng("C06plan", run.i), [h.key for h in run.p.handlers]
        steps = [route_step("all", keys), route_step("yaml", keys, outputs=[["openapi", "o.yaml"]]), route_step("none", [])]
        for k in range(tier(40, 200)):
            s = r.sample(keys, r.choice([1, 1, 2, 3, 8, 20]))
            steps.append(route_step("s%d" % k, s, outputs=[["openapi", r.choice(["p.json", "p.yaml", "p.yml"])]], group=r.choice([0, 1])))
        return steps

    for run in corpus("C06", tier(2, 8), lambda r, i: dict(DENSE, per_pkg=12), plan):
        for s in run.plan:
            doc = doc_of(check, run, s["id"], s["outputs"][0][1])
            if doc is None:
                continue
            for e in validity(doc):
                check.violation("program %d step %s: %s" % (run.i, s["id"], e))
            cs = sorted((doc.get("components") or {}).get("schemas") or {})
            check.saw(json.dumps([run.i, sorted(map(str, ops_of(doc))), cs]))
            check.count("references", len(list(refs(doc))))
            check.count("components", len(cs))
            check.count("operations", len(ops_of(doc)))
        check.sample(dict(program=run.i, components=cs[:12]))


# ---------------------------------------------------------------- C07
@prop("C07", "Applications in which types of the same name live in packages that share a name, a last directory or nothing, in main, and in packages whose name differs from their "
             "directory; every use of a type is followed to its component. Distinct: (component, type) pairs.")
def c07(check):
    def opts(r, i):
        return dict(handlers=90, per_pkg=12)

    def mutate(p):
        # The same few names everywhere
        names, seen = ["User", "Order", "Item", "Record", "Account", "Session", "Widget", "Task"], {}
        for t in p.types.all:
            if getattr(t, "input", False) or t.kind == "special" or not t.name[:1].isupper() or t.name.startswith("Base") or t.name.startswith("Page") or hasattr(t.pkg, "names"):
                continue
            k = seen.setdefault(t.pkg.path, iter(names))
            n = next(k, None)
            if n and not any(x.name == n and x.pkg is t.pkg for x in p.types.all):
                old = t.name
                t.consts = [(c.replace(old, n, 1), v) for c, v in t.consts]
                t.name = n

    for run in corpus("C07", tier(2, 10), opts, lambda run: [route_step("g", [h.key for h in run.p.handlers]),
                                                             route_step("rev", [h.key for h in run.p.handlers][::-1])], mutate=mutate):
        for gid in ("g", "rev"):
            doc, t = truth_of(check, run, gid)
            if doc is None:
                continue
            for e in t.errors.get("identity", []):
                check.violation("program %d: %s" % (run.i, e))
            for e in t.errors.get("component", []):
                check.violation("program %d: %s" % (run.i, e))
            facts(check, t, "identity")
            by = {}
            for b, m in t.m.items():
                for ty, comp in m.by_type.items():
                    by.setdefault(ty.name, set()).add((ty.key, comp))
            check.count("names_shared_by_types", sum(1 for v in by.values() if len({k for k, _ in v}) > 1))
            check.sample({k: sorted(v) for k, v in sorted(by.items()) if len({x for x, _ in v}) > 1 and len(v) < 9})
