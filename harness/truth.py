"""Compares a document with what the handlers of a generated application do."""
import json
from model import *
from oracle import *

BINDING = {"application/json": "json", "application/xml": "xml", "application/yaml": "yaml",
           "application/x-www-form-urlencoded": "form", "multipart/form-data": "form"}


class Truth:
    """The comparison of one document. Errors are kept per aspect: route, response, input, component, doc."""

    def __init__(self, doc, mappings=None):
        self.doc = doc
        self.mappings = mappings
        self.m = {}
        self.errors = {}
        self.facts = {}
        self.ops = {(p, m): op for p, m, op in operations(doc)}

    def err(self, aspect, msg):
        self.errors.setdefault(aspect, []).append(msg)

    def fact(self, aspect, key):
        self.facts.setdefault(aspect, set()).add(key)

    def matcher(self, binding):
        if binding not in self.m:
            self.m[binding] = Matcher(self.doc, binding, self.mappings)
        return self.m[binding]

    def match(self, aspect, binding, schema, d, where, loose=False):
        m = self.matcher(binding)
        n, k = len(m.errors), len(m.comp_errors)
        m.match(schema, d, where, loose)
        for e in m.errors[n:]:
            self.err(aspect, e)
        for e in m.comp_errors[k:]:
            self.err("component", "(%s) %s" % (binding, e))
        for e in m.doc_errors:
            self.err("doc", e)
        for e in m.id_errors:
            self.err("identity", e)
        m.doc_errors, m.id_errors = [], []

    def routes(self, handlers):
        want = {(template(h.path), h.method.lower()) for h in handlers}
        got = set(self.ops)
        for x in sorted(want - got):
            self.err("route", "no operation for %s %s" % (x[1].upper(), x[0]))
        for x in sorted(got - want):
            self.err("route", "operation %s %s has no route" % (x[1].upper(), x[0]))
        for h in handlers:
            self.fact("route", (h.method, shape(h.path)))

    def handler(self, h):
        op = self.ops.get((template(h.path), h.method.lower()))
        w = "%s %s" % (h.method, h.path)
        if op is None:
            for a in ("response", "input", "doc"):
                self.err(a, w + " is not in the document")
            return
        self.responses(h, op, w)
        self.inputs(h, op, w)
        if op.get("description", "") != h.doc.strip():
            self.err("doc", "%s: doc comment %r, description %r" % (w, h.doc, op.get("description")))
        if op.get("operationId", "") != h.opid:
            self.err("doc", "%s: handler %s has operationId %r" % (w, h.func if not h.inline else "(inline)", op.get("operationId")))
        self.fact("doc", (h.doc.count("\n"), h.inline, h.pkg.path))

    def responses(self, h, op, w):
        want, got = h.responses(), op.get("responses") or {}
        if set(want) != set(got):
            self.err("response", "%s answers %s, documented %s" % (w, sorted(want), sorted(got)))
        for st in sorted(set(want) & set(got)):
            content = got[st].get("content") or {}
            if set(want[st]) != set(content):
                self.err("response", "%s answers %s with %s, documented %s" % (w, st, sorted(want[st]), sorted(content)))
            for ct in sorted(set(want[st]) & set(content)):
                self.alternatives(want[st][ct], content[ct].get("schema", {}), ct, "%s %s %s" % (w, st, ct))
            hs = sorted(got[st].get("headers") or {})
            if hs != h.resp_headers():
                self.err("response", "%s sets the headers %s, documented on %s: %s" % (w, h.resp_headers(), st, hs))
            for n in hs:
                if (got[st]["headers"][n].get("schema") or {}).get("type") != "string":
                    self.err("response", "%s header %s is %s" % (w, n, short(got[st]["headers"][n])))
        for c, wh in zip(h.chunks, h.layout.get("where", [])):
            self.fact("response" if c.kind in ("response", "header") else "input",
                      (c.kind, getattr(c, "call", getattr(c, "what", "")), wh, h.inline, c.ft[0] if getattr(c, "ft", None) else ""))

    def alternatives(self, descs, schema, ct, where):
        b = BINDING.get(ct, "json")
        if len(descs) == 1:
            self.match("response", b, schema, descs[0], where, True)
            return
        alts = schema.get("anyOf") or [schema]
        # Payloads that have the same schema are one alternative
        m = self.matcher(b)
        left = list(alts)
        for d in descs:
            hit = next((a for a in alts if m.would(a, d)), None)
            if hit is None:
                self.err("response", "%s may answer %s, documented %s" % (where, d, short(schema)))
                continue
            self.match("response", b, hit, d, where, True)
            if hit in left:
                left.remove(hit)
        if left:
            self.err("response", "%s documents %s, which no branch answers" % (where, short(left)))

    def inputs(self, h, op, w):
        want = h.params()
        got = {(p.get("name"), p.get("in")): p for p in op.get("parameters") or []}
        if set(want) != set(got):
            self.err("input", "%s reads the parameters %s, documented %s" % (w, sorted(set(want) - set(got)), sorted(map(str, set(got) - set(want)))))
        for k in sorted(set(want) & set(got)):
            d, req = want[k]
            p = got[k]
            if bool(p.get("required")) != req:
                self.err("input", "%s parameter %s is %srequired" % (w, k, "" if p.get("required") else "not "))
            b = {"query": "form", "header": "header", "path": "uri"}[k[1]]
            self.match("input", b, p.get("schema"), d, "%s parameter %s" % (w, k))
            # gin reads m[key]=value and a=1&a=2, which are deepObject and the default of the specification
            right = (p.get("style"), p.get("explode")) == ("deepObject", True) if d[0] == "m" else p.get("style", "form") == "form" and p.get("explode", True)
            if k[1] == "query" and not right:
                self.err("input", "%s parameter %s has the style %s %s" % (w, k, p.get("style"), p.get("explode")))
        body = h.body()
        content = (op.get("requestBody") or {}).get("content") or {}
        if set(body) != set(content):
            self.err("input", "%s reads the bodies %s, documented %s" % (w, sorted(body), sorted(content)))
        for ct in sorted(set(body) & set(content)):
            s, d = content[ct].get("schema") or {}, body[ct]
            ww = "%s body %s" % (w, ct)
            if isinstance(d, dict):
                ps = s.get("properties") or {}
                if s.get("type") != "object" or set(ps) != set(d):
                    self.err("input", "%s has the fields %s, documented %s" % (ww, sorted(d), short(s)))
                for n in sorted(set(ps) & set(d)):
                    self.match("input", "form", ps[n], d[n], ww + "." + n)
            else:
                self.match("input", BINDING[ct], s, d, ww)
            self.fact("input", ("body", ct, d[0] if isinstance(d, tuple) else "fields"))

    def identity(self):
        """Every type has components of its own."""
        by = {}
        for b, m in self.m.items():
            for comp, t in m.by_comp.items():
                by.setdefault(comp, set()).add(t)
        for comp, ts in sorted(by.items()):
            if len(ts) > 1:
                self.err("identity", "component %s describes %s" % (comp, sorted(t.key for t in ts)))
            for t in ts:
                self.fact("identity", (comp, t.key))
        return by


def shape(path):
    import re
    return re.sub(r"\d+", "0", path)


def observe(handlers, doc, events, aspects=("response", "input")):
    """Compares what the running handlers answered and read with the document."""
    import gen
    errs, seen = {"response": [], "input": []}, []
    ops = {(p, m): op for p, m, op in operations(doc)}
    for h in handlers:
        op = ops.get((template(h.path), h.method.lower()))
        if op is None:
            errs["response"].append("%s %s is not in the document" % (h.method, h.path))
            continue
        for rid, c, rq, expect in gen.requests(h):
            e = events.http.get(rid)
            if e is None or e.get("panic"):
                seen.append((rid, "panic"))
                continue
            w = "%s %s" % (h.method, rq["url"])
            st = str(e["status"])
            ct = (e["headers"].get("Content-Type") or [""])[0].split(";")[0]
            resp = (op.get("responses") or {}).get(st)
            seen.append((rid, st, ct))
            if st != str(c.status):
                # The branch was not reached (another response answered first): the document is compared all the same
                seen.append((rid, "other branch"))
            if st == "400" and (resp is None or not e["body"]) and any(x.kind == "bind" and not x.should for x in h.chunks):
                # The automatic answer of gin's Bind* functions
                seen.append((rid, "refused"))
                continue
            if resp is None:
                errs["response"].append("%s answered %s, documented are %s" % (w, st, sorted(op.get("responses") or {})))
                continue
            content = resp.get("content") or {}
            if e["body"] or ct:
                if ct == "application/yaml" and ct not in content and "application/x-yaml" in content:
                    ct = "application/x-yaml"
                if ct not in content:
                    if not (e["body"] == "" and not content):
                        errs["response"].append("%s answered %s with %r, documented are %s" % (w, st, ct, sorted(content)))
                    continue
            if ct == "application/json":
                x = []
                conforms(json.loads(e["body"]), content[ct].get("schema"), doc, "%s -> %s" % (w, st), x, enums=False)
                errs["response"] += x
            reads = " ".join(e["headers"].get("X-Read") or [])
            params = {(p.get("in"), p.get("name")) for p in op.get("parameters") or []}
            for where, n, v in expect:
                seen.append((rid, where, n, v in reads))
    return errs, seen
