"""Generates applications in the documented handler dialect, together with what their handlers do (the ground truth)."""
import copy
from model import *
from typegen import Types, doc_words, emit_pkg_files, snake, camel, kebab, WORDS
from oracle import template, path_params

HTTP = {200: "OK", 201: "Created", 202: "Accepted", 203: "NonAuthoritativeInfo", 204: "NoContent", 206: "PartialContent",
        400: "BadRequest", 401: "Unauthorized", 402: "PaymentRequired", 403: "Forbidden", 404: "NotFound",
        405: "MethodNotAllowed", 406: "NotAcceptable", 409: "Conflict", 410: "Gone", 412: "PreconditionFailed",
        418: "Teapot", 422: "UnprocessableEntity", 429: "TooManyRequests", 500: "InternalServerError", 501: "NotImplemented",
        502: "BadGateway", 503: "ServiceUnavailable", 504: "GatewayTimeout"}
BODY_METHODS = ("POST", "PUT", "PATCH", "DELETE")
GIN = Pkg("gin", "gin")
GIN.path = GIN.imp = "github.com/gin-gonic/gin"
FILL = Pkg("fill", "fill")
RT = Pkg("rt", "rt")
NETHTTP = Pkg("net/http", "http")
NETHTTP.path = NETHTTP.imp = "net/http"
ERRORS = Pkg("errors", "errors")
ERRORS.path = ERRORS.imp = "errors"
STRCONV = Pkg("strconv", "strconv")
STRCONV.path = STRCONV.imp = "strconv"


class File:
    """A source file: declarations and the imports they need."""

    def __init__(self, rng, pkg, name):
        self.rng, self.pkg, self.name = rng, pkg, name
        self.imports, self.decls = {}, []
        self.ginalias = "g" if rng.random() < 0.15 else "gin"

    def ref(self, p):
        """The qualifier of a package, with its dot."""
        if p is self.pkg or p.path == self.pkg.path:
            return ""
        if p.path not in self.imports:
            used = {a for a, _ in self.imports.values()}
            n = self.ginalias if p.path == GIN.path else p.name
            if n in used or (p.path != GIN.path and p.imp.startswith("example.com") and p not in (FILL, RT) and self.rng.random() < 0.12):
                n = (p.imp.split("/")[-2] + p.name).replace("-", "").replace(".", "")
            k = 2
            base = n
            while n in used:
                n = base + str(k)
                k += 1
            self.imports[p.path] = (n, p)
        return self.imports[p.path][0] + "."

    def ty(self, ft):
        for t in named(ft):
            self.ref(t.pkg)
        return gotype(ft, self.pkg, {k: a for k, (a, _) in self.imports.items()})

    def text(self):
        import re
        code = "\n".join(self.decls)
        self.imports = {k: v for k, v in self.imports.items() if re.search(r"\b%s\." % re.escape(v[0]), code)}
        out = ["package %s\n" % self.pkg.name]
        if self.imports:
            out.append("import (")
            for a, p in sorted(self.imports.values(), key=lambda x: x[1].imp):
                plain = a == p.name and p.name == p.imp.split("/")[-1]
                out.append("\t%s\"%s\"" % ("" if plain else a + " ", p.imp))
            out.append(")\n")
        return "\n".join(out) + "\n" + "\n\n".join(self.decls) + "\n"


class Chunk:
    """A part of a handler. kind: query, queryarray, ..., bind, header, response."""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)


class Handler:
    def __init__(self, key, method, path):
        self.key, self.method, self.path = key, method, path
        self.chunks, self.doc, self.func, self.pkg, self.inline, self.file = [], "", "", None, False, None
        self.layout = {}

    @property
    def opid(self):
        if self.form == "method":
            return self.recv[:1].lower() + self.recv[1:] + self.func[:1].upper() + self.func[1:]
        return "" if self.inline else self.func[:1].lower() + self.func[1:]

    # -- ground truth
    def responses(self):
        out = {}
        for c in self.chunks:
            for st, ct, d in c_responses(c):
                r = out.setdefault(str(st), {})
                if ct:
                    alts = r.setdefault(ct, [])
                    if d not in alts:
                        alts.append(d)
        return out

    def params(self):
        out = {}
        for n, req in path_params(self.path):
            out[(n, "path")] = (("b", "string"), req)
        for c in self.chunks:
            if c.kind in ("query", "queryarray", "querymap"):
                d = {"query": ("b", "string"), "queryarray": ("s", ("b", "string")), "querymap": ("m", ("b", "string"))}[c.kind]
                out.setdefault((c.name, "query"), (d, False))
            elif c.kind == "getheader":
                out.setdefault((c.name, "header"), (("b", "string"), False))
            elif c.kind == "bind" and c.what in ("query", "header", "auto"):
                from oracle import expected_props
                b = "header" if c.what == "header" else "form"
                for k, d in (expected_props(c.t, b) or {}).items():
                    out.setdefault((k, "header" if b == "header" else "query"), (d, False))
        return out

    def body(self):
        out = {}
        for c in self.chunks:
            if c.kind in ("postform", "postformarray", "postformmap"):
                d = {"postform": ("b", "string"), "postformarray": ("s", ("b", "string")), "postformmap": ("m", ("b", "string"))}[c.kind]
                out.setdefault("application/x-www-form-urlencoded", {})[c.name] = d
            elif c.kind == "formfile":
                out.setdefault("multipart/form-data", {})[c.name] = ("file",)
            elif c.kind == "bind" and c.what in ("json", "xml", "yaml"):
                out["application/" + c.what] = ("n", c.t)
            elif c.kind == "bind" and c.what == "auto":
                for ct, b in (("application/json", "json"), ("application/xml", "xml"), ("application/yaml", "yaml"),
                              ("application/x-www-form-urlencoded", "form"), ("multipart/form-data", "form")):
                    out[ct] = ("n", c.t)
        return out

    def resp_headers(self):
        return sorted({c.name for c in self.chunks if c.kind == "header"})

    def selectors(self):
        return [c for c in self.chunks if c.kind == "response"]


def c_responses(c):
    if c.kind == "response":
        return [(c.status, c.ct, c.desc)]
    if c.kind == "bind" and c.should:
        return [(c.errstatus, "application/json", ("n", GINH))]
    return []


class Program:
    def __init__(self, rng, opts=None):
        self.rng = rng
        o = dict(handlers=36, per_pkg=7, types=None, helpers=True, xml=True, rich=True, forms=["method", "method", "factory", "var", "server"])
        o.update(opts or {})
        self.o = o
        self.main = Pkg("", "main")
        self.models = Pkg("models", "models")
        self.v1 = Pkg("api/v1/types", "types")
        self.v2 = Pkg("api/v2/types", "types")
        self.store = Pkg("internal/store/types", "types")
        self.util = Pkg("pkg/go-util", "util")
        self.ha = Pkg("web/handlers", "handlers")
        self.hb = Pkg("web/v2/handlers", "handlers")
        self.respond = Pkg("web/respond", "respond")
        self.fake = Pkg("web/fake", "fake")
        # Packages that share their name, and the names of their types, with well-known ones
        self.likes = [Pkg("lib/time", "time"), Pkg("x/uuid", "uuid"), Pkg("x/gin", "gin")]
        self.likes[0].names, self.likes[1].names, self.likes[2].names = [("Time", "struct"), ("Duration", "basic")], [("UUID", "struct"), ("NullUUID", "map")], [("H", "struct"), ("Param", "enum")]
        if not o["rich"] or o["types"]:
            self.likes = []
        self.typepkgs = [self.models, self.v1, self.v2, self.store, self.util] + self.likes
        self.hpkgs = [self.main, self.ha, self.hb]
        self.types = Types(rng, self.typepkgs + [self.ha, self.hb, self.main], o["per_pkg"], o["types"])
        self.inputs = []
        self.n = 0
        for p in self.typepkgs + [self.ha, self.hb, self.main]:
            for _ in range(2):
                self.inputs.append(self.input_type(p))
        self.handlers = []
        self.make_handlers()
        self.layouts(rng)

    def uid(self):
        self.n += 1
        return self.n

    # -- types that requests are bound to
    def input_type(self, p):
        rng, u = self.rng, self.uid()
        mode = rng.choice(["form", "all_same", "all_diff", "none", "header", "json", "xml", "yaml"])
        name = "In%d%s" % (u, rng.choice(["Filter", "Body", "Params", "Form"]))
        # Packages have input types of the same name
        common = [n for n in ("ListFilter", "Paging") if n not in {x.name for x in self.types.all if x.pkg is p}]
        if common and rng.random() < 0.5:
            name = common[0]
            mode = rng.choice(["form", "form", "header", "all_diff", mode])
        t = T(p, name, "struct", tagmode=mode,
              doc="In%d carries what a request has." % u if rng.random() < 0.4 else "")
        t.input = True
        if mode == "form" and rng.random() < 0.4:
            e = T(p, "Page%d" % u, "struct", tagmode="form", fields=[
                Field("Limit%d" % u, ("b", "int"), {"form": "limit%d" % u}), Field("Off%d" % u, ("b", "int"), {"form": "off%d" % u})])
            e.input = True
            self.types.all.append(e)
            t.fields.append(Field(e.name, ("n", e), embedded=True))
        for i, w in enumerate(rng.sample(WORDS, rng.randint(1, 5))):
            w = w + "I%d" % u
            ft = rng.choice([("b", "string"), ("b", "string"), ("b", "int"), ("b", "uint16"), ("b", "float64"), ("b", "bool"),
                             ("p", ("b", "string")), ("s", ("b", "string")), ("s", ("b", "int")), ("p", ("b", "int64"))])
            n = rng.choice([snake, camel, kebab])(w)
            if mode == "header":
                tags, ft = {"header": "X-" + kebab(w).title()}, rng.choice([("b", "string"), ("b", "string"), ("b", "int"), ("b", "bool")])
            elif mode == "all_same":
                tags = {b: n for b in ("json", "xml", "yaml", "form")}
            elif mode == "all_diff":
                tags = {"json": n, "xml": n + "X", "yaml": n + "_y", "form": n + "-f"}
            elif mode == "none":
                tags = {}
            else:
                tags = {mode: n}
            opts = {}
            if "form" in tags and ft in (("b", "string"), ("b", "int"), ("b", "bool"), ("b", "uint16")) and rng.random() < 0.25:
                opts["form"] = ["default=%s" % {"string": "x", "bool": "true"}.get(ft[1], "7")]
            if rng.random() < 0.2:
                b = rng.choice(sorted(set(tags) - {"form", "header"}) or [""])
                if b:
                    opts[b] = rng.choice([["omitempty"], {"json": ["omitzero"], "xml": ["omitempty", "any"][:1], "yaml": ["flow"]}[b], ["omitempty"]])
            t.fields.append(Field(w, ft, tags, opts=opts, binding=""))
            if mode == "form" and n.upper() != n and rng.random() < 0.3:
                t.fields.append(Field(w + "Other", ("b", "string"), {"form": n.upper()}, binding=""))
        self.types.all.append(t)
        return t

    def input_for(self, what, pkg):
        ok = {"query": ("form", "all_same", "all_diff", "none"), "header": ("header",), "json": ("json", "all_same", "all_diff", "none"),
              "xml": ("xml", "all_same", "all_diff"), "yaml": ("yaml", "all_same", "all_diff"), "auto": ("all_same", "all_diff")}[what]
        c = [t for t in self.inputs if t.tagmode in ok and self.may_use(pkg, t.pkg)]
        if what == "json" and self.rng.random() < 0.5:
            d = [t for t in self.types.all if t.kind == "struct" and t not in self.inputs and self.may_use(pkg, t.pkg) and
                 t.name[:1].isupper() and expected_ok(t, "json")]
            c = d or c
        return self.rng.choice(c) if c else None

    def may_use(self, pkg, other):
        return other in self.typepkgs or other is pkg or (pkg is self.main and other in (self.ha, self.hb))

    def usable(self, pkg, foreign=False):
        return [t for t in self.types.all if (t.pkg in self.typepkgs and t.name[:1].isupper()) or (not foreign and (
            t.pkg is pkg or (pkg is self.main and t.pkg in (self.ha, self.hb) and t.name[:1].isupper())))]

    # -- handlers
    def make_handlers(self):
        rng = self.rng
        names = {}
        verbs = ["Get", "List", "Create", "Update", "Remove", "Find", "Search", "Sync"]
        shared = None
        for i in range(self.o["handlers"]):
            m = rng.choice(["GET", "GET", "GET", "POST", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS"])
            base = "/r%d" % i
            shape = rng.choice(["", "", "/list", "/:id", "/:id", "/:id/sub/:sub_id", "/*rest", "/x/", "/v:ver/items", "/:id/:idx", "/a-b_c.d/~e",
                                "/:userID/posts/:post-id", "/files/*filepath"])
            path = base + shape
            if shared and rng.random() < 0.25:
                path, used = shared
                free = [x for x in ("GET", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS", "TRACE") if x not in used]
                m = rng.choice(free)
                used.append(m)
            else:
                shared = (path, [m])
            if i == 0 and m == "GET":
                path = "/"
                shared = (path, [m])
            h = Handler("k%d" % i, m, path)
            h.pkg = rng.choice([self.ha, self.ha, self.hb, self.main])
            h.form = rng.choice(["named"] * 11 + ["inline"] * 3 + self.o["forms"])
            h.inline = h.form not in ("named", "method")
            h.recv = "%s%d" % (rng.choice(["Controller", "UserApi", "Store"]), i)
            h.ptr = rng.random() < 0.6
            h.func = "%s%s%d" % (rng.choice(verbs), rng.choice(["User", "OrderItems", "Report", "URL", "Stats"]).replace("URL", "Url"), i)
            if h.form == "named" and rng.random() < 0.2:
                h.func = h.func[0].lower() + h.func[1:] if h.pkg is self.main else h.func
            h.doc = "" if h.inline else doc_words(rng, h.func)
            h.docstyle = rng.choice(DOCSTYLES)
            self.fill_handler(h)
            self.handlers.append(h)

    def payload_type(self, h, ct):
        rng = self.rng
        us = self.usable(h.pkg)
        if ct in ("application/xml", "application/yaml"):
            b = ct.split("/")[1]
            c = [t for t in us if t.kind == "struct" and t.tagmode in ("all_same", "all_diff", "perfield") and binding_ok(t, b)]
            return ("n", rng.choice(c)) if c else None
        if ct == "application/protobuf":
            c = [t for t in us if t.kind == "struct" and expected_ok(t, "json")]
            return ("n", rng.choice(c)) if c else None
        r = rng.random()
        c = [t for t in us if not getattr(t, "input", False)]
        t = rng.choice(c)
        # JSON has no property names for structs that only have the tags of other bindings
        if t.kind == "struct" and not expected_ok(t, "json"):
            return ("n", GINH)
        if r < 0.5:
            return ("n", t)
        if r < 0.6:
            return ("s", ("n", t)) if not (t.kind in ("basic", "enum") and t.under[1] == "uint8") else ("n", t)
        if r < 0.64:
            return ("s", ("p", ("n", t))) if t.kind == "struct" else ("n", t)
        if r < 0.7:
            return ("m", ("b", "string"), ("n", t))
        if r < 0.73:
            return ("a", rng.randint(1, 4), ("n", t)) if not (t.kind in ("basic", "enum") and t.under[1] == "uint8") else ("n", t)
        if r < 0.8:
            return ("b", rng.choice(["string", "int", "int64", "uint8", "float64", "bool", "uint32", "float32"]))
        if r < 0.84:
            return ("s", ("b", rng.choice(["string", "int", "float64", "bool"])))
        if r < 0.87:
            return ("m", ("b", "string"), ("b", rng.choice(["string", "int", "float64", "bool"])))
        if r < 0.89:
            return ("any",)
        return ("n", GINH)

    def fill_handler(self, h):
        rng = self.rng
        u = self.uid
        pre = []
        body_ok = h.method in BODY_METHODS
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            k = rng.choice(["query", "query", "queryarray", "querymap", "getheader", "getheader"])
            n = rng.choice(["q%d", "page-%d", "sort_by%d", "Filter%d", "a.b%d"]) % u()
            if k == "getheader":
                n = rng.choice(["X-Tok-%d", "x-lower-%d", "If-Match%d"]) % u()
            pre.append(Chunk(k, name=n))
            if rng.random() < 0.1:
                pre.append(Chunk(k, name=n))
        if rng.random() < 0.25:
            t = self.input_for("query", h.pkg)
            if t:
                pre.append(Chunk("bind", what="query", t=t, should=rng.random() < 0.7, errstatus=rng.choice([400, 422])))
                t2 = self.input_for("query", h.pkg)
                if rng.random() < 0.3 and t2 and t2 is not t:
                    pre.append(Chunk("bind", what="query", t=t2, should=rng.random() < 0.7, errstatus=rng.choice([400, 422])))
        if rng.random() < 0.15:
            t = self.input_for("header", h.pkg)
            if t:
                pre.append(Chunk("bind", what="header", t=t, should=rng.random() < 0.7, errstatus=400))
                t2 = self.input_for("header", h.pkg)
                if rng.random() < 0.2 and t2 and t2 is not t:
                    pre.append(Chunk("bind", what="header", t=t2, should=rng.random() < 0.7, errstatus=400))
        if body_ok and rng.random() < 0.75:
            w = rng.choice(["json", "json", "json", "xml", "yaml", "auto", "form", "form", "file"])
            if w == "form":
                for _ in range(rng.randint(1, 3)):
                    pre.append(Chunk(rng.choice(["postform", "postform", "postformarray", "postformmap"]), name="f%d" % u()))
            elif w == "file":
                for _ in range(rng.randint(1, 2)):
                    pre.append(Chunk("formfile", name="file-%d" % u()))
            elif w != "auto" or not any(c.kind == "bind" or c.kind.startswith("query") for c in pre):
                t = self.input_for(w, h.pkg)
                if t:
                    pre.append(Chunk("bind", what=w, t=t, should=rng.random() < 0.75, errstatus=rng.choice([400, 422])))
        for _ in range(rng.choice([0, 0, 0, 1, 2])):
            pre.append(Chunk("header", name=rng.choice(["X-Rate-%d", "ETag%d", "x-small-%d"]) % u()))
        rng.shuffle(pre)
        res = []
        if rng.random() < 0.05:
            # Answers nothing that is documented
            h.chunks = [c for c in pre if c.kind == "header"] + [c for c in pre if c.kind != "header" and not c_responses(c)]
            return
        n = rng.choice([1, 2, 2, 3, 4, 5])
        sts = rng.sample(sorted(HTTP), min(n, len(HTTP)))
        if rng.random() < 0.12:
            # One status in several content types
            st = rng.choice([s for s in sts if s != 204] or [200])
            kinds = ["JSON", "String", "Data"] + (["XML", "YAML"] if self.o["xml"] else [])
            rng.shuffle(kinds)
            res, n = [self.response(h, st, "s%d" % u(), k) for k in kinds[:rng.randint(2, 5)]], 0
        for i in range(n):
            st = sts[i]
            if i and rng.random() < 0.3:
                st = rng.choice(sts[:i])
            res.append(self.response(h, st, "s%d" % u()))
        chunks = list(pre)
        for r in res[:-1]:
            chunks.insert(rng.randint(0, len(chunks)), r)
        # Response headers are set before anything is answered
        hd = [c for c in chunks if c.kind == "header"]
        chunks = hd + [c for c in chunks if c.kind != "header"] + [res[-1]]
        h.chunks = chunks

    def response(self, h, st, sel, kind=None):
        rng = self.rng
        kind = kind or rng.choice(["JSON"] * 10 + ["AbortWithStatusJSON"] * 3 + ["String"] * 2 + ["Status", "AbortWithStatus", "AbortWithError", "Data", "ProtoBuf"][:5 if self.o["rich"] else 4] +
                          (["XML", "YAML"] * 2 if self.o["xml"] else []))
        if st == 204:
            kind = rng.choice(["Status", "AbortWithStatus"])
        if kind in ("Status", "AbortWithStatus", "AbortWithError"):
            return Chunk("response", call=kind, status=st, ct="", desc=None, ft=None, sel=sel)
        if kind == "String":
            return Chunk("response", call=kind, status=st, ct="text/plain", desc=("b", "string"), ft=None, sel=sel)
        if kind == "Data":
            return Chunk("response", call=kind, status=st, ct=rng.choice(["image/png", "application/pdf", "application/octet-stream", "text/csv"]),
                         desc=("file",), ft=None, sel=sel)
        ct = {"XML": "application/xml", "YAML": "application/yaml", "ProtoBuf": "application/protobuf"}.get(kind, "application/json")
        ft = self.payload_type(h, ct)
        if ft is None:
            kind, ct, ft = "JSON", "application/json", ("n", GINH)
        return Chunk("response", call=kind, status=st, ct=ct, desc=desc(ft), ft=ft, sel=sel)

    # -- how the code is spread
    def layouts(self, rng):
        for h in self.handlers:
            h.layout = self.layout(h, rng)

    def foreign_ok(self, c, pkg):
        """Whether a chunk can move to another package."""
        fts = []
        if c.kind == "response" and c.ft:
            fts.append(c.ft)
        if c.kind == "bind":
            fts.append(("n", c.t))
        for ft in fts:
            for t in named(ft):
                if t.pkg not in self.typepkgs and t.kind != "special" and t is not GINH:
                    return False
                if not t.name[:1].isupper():
                    return False
        return True

    def layout(self, h, rng):
        where = []
        for c in h.chunks:
            opts = ["here"] * 5
            if self.o["helpers"]:
                opts += ["same", "same", "file"]
                if self.foreign_ok(c, h.pkg):
                    opts += ["pkg", "pkg"]
                opts += ["nested"]
            where.append(rng.choice(opts))
        return dict(where=where, seed=rng.random(), ctx=rng.choice(["c", "c", "c", "ctx", "gc", "context"]),
                    branch=rng.choice(["if", "if", "switch"]), file=rng.choice(["a", "b"]))

    # -- code
    def emit(self, relayout=None):
        rng = self.rng
        self.files, self.k = {}, 0
        regs = {p.path: [] for p in self.hpkgs}
        for p in self.typepkgs + [self.ha, self.hb, self.main]:
            f = (p.dir + "/" if p.dir else "") + "types_gen.go"
            self.files.update(emit_pkg_files(self.types.all, p, f))
        self.fobj = {}
        for h in self.handlers:
            lay = h.layout if relayout is None else relayout[h.key]
            self.emit_handler(h, lay, regs)
        self.decoys()
        for f in list(self.fobj.values()):
            self.files[(f.pkg.dir + "/" if f.pkg.dir else "") + f.name] = f.text()
        self.emit_register(regs)
        self.emit_main()
        return self.files

    def file(self, pkg, name):
        k = (pkg.path, name)
        if k not in self.fobj:
            self.fobj[k] = File(self.rng, pkg, name)
        return self.fobj[k]

    def var(self, base="v"):
        self.k += 1
        return "%s%d" % (base, self.k)

    def decoys(self):
        """Code that looks like gin's, but isn't."""
        f = self.file(self.fake, "fake.go")
        f.decls.append("// Context is not gin's.\ntype Context struct{ N int }")
        f.decls.append("func (c *Context) JSON(code int, v any) { c.N += code }\n\nfunc (c *Context) Query(name string) string { return name }\n\n"
                       "func (c *Context) Status(code int) {}\n\nfunc (c *Context) Header(name, value string) {}\n\n"
                       "func (c *Context) ShouldBindJSON(v any) error { return nil }")
        for p in self.hpkgs:
            for n in ("a.go", "b.go"):
                g = self.file(p, n)
                if g.decls:
                    ms = [h for h in self.handlers if h.pkg is p and h.form == "named"]
                    if ms:
                        h = self.rng.choice(ms)
                        nm = "decoy%s" % n[0]
                        g.decls.insert(0, "type %s struct{}\n\n// %s is a method that shares the name of a handler.\nfunc (%s) %s(n int) int { return n }" % (nm, h.func, nm, h.func))

    def emit_handler(self, h, lay, regs):
        rng = __import__("random").Random(lay["seed"])
        f = self.file(h.pkg, ("inline_%s.go" if h.form == "inline" else "%s.go") % lay["file"])
        ctx = lay["ctx"]
        body = self.body(f, h, lay, ctx, rng)
        g = f.ref(GIN)
        fn = "func(%s *%sContext) {\n%s\n}" % (ctx, g, indent(body, 1))
        up = h.func[:1].upper() + h.func[1:]
        if h.form == "factory":
            f.decls.append("// New%s makes a handler.\nfunc New%s(prefix string) %sHandlerFunc {\n\t_ = prefix\n\treturn %s\n}" % (up, up, g, indent(fn, 1).lstrip()))
        elif h.form == "var":
            f.decls.append("// %s is a handler.\nvar %s%s = %s" % (up, up, rng.choice(["", " " + g + "HandlerFunc"]), fn))
        elif h.form == "server":
            n = "Server%s" % up
            f.decls.append("// %s has handlers.\ntype %s struct{ N int }\n\n// Routes registers them.\nfunc (s *%s) Routes() {\n\ts.N++\n\t%sHandle(%s, %s, %s, %s)\n}" % (
                n, n, n, f.ref(RT), q(h.key), q(h.method), q(h.path), indent(fn, 1).lstrip()))
        elif h.form == "method":
            doc = doc_text(h.doc, h.docstyle, h.func)
            f.decls.append("// %s has handlers.\ntype %s struct{ DB string }\n\n%sfunc (%s %s%s) %s(%s *%sContext) {\n\t_ = %s.DB\n%s\n}" % (
                h.recv, h.recv, doc, "recv", "*" if h.ptr else "", h.recv, up, ctx, g, "recv", indent(body, 1)))
            # Another type has a method with the same name
            f.decls.insert(0, "type other%s struct{}\n\nfunc (other%s) %s(%s *%sContext) { %s.String(599, \"no\") }" % (h.recv, h.recv, up, ctx, g, ctx))
        elif h.form == "inline":
            reg = "\t%sHandle(%s, %s, %s, func(%s *%sContext) {\n%s\n\t})" % (
                f.ref(RT), q(h.key), q(h.method), q(h.path), ctx, g, indent(body, 2))
            f.inl = getattr(f, "inl", [])
            f.inl.append(reg)
            if len(f.inl) == 1:
                f.decls.append(None)
                f.inlat = len(f.decls) - 1
                f.inlname = "RegisterInline%s" % lay["file"].upper()
                regs[h.pkg.path].append(f.inlname)
            f.decls[f.inlat] = "// %s registers handlers.\nfunc %s() {\n%s\n}" % (f.inlname, f.inlname, "\n\n".join(f.inl))
        else:
            doc = doc_text(h.doc, h.docstyle, h.func)
            f.decls.append("%sfunc %s(%s *%sContext) {\n%s\n}" % (doc, h.func, ctx, g, indent(body, 1)))

    def emit_register(self, regs):
        self.regs = regs

    def emit_main(self):
        f = File(self.rng, self.main, "main.go")
        body = []
        for p in self.hpkgs:
            for r in self.regs[p.path]:
                body.append("%s%s()" % (f.ref(p), r))
        for h in self.handlers:
            up = h.func[:1].upper() + h.func[1:]
            hd = "%sHandle(%s, %s, %s, %%s)" % (f.ref(RT), q(h.key), q(h.method), q(h.path))
            if h.form == "factory":
                body.append(hd % ('%sNew%s("p")' % (f.ref(h.pkg), up)))
            elif h.form == "var":
                body.append(hd % (f.ref(h.pkg) + up))
            elif h.form == "server":
                body.append("(&%sServer%s{}).Routes()" % (f.ref(h.pkg), up))
            elif h.form == "method":
                body.append("recv%s := &%s%s{}" % (h.key, f.ref(h.pkg), h.recv))
                body.append(hd % ("recv%s.%s" % (h.key, up)))
            elif h.form == "named":
                body.append("%sHandle(%s, %s, %s, %s%s)" % (f.ref(RT), q(h.key), q(h.method), q(h.path), f.ref(h.pkg), h.func))
        for t in self.types.all:
            if t.kind == "enum" and t.pkg is self.main or (t.kind == "enum" and t.pkg is not self.main and t.name[:1].isupper()):
                body.append("%sEnum(%s)" % (f.ref(FILL), f.ref(t.pkg) + t.consts[0][0]))
        for t in self.types.all:
            if t.kind != "iface" and (t.pkg is self.main or t.name[:1].isupper()):
                body.append("%sValue(%s, func() any { return %sNew[%s]() })" % (f.ref(RT), q(t.key), f.ref(FILL), f.ty(("n", t))))
        for extra in getattr(self, "extra_main", []):
            body += extra(f)
        body.append("%sMain()" % f.ref(RT))
        f.decls.append("func main() {\n%s\n}" % indent("\n".join(body), 1))
        self.files["main.go"] = f.text()

    def body(self, f, h, lay, ctx, rng):
        out = []
        switch = None
        last = len(h.chunks) - 1
        for i, c in enumerate(h.chunks):
            w = lay["where"][i]
            final = i == last
            if w == "here":
                if c.kind == "response" and not final and lay["branch"] == "switch":
                    case = "case %s:\n%s\n\treturn" % (q(c.sel), indent(self.respond_code(f, c, ctx, rng), 1))
                    if switch is None:
                        switch = [case]
                    else:
                        switch.append(case)
                    nxt = h.chunks[i + 1]
                    if not (nxt.kind == "response" and i + 1 != last and lay["where"][i + 1] == "here"):
                        out.append("switch %s.Request.Header.Get(\"X-Sel\") {\n%s\n}" % (ctx, "\n".join(switch)))
                        switch = None
                    continue
                out.append(self.chunk_code(f, c, ctx, rng, final, False))
            else:
                out.append(self.call_helper(f, h, c, w, ctx, rng, final))
        return "\n".join(out)

    def call_helper(self, f, h, c, w, ctx, rng, final, depth=0):
        """Moves a chunk to a helper function, returns the code that calls it."""
        name = self.var("helper")
        if w == "pkg":
            c.via = True
            hf = self.file(self.respond, rng.choice(["respond.go", "reply.go"]))
            name = "Reply" + name
        elif w == "file":
            hf = self.file(f.pkg, "helpers.go")
        elif w == "nested":
            hf = self.file(f.pkg, rng.choice(["helpers.go", f.name]))
        else:
            hf = f
        # The context may have any name and position among the arguments of a helper
        hctx = rng.choice(["c", "ctx", "gctx", "r"])
        place = rng.choice(["only", "only", "first", "last", "third", "middle", "grouped", "fourth", "variadic"])
        cs = "%s *%sContext" % (hctx, hf.ref(GIN))
        sig, args = {"only": (cs, ctx), "first": (cs + ", note string", ctx + ', "n"'), "last": ("note string, " + cs, '"n", ' + ctx),
                     "third": ("note string, num int, " + cs, '"n", 1, ' + ctx), "middle": ("note string, " + cs + ", num int", '"n", ' + ctx + ", 2"),
                     "grouped": ("note, more string, " + cs, '"n", "m", ' + ctx), "fourth": ("note string, one, two int, " + cs, '"n", 1, 2, ' + ctx),
                     "variadic": (cs + ", note ...string", ctx + ', "n", "m"')}[place]
        returns = can_stop(c)
        if w == "nested" and depth == 0:
            inner = self.call_helper(hf, h, c, rng.choice(["same", "file"] + (["pkg"] if self.foreign_ok(c, f.pkg) else [])), hctx, rng, final, 1)
            if returns and not final:
                inner = inner.replace("{\n\treturn\n}", "{\n\treturn true\n}")
        else:
            inner = self.chunk_code(hf, c, hctx, rng, final, returns and not final)
        # A shadowing import would be misread as the context
        if place != "only":
            inner = "_ = note\n" + inner
        res = " bool" if returns and not final else ""
        if res:
            inner += "\nreturn false"
        hf.decls.append("func %s(%s)%s {\n%s\n}" % (name, sig, res, indent(inner, 1)))
        call = "%s%s(%s)" % (f.ref(hf.pkg), name, args)
        if not res:
            return call
        return rng.choice(["if %s {\n\treturn\n}" % call, "if %s {\n\treturn\n}" % call, "if stop := %s; stop {\n\treturn\n}" % call])

    def chunk_code(self, f, c, ctx, rng, final, in_helper):
        stop = "return true" if in_helper else "return"
        k = c.kind
        self.ctx, c.traced = ctx, False
        if k == "response":
            code = self.respond_code(f, c, ctx, rng)
            if final:
                return self.last(code, ctx, rng)
            return self.branch(code, "%s.Request.Header.Get(\"X-Sel\")" % ctx, q(c.sel), ctx, stop, rng)
        note = "%sNote(%s.Writer.Header(), %s, %%s)" % (f.ref(FILL), ctx, q("%s:%s" % (k, getattr(c, "name", ""))))
        if k == "header":
            pl, n = self.name(f, c.name, rng)
            return pl + "%s.Header(%s, \"v\")" % (ctx, n)
        if k in ("query", "queryarray", "querymap", "postform", "postformarray", "postformmap"):
            m = {"query": "Query", "queryarray": "QueryArray", "querymap": "QueryMap", "postform": "PostForm", "postformarray": "PostFormArray",
                 "postformmap": "PostFormMap"}[k]
            pl, n = self.name(f, c.name, rng)
            v = self.var()
            form = rng.choice(["var", "get", "arg", "decl"])
            if form == "get":
                return pl + "if %s, ok := %s.Get%s(%s); ok {\n\t%s\n}" % (v, ctx, m, n, note % v)
            if form == "arg":
                e = "%s.%s(%s)" % (ctx, m, n)
                if k in ("query", "postform") and rng.random() < 0.25 and f.pkg is not self.respond and self.o["rich"]:
                    # An argument of a call that gets the context, too
                    g = self.file(self.respond, "trace.go")
                    if not g.decls:
                        g.decls.append("// ReplyTrace answers nothing.\nfunc ReplyTrace(c *%sContext, what string) string { return what }" % g.ref(GIN))
                    c.traced = True
                    return pl + note % ("%sReplyTrace(%s, %s)" % (f.ref(self.respond), ctx, e))
                if k in ("query", "postform"):
                    e = rng.choice([e, e, "string(%s)" % e, "append([]string{}, %s)[0]" % e, "(%s)" % e, "any(%s).(string)" % e])
                return pl + note % e
            if form == "decl":
                return pl + "var %s = %s.%s(%s)\n%s" % (v, ctx, m, n, note % v)
            if k == "query" and rng.random() < 0.3:
                return pl + "%s, _ := %sAtoi(%s.Query(%s))\n_ = %s\n%s" % (v, f.ref(STRCONV), ctx, n, v, note % ("%s.Query(%s)" % (ctx, n)))
            return pl + "%s := %s.%s(%s)\n%s" % (v, ctx, m, n, note % v)
        if k == "getheader":
            pl, n = self.name(f, c.name, rng)
            return pl + note % ("%s.GetHeader(%s)" % (ctx, n))
        if k == "formfile":
            v = self.var()
            pl, n = self.name(f, c.name, rng)
            return pl + "if %s, err := %s.FormFile(%s); err == nil {\n\t%s\n}" % (v, ctx, n, note % (v + ".Filename"))
        if k == "bind":
            v = self.var("in")
            ty = f.ty(("n", c.t))
            decl = rng.choice(["var %s %s", "%s := %s{}", "%s := &%s{}", "%s := new(%s)"])
            ptr = "&" in decl or "new" in decl
            m = {"query": "BindQuery", "header": "BindHeader", "json": "BindJSON", "xml": "BindXML", "yaml": "BindYAML", "auto": "Bind"}[c.what]
            arg = v if ptr else "&" + v
            note = "%sNote(%s.Writer.Header(), %s, %s)" % (f.ref(FILL), ctx, q("bind:" + c.what), "%sShow(%s)" % (f.ref(FILL), v))
            pre = decl % (v, ty) + "\n"
            if not c.should:
                form = rng.choice(["_ = %s.%s(%s)", "if err := %s.%s(%s); err != nil {\n\t" + stop + "\n}"])
                return pre + form % (ctx, m, arg) + "\n" + note
            err = "%s.%s(%d, %sH{\"error\": \"bad input\"})" % (ctx, rng.choice(["JSON", "AbortWithStatusJSON"]), c.errstatus, f.ref(GIN))
            if rng.random() < 0.7:
                return pre + "if err := %s.Should%s(%s); err != nil {\n\t%s\n\t%s\n}\n%s" % (ctx, m, arg, err, stop, note)
            e = self.var("err")
            return pre + "%s := %s.Should%s(%s)\nif %s != nil {\n\t%s\n\t%s\n}\n%s" % (e, ctx, m, arg, e, err, stop, note)
        raise ValueError(k)

    def last(self, code, ctx, rng):
        """The final answer of a handler."""
        r = rng.random()
        if r < 0.7:
            return code
        body = indent(code, 1)
        if r < 0.74 and "\n" not in code and code.startswith(ctx + "."):
            return "defer " + code
        if r < 0.78:
            return "defer func() {\n%s\n}()" % body
        if r < 0.82:
            return "func() {\n%s\n}()" % body
        if r < 0.86:
            return "{\n%s\n}" % body
        if r < 0.9:
            v = self.var("done")
            return "for %s := false; !%s; %s = true {\n%s\n}" % (v, v, v, body)
        if r < 0.93:
            return "switch {\ndefault:\n%s\n}" % body
        if r < 0.96:
            v = self.var("answer")
            return "%s := func() {\n%s\n}\n%s()" % (v, body, v)
        return "select {\ndefault:\n%s\n}" % body

    def branch(self, code, cond, sel, ctx, stop, rng):
        """An answer that is given if the selector says so."""
        r = rng.random()
        body = indent(code, 1)
        if r < 0.5:
            return "if %s == %s {\n%s\n\t%s\n}" % (cond, sel, body, stop)
        if r < 0.55:
            return "if %s == %s {\n\tdefer func() {\n%s\n\t}()\n\t%s\n}" % (cond, sel, indent(body, 1), stop)
        if r < 0.58 and "\n" not in code and code.startswith(ctx + "."):
            return "if %s == %s {\n\tdefer %s\n\t%s\n}" % (cond, sel, code, stop)
        if r < 0.63:
            return "if %s != %s {\n\t_ = 1\n} else {\n%s\n\t%s\n}" % (cond, sel, body, stop)
        if r < 0.68:
            return "if s := %s; s == \"\" {\n\t_ = s\n} else if s == %s {\n%s\n\t%s\n}" % (cond, sel, body, stop)
        if r < 0.73:
            return "for %s == %s {\n%s\n\t%s\n}" % (cond, sel, body, stop)
        if r < 0.78:
            return "switch s := %s; {\ncase s == %s:\n%s\n\t%s\n}" % (cond, sel, body, stop)
        if r < 0.83:
            return "switch %s {\ncase \"none\", %s:\n%s\n\t%s\ndefault:\n}" % (cond, sel, body, stop)
        if r < 0.88:
            return "if func() bool {\n\tif %s == %s {\n%s\n\t\treturn true\n\t}\n\treturn false\n}() {\n\t%s\n}" % (cond, sel, indent(body, 1), stop)
        if r < 0.93:
            v = self.var("answer")
            return "%s := func() {\n%s\n}\nif %s == %s {\n\t%s()\n\t%s\n}" % (v, body, cond, sel, v, stop)
        if r < 0.97:
            return "{\n\tif %s == %s {\n%s\n\t\t%s\n\t}\n}" % (cond, sel, indent(body, 1), stop)
        return "select {\ndefault:\n\tif %s == %s {\n%s\n\t\t%s\n\t}\n}" % (cond, sel, indent(body, 1), stop)

    def name(self, f, n, rng):
        """A string argument in one of the forms that have a value: prelude, expression."""
        if rng.random() < 0.5:
            return "", q(n)
        fm = rng.choice(["raw", "const", "short", "package", "models", "var", "typed", "multi", "multi2", "second", "decoyed", "concat", "paren", "named",
                         "shadow", "pvar", "pvars", "pgroup", "pconcat", "mvar", "mvars", "malias", "mfield", "late", "copied"])
        v = self.var("name")
        if fm.startswith("m") and fm not in ("multi", "multi2") and f.pkg is self.models:
            fm = "pvar"
        if fm == "raw":
            return "", "`%s`" % n
        if fm == "paren":
            return "", "(%s)" % q(n)
        if fm == "concat":
            k = rng.randint(0, len(n))
            return "", "%s+%s" % (q(n[:k]), q(n[k:]))
        if fm == "const":
            return "const %s = %s\n" % (v, q(n)), v
        if fm == "typed":
            return "const %s string = %s\n" % (v, q(n)), v
        if fm == "short":
            return "%s := %s\n" % (v, q(n)), v
        if fm == "var":
            return rng.choice(["var %s = %s\n", "var %s string = %s\n"]) % (v, q(n)), v
        if fm == "multi":
            return "%s, %sb := %s, %s\n_ = %sb\n" % (v, v, q(n), q("decoy-" + v), v), v
        if fm == "multi2":
            return "%sb, %s := %s, %s\n_ = %sb\n" % (v, v, q("decoy-" + v), q(n), v), v
        if fm == "second":
            return "var %sb, %s = %s, %s\n_ = %sb\n" % (v, v, q("decoy-" + v), q(n), v), v
        if fm == "copied":
            return "%sb := %s\n%s := %sb\n" % (v, q(n), v, v), v
        if fm == "shadow":
            f.decls.append("const %s = %s" % (v, q("decoy-" + v)))
            return rng.choice(["const %s = %s\n", "%s := %s\n", "var %s = %s\n"]) % (v, q(n)), v
        if fm == "named":
            f.decls.append("type kind%s string\n\nconst %s kind%s = %s" % (v, v, v, q(n)))
            return "", "string(%s)" % v
        if fm == "decoyed":
            # A field, a method and a parameter of the same name
            f.decls.append("type decoy%s struct{ %s string }\n\nfunc (d decoy%s) get(%s string) string { return d.%s + %s }" % (v, v, v, v, v, v))
            f.decls.append("const %s = %s" % (v, q(n)))
            return "", v
        if fm == "package":
            f.decls.append("const %s = %s" % (v, q(n)))
            return "", v
        if fm == "pconcat":
            k = rng.randint(0, len(n))
            f.decls.append("const %sa = %s\n\nconst %s = %sa + %s" % (v, q(n[:k]), v, v, q(n[k:])))
            return "", v
        if fm == "pvar":
            f.decls.append("var %s = %s" % (v, q(n)))
            return "", v
        if fm == "pvars":
            f.decls.append("var %sa, %s = %s, %s" % (v, v, q("decoy-" + v), q(n)))
            return "", v
        if fm == "pgroup":
            w = rng.choice(["const", "var"])
            f.decls.append("%s (\n\t%sa = %s\n\t%s = %s\n)" % (w, v, q("decoy-" + v), v, q(n)))
            return "", v
        if fm == "late":
            f.decls.append("var %s = %sz" % (v, v))
            f.decls.append(rng.choice(["var %sz = %s", "const %sz = %s"]) % (v, q(n)))
            return "", v
        g, V = self.file(self.models, "consts.go"), v.title()
        if fm == "mvar":
            g.decls.append("// %s is a name.\nvar %s = %s" % (V, V, q(n)))
        elif fm == "mvars":
            g.decls.append("var %sA, %s = %s, %s" % (V, V, q("decoy-" + v), q(n)))
        elif fm == "malias":
            g.decls.append("var %s = %s\n\nconst %s = %s" % (V, v, v, q(n)))
            f.decls.append("const %s = %s" % (v, q("decoy-" + v)))
        elif fm == "mfield":
            g.decls.append("type Decoy%s struct{ %s string }\n\nfunc (d Decoy%s) Get(%s string) string { return d.%s + %s }" % (V, V, V, V, V, V))
            g.decls.append("const %s = %s" % (V, q(n)))
        else:
            g.decls.append("// %s is a name.\nconst %s = %s" % (V, V, q(n)))
        return "", f.ref(self.models) + V

    def status(self, f, st, rng):
        r = rng.random()
        if r < 0.4:
            return "", "%sStatus%s" % (f.ref(NETHTTP), HTTP[st])
        if r < 0.65:
            return "", str(st)
        v = self.var("code")
        http = f.ref(NETHTTP) + "Status" + HTTP[st]
        fm = rng.choice(["const", "short", "package", "models", "hex", "sum", "iota", "typed", "pvars", "paren", "psum", "var", "multi", "phttp"])
        if fm == "models" and f.pkg is self.models:
            fm = "package"
        if fm == "const":
            return "const %s = %s\n" % (v, st), v
        if fm == "short":
            return "%s := %s\n" % (v, rng.choice([str(st), http])), v
        if fm == "var":
            return "var %s %s= %s\n" % (v, rng.choice(["", "int "]), rng.choice([str(st), http])), v
        if fm == "multi":
            return "%sb, %s := 418, %s\n_ = %sb\n" % (v, v, rng.choice([str(st), http]), v), v
        if fm == "paren":
            return "", "(%s)" % rng.choice([str(st), http])
        if fm == "hex":
            return "", rng.choice(["0x%X" % st, "%d_%02d" % (st // 100, st % 100), "0o%o" % st])
        if fm == "sum":
            return "", rng.choice(["%sStatusOK + %d" % (f.ref(NETHTTP), st - 200), "%s + 0" % http, "2*100 + %d" % (st - 200)])
        if fm == "phttp":
            f.decls.append("%s %s = %s" % (rng.choice(["const", "var"]), v, http))
            return "", v
        if fm == "package":
            f.decls.append("const %s = %s" % (v, st))
            return "", v
        if fm == "psum":
            f.decls.append("const %sa = %d\n\nconst %s = %sa + %d" % (v, st // 100 * 100, v, v, st % 100))
            return "", v
        if fm == "iota":
            f.decls.append("const (\n\t%sa = iota + %d\n\t%s\n\t%sc\n)" % (v, st - 1, v, v))
            return "", v
        if fm == "typed":
            f.decls.append("type kind%s int\n\nconst %s kind%s = %d" % (v, v, v, st))
            return "", "int(%s)" % v
        if fm == "pvars":
            f.decls.append("var %sa, %s = 418, %d" % (v, v, st))
            return "", v
        g = self.file(self.models, "consts.go")
        g.decls.append("// %s is a status.\n%s %s = %s" % (v.title(), rng.choice(["const", "var"]), v.title(), st))
        return "", f.ref(self.models) + v.title()

    def respond_code(self, f, c, ctx, rng):
        self.ctx = ctx
        pl, st = self.status(f, c.status, rng)
        if c.call in ("Status", "AbortWithStatus"):
            return pl + "%s.%s(%s)" % (ctx, c.call, st)
        if c.call == "AbortWithError":
            v = rng.choice(["%s.AbortWithError(%s, %sNew(\"no\"))", "_ = %s.AbortWithError(%s, %sNew(\"no\"))"]) % (ctx, st, f.ref(ERRORS))
            return pl + v
        if c.call == "String":
            return pl + rng.choice(["%s.String(%s, \"pong\")" % (ctx, st), "%s.String(%s, \"n=%%d\", 3)" % (ctx, st)])
        if c.call == "Data":
            pl2, n = self.name(f, c.ct, rng)
            return pl + pl2 + "%s.Data(%s, %s, []byte(\"data\"))" % (ctx, st, n)
        pl2, e, *post = self.payload(f, c.ft, rng)
        return pl + pl2 + "%s.%s(%s, %s)" % (ctx, c.call, st, e) + "".join("\n" + x for x in post)

    def payload(self, f, ft, rng):
        ty, v, fl = f.ty(ft), self.var(), f.ref(FILL)
        if ft == ("n", GINH):
            return rng.choice([("", "%s{\"ok\": true}" % ty), ("%s := %s{\"n\": 1}\n" % (v, ty), v)])
        iface = ft[0] == "any" or (ft[0] == "n" and ft[1].kind == "iface")
        forms = ["var", "short", "func", "field", "method"] + ([] if iface else ["ptr", "addr", "index", "mapidx", "func2", "assert", "paren", "global", "deref", "rng"])
        k = strip(ft)[0]
        if k in ("s", "m") or (k == "n" and ft[1].kind in ("struct", "slice", "map")):
            forms += ["lit"] * 3
        if k == "s":
            forms += ["make"]
        if k == "n" and ft[1].kind in ("basic", "enum"):
            forms += ["conv"]
        if k == "b" and ft[1] == "string":
            forms += ["conv"]
        if not iface:
            forms += ["generic", "genload", "chan", "iife", "closure", "tswitch", "range", "rangemap", "assertok", "comma", "builtin", "lookalike", "second", "globals",
                      "ptrptr", "fnfield", "chain", "callidx", "slicerange", "named", "fntype", "iface", "embedded", "shadow", "models"]
        if k == "b" and ft[1] in ("string", "int", "float64", "bool"):
            forms += ["constant"] * 8
        fm = rng.choice(forms)
        if iface:
            new = "%sNew[%s]()" % (fl, ty)
        new = "%sNew[%s]()" % (fl, ty)
        if fm == "var":
            return "var %s %s\n%sIn(&%s)\n" % (v, ty, fl, v), v
        if fm == "short":
            return "%s := %s\n" % (v, new), v
        if fm == "ptr":
            return "%s := new(%s)\n%sIn(%s)\n" % (v, ty, fl, v), v
        if fm == "deref":
            return "%s := new(%s)\n%sIn(%s)\n" % (v, ty, fl, v), "*" + v
        if fm == "addr":
            return "var %s %s\n%sIn(&%s)\n" % (v, ty, fl, v), "&" + v
        if fm == "paren":
            return "%s := %s\n" % (v, new), "(%s)" % v
        if fm == "lookalike":
            # A variable that is called almost like the context
            v = rng.choice([self.ctx.upper(), self.ctx.upper(), self.ctx + "x", "_" + self.ctx, self.ctx.title() if len(self.ctx) > 1 else self.ctx.upper()])
            return "{\n%s := %s\n" % (v, new), v, "}"
        if fm == "index":
            return "%s := []%s{%s}\n" % (v, ty, new), v + "[0]"
        if fm == "mapidx":
            return "%s := map[string]%s{\"k\": %s}\n" % (v, ty, new), v + "[\"k\"]"
        if fm == "assert":
            return "var %s any = %s\n" % (v, new), "%s.(%s)" % (v, ty)
        if fm == "rng":
            return "%s := []%s{%s}\n%sx := %s[0]\n" % (v, ty, new, v, v), v + "x"
        if fm == "func":
            f.decls.append("func make%s() %s { return %s }" % (v, ty, new))
            return "", "make%s()" % v
        if fm == "func2":
            f.decls.append("func load%s(id string) (%s, error) { return %s, nil }" % (v, ty, new))
            return "%s, err := load%s(\"id\")\n_ = err\n" % (v, v), v
        if fm == "field":
            f.decls.append("type hold%s struct{ Val %s }" % (v, ty))
            return "var %s hold%s\n%sIn(&%s)\n" % (v, v, fl, v), v + ".Val"
        if fm == "method":
            f.decls.append("type store%s struct{}\n\nfunc (*store%s) Load%s() %s { return %s }" % (v, v, v, ty, new))
            return "%s := &store%s{}\n" % (v, v), "%s.Load%s()" % (v, v)
        if fm == "global":
            f.decls.append("var global%s = %s" % (v, new))
            return "", "global" + v
        if fm == "lit":
            return "", rng.choice(["%s{}", "&%s{}"]) % ty
        if fm == "make":
            return "%s := make(%s, 0)\n" % (v, ty), v
        if fm == "conv":
            return "%s := %s\n" % (v, new), "%s(%s)" % (ty, v)
        if fm == "generic":
            f.decls.append("func same%s[X any](x X) X { return x }" % v)
            return "", "same%s%s(%s)" % (v, rng.choice(["", "[%s]" % ty]), new)
        if fm == "genload":
            f.decls.append("func load%s[X any](id string) (x X, err error) {\n\t%sIn(&x)\n\treturn\n}" % (v, fl))
            return "%s, err := load%s[%s](\"id\")\n_ = err\n" % (v, v, ty), v
        if fm == "chan":
            return "%s := make(chan %s, 1)\n%s <- %s\n" % (v, ty, v, new), "<-" + v
        if fm == "iife":
            return "", "func() %s { return %s }()" % (ty, new)
        if fm == "closure":
            return "%s := func() %s { return %s }\n" % (v, ty, new), v + "()"
        if fm == "builtin":
            b = rng.choice(["make", "len", "cap", "append", "copy", "max", "min", "complex", "delete", "print"])
            return "{\n%s := func() %s { return %s }\n" % (b, ty, new), b + "()", "}"
        if fm == "tswitch":
            return "switch %s := any(%s).(type) {\ncase error:\n\t_ = %s\ncase %s:\n" % (v, new, v, ty), v, "}"
        if fm == "range":
            return "for _, %s := range []%s{%s} {\n" % (v, ty, new), v, "}"
        if fm == "slicerange":
            return "for i := range [1]%s{%s} {\n%s := []%s{%s}\n" % (ty, new, v, ty, new), v + "[i]", "}"
        if fm == "rangemap":
            return "for _, %s := range map[string]%s{\"k\": %s} {\n" % (v, ty, new), v, "}"
        if fm == "assertok":
            return "if %s, ok := any(%s).(%s); ok {\n" % (v, new, ty), v, "}"
        if fm == "comma":
            return "%s, ok := map[string]%s{\"k\": %s}[\"k\"]\n_ = ok\n" % (v, ty, new), v
        if fm == "second":
            return rng.choice(["%sb, %s := 1, %s\n_ = %sb\n", "var %sb, %s = \"x\", %s\n_ = %sb\n"]) % (v, v, new, v), v
        if fm == "globals":
            f.decls.append("var global%sa, global%s = 1.5, %s" % (v, v, new))
            return "", "global" + v
        if fm == "shadow":
            f.decls.append("var %s = struct{ No bool }{}" % v)
            return "%s := %s\n" % (v, new), v
        if fm == "ptrptr":
            return "%sp := new(%s)\n%sIn(%sp)\n%s := &%sp\n" % (v, ty, fl, v, v, v), "**" + v
        if fm == "fnfield":
            f.decls.append("type fns%s struct{ Load func() %s }" % (v, ty))
            return "%s := fns%s{func() %s { return %s }}\n" % (v, v, ty, new), v + ".Load()"
        if fm == "fntype":
            f.decls.append("type fn%s func(n int) %s" % (v, ty))
            return "var %s fn%s = func(int) %s { return %s }\n" % (v, v, ty, new), v + "(1)"
        if fm == "chain":
            f.decls.append("type repo%s struct{ rows []%s }\n\nfunc (r repo%s) Rows() []%s { return r.rows }\n\n"
                           "type unit%s struct{ repo repo%s }\n\nfunc (u *unit%s) Repo() repo%s { return u.repo }" % (v, ty, v, ty, v, v, v, v))
            return "%s := &unit%s{repo%s{[]%s{%s}}}\n" % (v, v, v, ty, new), v + rng.choice([".Repo().Rows()[0]", ".repo.rows[0]", ".Repo().rows[0]"])
        if fm == "callidx":
            f.decls.append("func rows%s() map[string][]%s { return map[string][]%s{\"k\": {%s}} }" % (v, ty, ty, new))
            return "", "rows%s()[\"k\"][0]" % v
        if fm == "named":
            f.decls.append("func make%s() (out %s, err error) {\n\tout = %s\n\treturn\n}" % (v, ty, new))
            return "%s, _ := make%s()\n" % (v, v), v
        if fm == "iface":
            f.decls.append("type Loader%s interface{ Load() %s }\n\ntype load%s int\n\nfunc (load%s) Load() %s { return %s }" % (v, ty, v, v, ty, new))
            return "var %s Loader%s = load%s(1)\n" % (v, v, v), v + ".Load()"
        if fm == "embedded":
            f.decls.append("type inner%s struct{ Val %s }\n\nfunc (i inner%s) Get() %s { return i.Val }\n\ntype outer%s struct{ *inner%s }" % (v, ty, v, ty, v, v))
            return "%s := outer%s{&inner%s{%s}}\n" % (v, v, v, new), v + rng.choice([".Val", ".Get()", ".inner%s.Val" % v])
        if fm == "models":
            if f.pkg is self.models or not all(t.pkg is self.models or t.kind == "special" for t in named(ft)):
                return "", new
            g = self.file(self.models, "values.go")
            gt = g.ty(ft)
            g.decls.append("// Value%s is a value.\nvar Value%s = %sNew[%s]()" % (v, v, g.ref(FILL), gt))
            return "", f.ref(self.models) + "Value" + v
        if fm == "constant":
            lit = {"string": ['"s"', "`raw`", '"a" + "b"', 'string(rune(65))'], "int": ["42", "-7", "0x1F", "6 * 7", "len([]int{1})", "1 << 3"],
                   "float64": ["1.5", "2.0", "-1e3", "3 / 2.0", "float64(3)"], "bool": ["true", "false", "!true", "1 == 2", "len(\"a\") > 0 || false"]}[ft[1]]
            e, o = rng.choice(lit), rng.choice(["inline", "const", "var", "package", "pvar", "typed", "paren"])
            if o == "inline":
                return "", e
            if o == "paren":
                return "", "(%s)" % e
            if o == "package" and "(" not in e:
                f.decls.append("const val%s = %s" % (v, e))
                return "", "val" + v
            if o == "typed" and "(" not in e:
                return "const %s %s = %s\n" % (v, ft[1], e), v
            if o == "const" and "(" not in e:
                return "const %s = %s\n" % (v, e), v
            if o == "pvar":
                f.decls.append("var val%s = %s" % (v, e))
                return "", "val" + v
            return "%s := %s\n" % (v, e), v
        raise ValueError(fm)


def q(s):
    import json
    return json.dumps(s, ensure_ascii=False)


def indent(code, n):
    """Indents code, but not the inside of raw strings (there are no multi-line ones)."""
    return "\n".join(("\t" * n + l) if l else l for l in code.split("\n"))


def can_stop(c):
    return c.kind == "response" or c.kind == "bind"


def expected_ok(t, binding, seen=None):
    from oracle import expected_props
    return expected_props(t, binding) is not None


def unique(t):
    """Whether the bindings of a struct differ."""
    for f in t.fields:
        if not f.exported or not f.tags:
            continue
        if len({f.tags.get(b) for b in f.tags} ) > 1 or len({tuple(f.opts.get(b, [])) for b in f.tags}) > 1:
            return True
    return False


def binding_ok(t, b):
    """Whether a struct and all it consists of have names in a binding, and no component is shared by bindings that differ below it."""
    if not expected_ok(t, b):
        return False
    for x in closure([t]):
        if x.kind == "struct" and not expected_ok(x, b):
            return False
        if (x.kind != "struct" or not unique(x)) and any(y.kind == "struct" and unique(y) for y in closure([x])):
            return False
    return True


# -- requests
def requests(h):
    """Requests that take every branch of a handler with every input set: (id, selector chunk or None, request, expectations)."""
    import urllib.parse
    out = []
    tok = [0]

    def token(d):
        tok[0] += 1
        d = d if d[0] != "s" else d[1]
        if d[0] == "b" and d[1] == "string":
            return "tk%s" % tok[0]
        if d[0] == "b" and d[1] == "bool":
            return "true"
        return str(30 + tok[0] % 90)

    headers, query, expect = {}, [], []
    for (n, where), (d, _) in sorted(h.params().items()):
        if where == "path":
            continue
        v = token(d)
        expect.append((where, n, v))
        if where == "header":
            headers[n] = v
        elif d[0] == "m":
            query.append("%s[k]=%s" % (n, v))
        else:
            query.append("%s=%s" % (n, v))
    path = h.path
    for n, req in sorted(path_params(h.path), key=lambda x: -len(x[0])):
        path = path.replace((":" if req else "*") + n, "pv")
    url = path + ("?" + "&".join(query) if query else "")
    body = ""
    from oracle import expected_props
    for c in h.chunks:
        if c.kind == "bind" and c.what in ("json", "xml", "yaml", "auto"):
            w = "json" if c.what == "auto" else c.what
            if getattr(c.t, "input", False):
                ps = expected_props(c.t, w) or {}
                vals = []
                for n, d in sorted(ps.items()):
                    v = token(d)
                    expect.append(("body " + w, n, v))
                    vals.append((n, d, v))
                if w == "xml":
                    body = "<%s>%s</%s>" % (c.t.name, "".join("<%s>%s</%s>" % (n, v, n) for n, d, v in vals), c.t.name)
                else:
                    import json
                    lit = lambda d, v: json.dumps(v) if d == ("b", "string") else v
                    body = "{%s}" % ", ".join("%s: %s" % (json.dumps(n), "[%s]" % lit(d[1], v) if d[0] == "s" else lit(d, v)) for n, d, v in vals)
            else:
                body = "{}"
            headers["Content-Type"] = "application/" + w
        elif c.kind.startswith("postform"):
            v = token(("b", "string"))
            headers["Content-Type"] = "application/x-www-form-urlencoded"
            body += ("&" if body else "") + (c.name + "[k]" if c.kind == "postformmap" else c.name) + "=" + v
            expect.append(("form", c.name, v))
        elif c.kind == "formfile":
            v = token(("b", "string"))
            headers["Content-Type"] = "multipart/form-data; boundary=BB"
            body = body.replace("--BB--\r\n", "") + '--BB\r\nContent-Disposition: form-data; name="%s"; filename="%s"\r\n\r\nx\r\n--BB--\r\n' % (c.name, v)
            expect.append(("file", c.name, v))
    # What is answered in protocol buffers would have to be a message
    sels = [c for c in h.selectors() if c.call != "ProtoBuf"]
    for c in sels:
        hd = dict(headers)
        hd["X-Sel"] = c.sel
        out.append(("%s/%s" % (h.key, c.sel), c, dict(id="%s/%s" % (h.key, c.sel), method=h.method, url=url, headers=hd, body=body), expect))
    return out
