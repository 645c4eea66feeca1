"""Random type universes spread over packages."""
from model import *

WORDS = ["ID", "Name", "Title", "Status", "Count", "Total", "Owner", "Tags", "Items", "Price", "Email", "Phone", "Score", "Notes",
         "Color", "Width", "Height", "Active", "Parent", "Children", "Meta", "Labels", "Kind", "Level", "Region", "Code", "Ref",
         "URL", "Body", "Amount", "Currency", "City", "Lat", "Lng", "Start", "Ends"]
TYPENAMES = ["User", "Order", "Item", "Address", "Product", "Invoice", "Payment", "Ticket", "Event", "Venue", "Seat", "Report",
             "Comment", "Review", "Account", "Profile", "Session", "Device", "Message", "Channel", "Widget", "Task", "Project",
             "Team", "Member", "Plan", "Coupon", "Shipment", "Parcel", "Route", "Vehicle", "Driver", "Batch", "Record"]


def snake(s):
    out = ""
    for i, c in enumerate(s):
        if c.isupper() and i and not s[i - 1].isupper():
            out += "_"
        out += c.lower()
    return out


def camel(s):
    return s[:1].lower() + s[1:] if not s.isupper() else s.lower()


def kebab(s):
    return snake(s).replace("_", "-")


def doc_words(rng, name):
    r = rng.random()
    if r < 0.35:
        return ""
    if r < 0.6:
        return "%s is kept by the %s service." % (name, rng.choice(["billing", "search", "user", "audit"]))
    n = rng.randint(1, 99)
    return rng.choice([
        "%s spans\nseveral lines, with \"quotes\" and <angles>." % name,
        "%s ends here.\n\nAnd has a second paragraph: %d%%." % (name, n),
        "%s is described at https://example.com/a//b?x=1&y=2#frag-%d." % (name, n),
        "%s has code:\n\n\tx := %d // not a comment\n\ty := `x`\n\nEnd." % (name, n),
        "%s – “ünïcödé” ✓ 日本語 \\n \\t $1 {x} 'y' %%s." % name,
        "%s is old.\n\nDeprecated: use something else. See RFC %d." % (name, n),
        "a comment that does not start with its name",
        "%s lists:\n  - one: %d\n  - two # three\n  * four" % (name, n),
        "# %s\n\nHas a heading: yes, [a link].\n\n[a link]: https://example.com/%d" % (name, n),
        "%s" % name, "@%s id: %d" % (name, n), "TODO(me): %s // later" % name,
        "%s.\n%s" % (name, "\n".join("Line %d of a long comment, which goes on." % k for k in range(12)))])


class Types:
    def __init__(self, rng, pkgs, per_pkg=8, opts=None):
        self.rng, self.pkgs, self.all, self.n = rng, pkgs, [], 0
        self.groups = {}
        self.bases = []
        o = dict(embed=True, special=True, tagmodes=["none", "json", "json", "json", "all_same", "all_diff", "partial", "mixed", "perfield", "perfield"], rec=True, uuid=pkgs[:1])
        o.update(opts or {})
        self.o = o
        for i, p in enumerate(pkgs):
            self.scope = [t for t in self.all if t.pkg in pkgs[:i]]
            self.gen_pkg(p, per_pkg)

    def uid(self):
        self.n += 1
        return self.n

    def name(self, p):
        if getattr(p, "forced", None):
            n, p.forced = p.forced, None
            return n
        used = {t.name for t in self.all if t.pkg is p}
        for _ in range(50):
            n = self.rng.choice(TYPENAMES)
            if self.rng.random() < 0.3:
                n += self.rng.choice(["Summary", "Detail", "Input", "View", "Ref", "V2"])
            if n not in used:
                return n
        return "Type%d" % self.uid()

    def doc(self, name):
        return doc_words(self.rng, name)

    def add(self, t):
        rng = self.rng
        t.second = rng.random() < 0.25
        t.docstyle = rng.choice(DOCSTYLES)
        t.trailing = rng.random() < 0.1
        if t.grouped:
            # A new group, or the last one of the file
            g = self.groups.get((t.pkg, t.second))
            if g is None or rng.random() < 0.4:
                g = dict(doc=rng.choice(["", "Types of a group.", "The group\nhas a comment, see https://example.com//group."]), style=rng.choice(DOCSTYLES))
                self.groups[(t.pkg, t.second)] = g
            t.group = g
            t.owndoc = t.doc
            # A comment of directives only is a comment, without any text
            t.doc = t.doc or (g["doc"] if t.docstyle != "directive" else "")
        self.all.append(t)
        self.scope.append(t)
        return t

    def gen_pkg(self, p, n):
        rng = self.rng
        for name, kind in getattr(p, "names", []):
            p.forced = name
            getattr(self, "gen_" + kind)(p)
        if hasattr(p, "names"):
            return
        kinds = self.o.get("kinds") or ["enum", "struct", "struct", "basic", "struct", "slice", "struct", "map", "struct", "array", "struct", "iface"]
        if self.o["embed"]:
            self.add(self.base(p))
        for i in range(n):
            k = kinds[i % len(kinds)] if rng.random() < 0.8 else "struct"
            getattr(self, "gen_" + k)(p)

    def base(self, p):
        u = self.uid()
        name = ("base%d" if self.rng.random() < 0.35 else "Base%d") % u
        t = T(p, name, "struct", tagmode="json", doc=self.doc(name))
        for i in range(self.rng.randint(1, 3)):
            w = self.rng.choice(WORDS) + "B%dx%d" % (u, i)
            t.fields.append(Field(w, ("b", self.rng.choice(BASICS)), {"json": snake(w)} if self.rng.random() < 0.7 else {}))
        self.bases.append(t)
        return t

    def gen_enum(self, p):
        n = self.name(p)
        base = self.rng.choice(["string", "string", "string", "int", "int64", "uint8", "uint", "float64", "int32", "int64", "uint64"])
        consts = []
        for i in range(self.rng.randint(2, 4)):
            v = {"string": '"%s"' % self.rng.choice(["on", "off %d", "Über%d", "a-b%d", "it's %d", "q\\\"%d", "x%d"]).replace("%d", str(i)) if True else ""}.get(base)
            if base == "string":
                v = '"v%d%s"' % (i, self.rng.choice(["", " spaced", "-dash", "'s", "\\\"q\\\"", "é", "\\\\back", "<tag>"]))
            elif base == "float64":
                v = "%d.%d" % (i + 1, self.rng.randint(1, 9))
            else:
                v = str(i * self.rng.randint(1, 9) + i + (0 if i else self.rng.randint(0, 1)))
            consts.append(("%s%s" % (n, "ABCDEFG"[i]), v))
        vals, ded = set(), []
        for c in consts:
            if c[1] not in vals:
                vals.add(c[1])
                ded.append(c)
        big = base in ("int", "int64", "uint", "uint64", "int32", "float64") and self.rng.random() < 0.4
        if big:
            # Numbers that some encodings write otherwise, or lose a part of
            pool = {"int32": ["1000000", "2147483647", "100000"], "float64": ["1e21", "1e-7", "1000000.0", "123456789.125", "0.1"]}.get(
                base, ["1000000", "100000000000000000", "9007199254740993", "9223372036854775807"] + (["18446744073709551615"] if base[0] == "u" else []))
            self.rng.shuffle(pool)
            ded = [(c, pool[i] if i < len(pool) else v) for i, (c, v) in enumerate(ded)]
            ded = [x for i, x in enumerate(ded) if x[1] not in [y[1] for y in ded[:i]]]
        style, rng = "plain", self.rng
        if rng.random() < 0.6:
            style = rng.choice(["separate", "conv", "multi", "dup", "expr", "mixed", "iota", "iota", "negative", "names", "parenthesised", "other"])
            if style in ("iota", "negative") and (big or base in ("string", "float64") or style == "negative" and base.startswith("u")):
                style = "separate"
            if style == "iota":
                start = rng.choice([0, 1, 10])
                ded = [("%s%s" % (n, "ABCDEFG"[i]), str(start + i)) for i in range(len(ded))]
            if style == "negative":
                ded = [(c, str(-1 - int(v)) if i != 1 else v) for i, (c, v) in enumerate(ded)]
        t = self.add(T(p, n, "enum", under=("b", base), consts=ded, doc=self.doc(n), grouped=self.rng.random() < 0.2))
        t.style = style
        t.away = rng.choice([0, 1, 1, 2])
        return t

    def gen_basic(self, p):
        n = self.name(p)
        t = self.add(T(p, n, "basic", under=("b", self.rng.choice(BASICS)), doc=self.doc(n)))
        if t.under[1] in ("int", "int64", "uint", "uint8", "int32") and self.rng.random() < 0.5:
            t.style = "flags"
        return t

    def gen_slice(self, p):
        n = self.name(p)
        return self.add(T(p, n, "slice", under=("s", self.elem(p)), doc=self.doc(n)))

    def gen_map(self, p):
        n = self.name(p)
        return self.add(T(p, n, "map", under=("m", self.key(p), self.elem(p)), doc=self.doc(n)))

    def gen_array(self, p):
        n = self.name(p)
        return self.add(T(p, n, "array", under=("a", self.rng.randint(1, 5), self.elem(p)), doc=self.doc(n)))

    def gen_iface(self, p):
        n = self.name(p)
        return self.add(T(p, n, "iface", doc=self.doc(n)))

    def visible(self, p):
        return [t for t in self.scope if t.pkg is p or t.name[:1].isupper()]

    def key(self, p):
        r = self.rng.random()
        if r < 0.6:
            return ("b", "string")
        c = [t for t in self.visible(p) if t.kind in ("enum", "basic") and t.under[1] in ("string", "int", "int64")]
        if r < 0.75 and c:
            return ("n", self.rng.choice(c))
        return ("b", self.rng.choice(["string", "int", "int64", "uint8"]))

    def elem(self, p, me=None):
        """An element: something whose type fits in one name."""
        rng = self.rng
        r = rng.random()
        vis = [t for t in self.visible(p) if not t.name.startswith("base")]
        if r < 0.4 or not vis:
            # []uint8 is a string in JSON, so element types stay away from it
            return ("b", rng.choice([b for b in BASICS if b != "uint8"]))
        if r < 0.46:
            return ("any",)
        if r < 0.5 and self.o["special"]:
            return ("n", rng.choice([TIME, DURATION] + ([UUID] if p in self.o["uuid"] else [])))
        t = rng.choice(vis)
        while t.kind in ("enum", "basic") and t.under[1] == "uint8":
            t = rng.choice(vis)
            if rng.random() < 0.05:
                return ("b", "string")
        return ("p", ("n", t)) if rng.random() < 0.3 and t.kind != "iface" else ("n", t)

    def ft(self, p, me=None):
        rng = self.rng
        r = rng.random()
        vis = [t for t in self.visible(p) if not t.name.startswith("base")]
        if r < 0.34:
            return ("b", rng.choice(BASICS))
        if r < 0.42:
            return ("p", ("b", rng.choice(BASICS)))
        if r < 0.5 and me is not None and self.o["rec"]:
            return rng.choice([("p", ("n", me)), ("s", ("n", me)), ("s", ("p", ("n", me))), ("m", ("b", "string"), ("n", me))])
        if r < 0.58:
            return ("s", self.elem(p))
        if r < 0.63:
            return ("m", self.key(p), self.elem(p))
        if r < 0.67:
            return ("a", rng.randint(1, 4), self.elem(p))
        if r < 0.71:
            return ("any",) if rng.random() < 0.7 else ("any", "interface{}")
        if r < 0.76 and self.o["special"]:
            t = rng.choice([TIME, TIME, DURATION] + ([UUID, UUID] if p in self.o["uuid"] else []))
            return ("p", ("n", t)) if rng.random() < 0.3 else ("n", t)
        if not vis:
            return ("b", "string")
        t = rng.choice(vis)
        return ("p", ("n", t)) if rng.random() < 0.4 and t.kind != "iface" else ("n", t)

    def tags(self, mode, w, i):
        rng = self.rng
        fmt = rng.choice([snake, camel, camel, kebab])
        n = fmt(w)
        if mode == "none":
            return {}, {}
        if mode == "json":
            return {"json": n}, {"json": ["omitempty"]} if rng.random() < 0.3 else {}
        if mode == "mixed":
            r = rng.random()
            if r < 0.3:
                return {}, {}
            if r < 0.4:
                return {"json": ""}, {"json": ["omitempty"]}
            if r < 0.5:
                return {"json": "-" if i or rng.random() < 0.5 else "-,"}, {}
            return {"json": n}, {}
        if mode == "all_same":
            return {b: n for b in ("json", "xml", "yaml", "form")}, {}
        if mode == "all_diff":
            return {"json": n, "xml": camel(w) + "X", "yaml": snake(w) + "_y", "form": kebab(w) + "-f", "header": "X-" + w}, {}
        if mode == "perfield":
            # Some fields have the same name everywhere, others don't
            mode = rng.choice(["all_same", "all_diff"])
            return self.tags(mode, w, i)
        if mode == "partial":
            return ({"json": n, "form": n} if rng.random() < 0.5 and i else {"json": n}), {}
        raise ValueError(mode)

    def gen_struct(self, p):
        rng = self.rng
        n = self.name(p)
        mode = rng.choice(self.o["tagmodes"])
        t = T(p, n, "struct", doc=self.doc(n), tagmode=mode, grouped=rng.random() < 0.15)
        u = self.uid()
        ws = rng.sample(WORDS, rng.randint(1, 6))
        if self.o["embed"] and rng.random() < 0.35:
            bases = [b for b in self.bases if b.pkg is p or (b in self.scope and b.name[:1].isupper())]
            for b in rng.sample(bases, min(len(bases), rng.randint(1, 2))):
                r = rng.random()
                exported = b.name[:1].isupper()
                ftb = ("p", ("n", b)) if r < 0.3 and exported else ("n", b)
                tags = {}
                if exported and rng.random() < 0.25:
                    tags = {"json": rng.choice(["-", "nested%d%s" % (u, b.name.lower())])}
                t.fields.append(Field(b.name, ftb, tags, embedded=True))
        i = 0
        for w in ws:
            tg, op = self.tags(mode, w, i)
            i += 1
            t.fields.append(Field(w, self.ft(p, t), tg, opts=op, doc="%s of it." % w if rng.random() < 0.2 else "",
                                  binding="required" if rng.random() < 0.1 else ""))
        tg, op = self.tags(mode if mode != "mixed" else "json", "Mk%d" % u, 0)
        t.fields.append(Field("Mk%d" % u, ("b", "string"), tg, opts=op))
        if rng.random() < 0.25:
            t.fields.append(Field("hidden%d" % u, ("b", "int")))
        rng.shuffle(t.fields)
        return self.add(t)


def aliases_for(pkgs):
    """Import names that tell packages with the same name apart."""
    seen, out = {}, {}
    for p in pkgs:
        if p.dir == "" and p.path == "main":
            continue
        n = p.name
        if n in seen:
            parts = p.imp.split("/")
            n = ((parts[-2] if len(parts) > 1 else "std") + p.name).replace("-", "").replace(".", "")
        k = 2
        while n in seen:
            n = p.name + str(k)
            k += 1
        seen[n] = p
        out[p.path] = n
    return out


def emit_pkg_files(types, p, first):
    """The declarations of a package, over up to two files."""
    mine = [t for t in types if t.pkg is p]
    out = {first: emit_pkg_types([t for t in mine if not getattr(t, "second", False)], p)}
    text = emit_pkg_types([t for t in mine if getattr(t, "second", False)], p)
    away = [c for t in mine for c in getattr(t, "elsewhere", None) or []]
    if len(text.split("\n")) > 3 or away:
        out[first.replace("types_gen.go", "%s.go" % ("consts" if len(p.name) % 2 else "zconsts"))] = text + "\n".join(away)
    return out


def emit_pkg_types(types, p, extra_imports=()):
    mine = [t for t in types if t.pkg is p]
    need = []
    for t in mine:
        for d in deps(t):
            if d.pkg is not p and d.pkg not in need:
                need.append(d.pkg)
    al = aliases_for(need)
    imports = ["%s\"%s\"" % ("" if al[q.path] == q.name and q.name == q.imp.split("/")[-1] else al[q.path] + " ", q.imp) for q in need]
    parts, seen = [], []
    for t in mine:
        g = getattr(t, "group", None)
        if g is None:
            parts.append(emit_type(t, al))
        elif not any(x is g for x in seen):
            seen.append(g)
            parts.append(emit_group([u for u in mine if getattr(u, "group", None) is g], al))
    body = "\n".join(parts)
    head = "package %s\n\n" % p.name
    if imports:
        head += "import (\n%s\n)\n\n" % "\n".join("\t" + i for i in imports)
    return head + body
