"""The ground truth of generated programs: Go types, and what OpenAPI has to say about them."""

# The documented mapping of Go's predeclared types (type, format).
TABLE = {
    "string": ("string", None), "int": ("integer", "int32"), "int8": ("integer", "int8"), "int16": ("integer", "int16"),
    "int32": ("integer", "int32"), "int64": ("integer", "int64"), "uint": ("integer", "uint"), "uint8": ("integer", "uint8"),
    "uint16": ("integer", "uint16"), "uint32": ("integer", "uint32"), "uint64": ("integer", "uint64"),
    "float32": ("number", "float32"), "float64": ("number", "float64"), "bool": ("boolean", None),
    "byte": ("string", "byte"), "rune": ("string", "rune"),
}
BASICS = ["string", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64",
          "float32", "float64", "bool"]
BINDINGS = ["header", "form", "uri", "json", "xml", "yaml"]


class Pkg:
    def __init__(self, dir, name, module="example.com/genapp"):
        self.dir, self.name = dir, name
        self.path = "main" if dir == "" else module + "/" + dir
        self.imp = module + "/" + dir
        self.base = "main" if dir == "" else dir.split("/")[-1]


class T:
    """A named type. kind: struct, enum, basic, slice, array, map, iface, special."""

    def __init__(self, pkg, name, kind, **kw):
        self.pkg, self.name, self.kind = pkg, name, kind
        self.fields = kw.get("fields", [])
        self.under = kw.get("under")
        self.consts = kw.get("consts", [])
        self.doc = kw.get("doc", "")
        self.tagmode = kw.get("tagmode", "none")
        self.grouped = kw.get("grouped", False)
        self.schema = kw.get("schema")
        self.n = kw.get("n", 0)
        self.style = "plain"

    def __repr__(self):
        return self.key

    @property
    def key(self):
        return "%s.%s" % (self.pkg.path, self.name)

    def goname(self, pkg, alias=None):
        return self.name if pkg is self.pkg else "%s.%s" % (alias or self.pkg.name, self.name)


class Field:
    def __init__(self, name, ft, tags=None, embedded=False, opts=None, doc="", binding=""):
        self.name, self.ft, self.tags, self.embedded, self.opts, self.doc, self.binding = name, ft, tags or {}, embedded, opts or {}, doc, binding

    @property
    def exported(self):
        return self.name[:1].isupper()

    def prop(self, binding, any_tag):
        """The name of the field in this binding; None when it is left out; False when the binding has no name for it."""
        if binding in self.tags:
            v = self.tags[binding]
            return None if v == "-" else (v.split(",")[0] or self.name)
        if not self.tags:
            return self.name
        return False

    def tagtext(self):
        parts = []
        for b in BINDINGS:
            if b in self.tags:
                parts.append('%s:"%s%s"' % (b, self.tags[b], "".join("," + o for o in self.opts.get(b, []))))
        if self.binding:
            parts.append('binding:"%s"' % self.binding)
        return " `%s`" % " ".join(parts) if parts else ""


def strip(ft):
    while ft[0] == "p":
        ft = ft[1]
    return ft


def desc(ft):
    """What the schema of a field type has to be."""
    ft = strip(ft)
    if ft[0] == "s":
        return ("s", desc(ft[1]))
    if ft[0] == "a":
        return ("a", ft[1], desc(ft[2]))
    if ft[0] == "m":
        return ("m", desc(ft[2]))
    return ft


def named(ft):
    ft = strip(ft)
    if ft[0] == "n":
        return [ft[1]]
    if ft[0] in ("s",):
        return named(ft[1])
    if ft[0] == "a":
        return named(ft[2])
    if ft[0] == "m":
        return named(ft[1]) + named(ft[2])
    return []


def gotype(ft, pkg, aliases=None):
    k = ft[0]
    if k == "b":
        return ft[1]
    if k == "n":
        return ft[1].goname(pkg, (aliases or {}).get(ft[1].pkg.path))
    if k == "p":
        return "*" + gotype(ft[1], pkg, aliases)
    if k == "s":
        return "[]" + gotype(ft[1], pkg, aliases)
    if k == "a":
        return "[%d]%s" % (ft[1], gotype(ft[2], pkg, aliases))
    if k == "m":
        return "map[%s]%s" % (gotype(ft[1], pkg, aliases), gotype(ft[2], pkg, aliases))
    if k == "any":
        return ft[1] if len(ft) > 1 else "any"
    raise ValueError(ft)


def deps(t):
    out = []
    for f in t.fields:
        out += named(f.ft)
    if t.under:
        out += named(t.under)
    return out


def closure(ts):
    seen, todo = [], list(ts)
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.append(t)
        todo += deps(t)
    return seen


TIMEPKG = Pkg("time", "time")
TIMEPKG.path = TIMEPKG.imp = "time"
TIME = T(TIMEPKG, "Time", "special", schema={"type": "string", "format": "date-time"})
DURATION = T(TIMEPKG, "Duration", "special", schema={"type": "integer", "format": "int32"})
UUIDPKG = Pkg("uuid", "uuid")
UUIDPKG.path = UUIDPKG.imp = "github.com/google/uuid"
UUID = T(UUIDPKG, "UUID", "special", schema={"type": "string", "format": "uuid"})
GINPKG = Pkg("gin", "gin")
GINPKG.path = GINPKG.imp = "github.com/gin-gonic/gin"
GINH = T(GINPKG, "H", "map", under=("m", ("b", "string"), ("any",)))


def doc_text(doc, style, name="it"):
    """A doc comment in one of the ways to write it, with what is near but isn't part of it."""
    lines = "".join("// %s\n" % l if l else "//\n" for l in doc.split("\n")) if doc else ""
    if style == "block" and doc:
        return "/*\n%s\n*/\n" % doc
    if style == "oneblock" and doc and "\n" not in doc:
        return "/* %s */\n" % doc
    if style == "directive":
        return lines + ("//\n" if doc else "") + "//nolint:revive\n" + ("//lint:ignore U1000 it is used\n" if len(doc) % 2 else "")
    if style == "detached":
        return "// %s is not documented by this.\n\n" % name + lines
    if style == "detachedblock":
        return "/*\nNor by this.\n*/\n\n" + lines
    return lines


DOCSTYLES = ["line"] * 6 + ["block", "oneblock", "directive", "detached", "detachedblock"]


def declaration(t, aliases):
    own = getattr(t, "owndoc", t.doc)
    doc = doc_text(own, getattr(t, "docstyle", "line"), t.name)
    if t.kind == "struct":
        body = []
        for f in t.fields:
            if f.doc:
                body.append("\t// " + f.doc)
            ty = gotype(f.ft, t.pkg, aliases)
            body.append("\t%s%s" % (ty if f.embedded else "%s %s" % (f.name, ty), f.tagtext()))
        decl = "%s struct {\n%s\n}" % (t.name, "\n".join(body))
    elif t.kind == "iface":
        decl = "%s interface {\n\tDescribe%s() string\n}" % (t.name, t.name)
    else:
        decl = "%s %s" % (t.name, gotype(t.under, t.pkg, aliases))
    if getattr(t, "trailing", False):
        decl += " // %s has a comment behind it." % t.name
    return doc, decl


def emit_group(ts, aliases=None):
    """Types of one group, and their constants."""
    group = getattr(ts[0], "group", None) or {}
    body = "\n\n".join(indented("%s%s" % declaration(t, aliases)) for t in ts)
    out = [doc_text(group.get("doc", ""), group.get("style", "line"), "The group") + "type (\n%s\n)\n" % body]
    for t in ts:
        out += local_constants(t)
    return "\n".join(out)


def indented(s):
    # Lines of block comments stay where they are
    if s.startswith("/*\n"):
        i = s.index("*/")
        return s[:i] + indented(s[i:])
    return "\n".join("\t" + l if l else l for l in s.split("\n"))


def emit_type(t, aliases=None):
    doc, decl = declaration(t, aliases)
    return "\n".join(["%stype %s\n" % (doc, decl)] + local_constants(t))


def local_constants(t):
    out = []
    t.elsewhere = None
    cs = constants(t)
    if getattr(t, "away", 0):
        # The constants, or the last of them, are in another file of the package
        n = len(cs) if t.away == 2 else max(1, len(cs) - 1)
        cs, t.elsewhere = cs[:-n] if n else cs, cs[-n:]
    out += cs
    return out


def constants(t):
    """The declarations of the constants of an enum, in one of the ways to write them."""
    def group(rows):
        return ["const (\n%s\n)\n" % "\n".join("\t" + r for r in rows)]
    n, cs = t.name, t.consts
    if t.style == "flags":
        return group(["%sFlagA %s = 1 << iota" % (n, n), n + "FlagB", n + "FlagC"])
    if not cs:
        return []
    if getattr(t, "away", 0) == 1 and t.style in ("conv", "expr"):
        t.style = "plain"
    plain = ["%s %s = %s" % (c, n, v) for c, v in cs]
    conv = ["%s = %s(%s)" % (c, n, v) for c, v in cs]
    if t.style in ("plain", "parenthesised", "dup", "other") and getattr(t, "away", 0) == 1 and len(cs) > 1:
        return group(plain[:1]) + group(plain[1:])
    if t.style == "separate":
        return ["const %s\n" % r for r in plain]
    if t.style == "conv":
        return group(conv)
    if t.style == "multi":
        return ["const %s %s = %s\n" % (", ".join(c for c, _ in cs), n, ", ".join(v for _, v in cs))]
    if t.style == "names":
        return ["const %s = %s\n" % (", ".join(c for c, _ in cs), ", ".join("%s(%s)" % (n, v) for _, v in cs))]
    if t.style == "dup":
        return group(plain + ["%sDefault = %s" % (n, cs[0][0]), "%sOther %s = %s" % (n, n, cs[-1][1])])
    if t.style == "expr":
        op = {"string": '%s + ""'}.get(t.under[1], "%s + 0")
        return group(["%s %s = %s" % (c, n, op % v) for c, v in cs])
    if t.style == "mixed":
        return group([plain[0]]) + ["const %s\n" % conv[1]] + (group([x for i, x in enumerate(plain[2:])]) if len(cs) > 2 else [])
    if t.style == "iota":
        first = int(cs[0][1])
        return group(["%s %s = iota%s" % (cs[0][0], n, " + %d" % first if first else "")] + [c for c, _ in cs[1:]])
    if t.style == "parenthesised":
        return group(["%s %s = (%s)" % (c, n, v) for c, v in cs])
    if t.style == "other":
        # What is no constant of the type: variables, constants of other types, of functions
        v = cs[0][1]
        other = {"string": '"else"'}.get(t.under[1], "99")
        return group(plain + ["%sPlain = %s" % (n, other)]) + ["var %sVar %s = %s\n" % (n, n, other), "func %sLocal() %s {\n\tconst local %s = %s\n\treturn local\n}\n" % (n, n, n, other),
                                                             "type %sKind %s\n\nconst %sKindA %sKind = %s\n" % (n, n, n, n, other)]
    return group(plain)
