"""The known findings: for each, the code that shows it and what is wrong with the document. A probe that no longer shows its defect says nothing."""
from apps import *

# id: (property, declarations, {key: (method, path, handler)}, judge(doc) -> what is wrong, or None)
PROBES = {}


def probe(fid, prop, decls, routes):
    def deco(f):
        PROBES[fid] = (prop, decls, routes, f)
        return f
    return deco


def op(doc, path, method="get"):
    return ((doc.get("paths") or {}).get(path) or {}).get(method) or {}


def schema(doc, path, method="get", status="200", ct="application/json"):
    s = ((((op(doc, path, method).get("responses") or {}).get(status) or {}).get("content") or {}).get(ct) or {}).get("schema") or {}
    s = resolve(s, doc) if s else {}
    return s.get("is", s)


def props(s):
    return s.get("properties") or {}


@probe("local-types", "C07", "func localA(c *gin.Context) {\n\ttype Local struct{ A int `json:\"a\"` }\n\tc.JSON(200, Local{})\n}\n\nfunc localB(c *gin.Context) {\n\ttype Local struct{ B string `json:\"b\"` }\n\tc.JSON(200, Local{})\n}",
       {"la": ("GET", "/la", "localA"), "lb": ("GET", "/lb", "localB")})
def _(doc):
    a, b = props(schema(doc, "/la")), props(schema(doc, "/lb"))
    if "a" not in a or "b" not in b:
        return "types of one name declared in the functions localA and localB: /la has %s, /lb has %s" % (sorted(a), sorted(b))


@probe("generic-instances", "C07", "type GPair[K any] struct {\n\tKey K `json:\"key\"`\n}\n\nfunc genA(c *gin.Context) { c.JSON(200, GPair[string]{}) }\n\nfunc genB(c *gin.Context) { c.JSON(200, GPair[int]{}) }",
       {"ga": ("GET", "/ga", "genA"), "gb": ("GET", "/gb", "genB")})
def _(doc):
    a, b = props(schema(doc, "/ga")).get("key"), props(schema(doc, "/gb")).get("key")
    if (a or {}).get("type") != "string" or (b or {}).get("type") != "integer":
        return "GPair[string] and GPair[int]: key is %s and %s" % (a, b)


@probe("nested-elements", "C05", "type Nested struct {\n\tRows [][]int `json:\"rows\"`\n\tIdx map[string][]string `json:\"idx\"`\n}\n\nfunc nested(c *gin.Context) { c.JSON(200, Nested{}) }", {"ne": ("GET", "/ne", "nested")})
def _(doc):
    p = props(schema(doc, "/ne"))
    i = (((p.get("rows") or {}).get("items") or {}).get("items") or {}).get("type")
    j = (((p.get("idx") or {}).get("additionalProperties") or {}).get("items") or {}).get("type")
    if i != "integer" or j != "string":
        return "[][]int is %s, map[string][]string is %s" % (p.get("rows"), p.get("idx"))


@probe("bytes", "C05", "type Bytes struct {\n\tRaw []byte `json:\"raw\"`\n\tOne byte `json:\"one\"`\n}\n\nfunc bytesOf(c *gin.Context) { c.JSON(200, Bytes{}) }", {"by": ("GET", "/by", "bytesOf")})
def _(doc):
    p = props(schema(doc, "/by"))
    if (p.get("raw") or {}).get("type") != "string" or (p.get("one") or {}).get("type") != "integer":
        return "[]byte is %s, byte is %s" % (p.get("raw"), p.get("one"))


@probe("enum-values", "C05", "type Signed int\n\nconst (\n\tMinus Signed = -1\n\tZero  Signed = 0\n\tPlus  Signed = 1\n)\n\ntype Iota int\n\nconst (\n\tI0 Iota = iota\n\tI1\n\tI2\n)\n\ntype Enums struct {\n\tS Signed `json:\"s\"`\n\tI Iota `json:\"i\"`\n}\n\nfunc enums(c *gin.Context) { c.JSON(200, Enums{}) }",
       {"en": ("GET", "/en", "enums")})
def _(doc):
    p = props(schema(doc, "/en"))
    s, i = (p.get("s") or {}).get("enum"), (p.get("i") or {}).get("enum")
    if (s and sorted(map(str, s)) != ["-1", "0", "1"]) or (i and sorted(map(str, i)) != ["0", "1", "2"]):
        return "the constants -1, 0, 1 are the enum %s, those of iota %s" % (s, i)


@probe("yaml-names", "C05", "type YamlNames struct {\n\tFirstName string\n\tAge int\n}\n\nfunc yamlNames(c *gin.Context) { c.YAML(200, YamlNames{}) }", {"yn": ("GET", "/yn", "yamlNames")})
def _(doc):
    p = props(schema(doc, "/yn", ct="application/yaml"))
    if p and "firstname" not in p:
        return "the untagged fields FirstName and Age, which YAML encodes as firstname and age, are %s" % sorted(p)


@probe("helper-methods", "C03", "type Service struct{}\n\nfunc (s *Service) reply(c *gin.Context) { c.JSON(201, \"x\") }\n\nvar service = &Service{}\n\nfunc viaMethod(c *gin.Context) { service.reply(c) }", {"hm": ("GET", "/hm", "viaMethod")})
def _(doc):
    if "201" not in (op(doc, "/hm").get("responses") or {}):
        return "the answer 201 of the method service.reply(c) is not documented: %s" % sorted(op(doc, "/hm").get("responses") or {})


@probe("status-parameter", "C03", "func answer(c *gin.Context, status int) { c.JSON(status, \"x\") }\n\nfunc viaStatus(c *gin.Context) { answer(c, 202) }", {"sp": ("GET", "/sp", "viaStatus")})
def _(doc):
    if "202" not in (op(doc, "/sp").get("responses") or {}):
        return "the status 202 given to the helper answer(c, 202) is not documented: %s" % sorted(op(doc, "/sp").get("responses") or {})


@probe("anonymous-struct", "C03", "func anon(c *gin.Context) {\n\tc.JSON(200, struct {\n\t\tA int `json:\"a\"`\n\t}{1})\n}", {"an": ("GET", "/an", "anon")})
def _(doc):
    s = schema(doc, "/an")
    if "a" not in props(s):
        return "the fields of the anonymous struct in c.JSON are missing: %s" % s


@probe("untyped-constant", "C03", "const greeting = \"hello\"\n\nfunc untyped(c *gin.Context) { c.JSON(200, greeting) }", {"uc": ("GET", "/uc", "untyped")})
def _(doc):
    s = schema(doc, "/uc")
    if s.get("type") != "string":
        return "the constant greeting is described as %s" % s


@probe("one-line", "C03", "func oneLine(r string) []gin.HandlerFunc {\n\treturn []gin.HandlerFunc{func(c *gin.Context) { c.Status(201) }, func(c *gin.Context) { c.Status(202) }}\n}", {"o1": ("GET", "/o1", "oneLine(\"\")[0]"), "o2": ("GET", "/o2", "oneLine(\"\")[1]")})
def _(doc):
    a, b = sorted(op(doc, "/o1").get("responses") or {}), sorted(op(doc, "/o2").get("responses") or {})
    if a != ["201"] or b != ["202"]:
        return "two function literals on one line: /o1 has %s, /o2 has %s" % (a, b)


@probe("form-and-post-form", "C04", "type PF struct {\n\tA string `form:\"a\"`\n}\n\nfunc boundAndPost(c *gin.Context) {\n\tvar p PF\n\t_ = c.ShouldBindWith(&p, nil)\n\t_ = c.Bind(&p)\n\t_ = c.PostForm(\"b\")\n}", {"fp": ("POST", "/fp", "boundAndPost")})
def _(doc):
    b = ((op(doc, "/fp", "post").get("requestBody") or {}).get("content") or {})
    for ct in ("application/x-www-form-urlencoded", "multipart/form-data"):
        if ct in b:
            s = resolve(b[ct].get("schema") or {}, doc)
            t = json.dumps(s)
            if '"a"' not in t or '"b"' not in t:
                return "the form of a bound struct with field a and PostForm(\"b\") is %s for %s" % (s, ct)


@probe("should-bind-headers", "C04", "type SB struct {\n\tA string `header:\"X-A\" json:\"a\"`\n}\n\nfunc shouldBind(c *gin.Context) {\n\tvar p SB\n\t_ = c.ShouldBind(&p)\n}", {"sb": ("POST", "/sb", "shouldBind")})
def _(doc):
    ps = [p for p in op(doc, "/sb", "post").get("parameters") or [] if p.get("in") == "header"]
    if ps:
        return "ShouldBind, which reads no headers, has the header parameters %s" % [p["name"] for p in ps]


@probe("operation-ids", "C06", "func sameFunc(c *gin.Context) { c.Status(200) }", {"s1": ("GET", "/s1", "sameFunc"), "s2": ("GET", "/s2", "sameFunc")})
def _(doc):
    a, b = op(doc, "/s1").get("operationId"), op(doc, "/s2").get("operationId")
    if a and a == b:
        return "the two routes of one handler have the operationId %s" % a


@probe("azure-names", "C17", "func sameAzure(c *gin.Context) { c.Status(200) }", {"z1": ("GET", "/z1", "sameAzure"), "z2": ("GET", "/z2", "sameAzure")})
def _(doc, ev):
    e = ev.gen.get("azure") or {}
    if e.get("err"):
        return "the Azure Functions output of two routes that share a handler fails: %s" % e["err"]


@probe("embed", "C09", "//go:embed embedded.txt\nvar embedded string\n\nfunc embeds(c *gin.Context) { c.String(200, embedded) }", {"em": ("GET", "/em", "embeds")})
def _(doc, ev):
    if doc is None:
        return "an application whose main package embeds files can't be generated: %s" % (ev.gen.get("f") or {}).get("err")


@probe("only-other-tags", "C05", "type OtherTag struct {\n\tA string `json:\"a\"`\n\tB string `xml:\"b\"`\n}\n\nfunc otherTag(c *gin.Context) { c.JSON(200, OtherTag{}) }", {"ot": ("GET", "/ot", "otherTag")})
def _(doc):
    p = props(schema(doc, "/ot"))
    if sorted(p) != ["B", "a"]:
        return "field B with only an xml tag, which JSON encodes as B: the properties are %s" % sorted(p)


@probe("pseudo-types", "C07", "type file struct {\n\tN int `json:\"n\"`\n}\n\ntype float struct {\n\tM int `json:\"m\"`\n}\n\nfunc pseudo(c *gin.Context) { c.JSON(200, file{}) }\n\nfunc pseudoB(c *gin.Context) { c.JSON(200, float{}) }", {"ps": ("GET", "/ps", "pseudo"), "pt": ("GET", "/pt", "pseudoB")})
def _(doc):
    p, q = schema(doc, "/ps"), schema(doc, "/pt")
    if "n" not in props(p) or "m" not in props(q):
        return "structs named file and float are described as %s and %s" % (p, q)


def run_probes(check):
    """Prints the known findings of the check's property that still show, and raises nothing else."""
    listed = {f["id"]: f for f in check.findings}
    mine = {k: v for k, v in PROBES.items() if v[0] == check.prop and k in listed}
    if not mine:
        return
    for fid, what in observe(mine).items():
        if what:
            check.known_finding(fid, what)


def observe(probes):
    # What stops the generation of everything has an application of its own
    out = {}
    for alone in [[k] for k in probes if k == "embed"] + [[k for k in probes if k != "embed"]]:
        if alone:
            out.update(observe_app({k: probes[k] for k in alone}))
    return out


def observe_app(probes):
    decls = "\n\n".join(v[1] for v in probes.values())
    regs = "\n".join('\trt.Handle("%s", "%s", "%s", %s)' % (k, m, p, h) for v in probes.values() for k, (m, p, h) in v[2].items())
    main = 'package main\n\nimport (\n%s\t"github.com/gin-gonic/gin"\n\t"%s/rt"\n)\n\n%s\n\nfunc main() {\n%s\n\trt.Main()\n}\n' % ('\t_ "embed"\n\n' if "embed" in probes else "", MODULE, decls, regs)
    name = "findings-" + sorted(probes)[0]
    d, b = build_app({"main.go": main, "embedded.txt": "x"}, name)
    keys = [k for v in probes.values() for k in v[2]]
    steps = [route_step("f", keys)]
    if "azure-names" in probes:
        steps.append(route_step("azure", ["z1", "z2"], outputs=[["azure", "az"]]))
    ev = run_app(d, b, steps, name)
    doc, why = ev.doc("f", "o.json")
    if doc is None and "embed" not in probes:
        return {}
    return {k: v[3](doc, ev) if v[3].__code__.co_argcount == 2 else v[3](doc) for k, v in probes.items()}


if __name__ == "__main__":
    for k, w in observe(PROBES).items():
        print(k, PROBES[k][0], "->", w)
